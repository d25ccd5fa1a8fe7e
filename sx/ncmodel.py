"""In-memory model of the part of netCDF4 used by sofar.

The rules (dimension checks, broadcasting of assigned data, masked reads,
character arrays) follow netCDF4 1.7.5; every explored path is replayed
against the real library, which validates the model.

The content of a file lives in FS (path -> File); an empty real file is kept
at the same place, so that code asking the operating system sees it.
"""
import os
import numpy as np
import z3
from . import core, arr
from .core import SymInt, SymReal, num, mkbool, to_z3
from .arr import SymArr, to_arr
from .text import SymStr, SymBytes, mk, mkbytes, expand

FILL = 9.969209968386869e+36


class State:
    """Reset for every path."""

    def __init__(self):
        self.files = {}
        self.log = []            # (operation, path)
        self.open = []           # open datasets
        self.opened = 0
        self.fault = None        # callable(op number, name) -> error or None
        self.ops = 0

    def op(self, name, ds=None):
        self.ops += 1
        self.log.append(name)
        if self.fault is not None:
            x = self.fault(self.ops, name)
            if x is not None:
                raise x


S = State()


class File:
    def __init__(self):
        self.attrs = {}
        self.dims = {}          # name -> [size, unlimited]
        self.vars = {}          # name -> Var
        self.mtime = 0

    def copy(self):
        f = File()
        f.attrs = dict(self.attrs)
        f.dims = {k: list(v) for k, v in self.dims.items()}
        f.vars = {k: v.copy() for k, v in self.vars.items()}
        return f


class Var:
    def __init__(self, dtype, dims):
        self.dtype, self.dims = dtype, dims
        self.attrs = {}
        self.data = None
        self.opts = {}

    def copy(self):
        v = Var(self.dtype, self.dims)
        v.attrs, v.data = dict(self.attrs), self.data
        v.opts = dict(self.opts)
        return v


def path_key(p):
    if type(p) is SymStr:
        c = p.canonical()
        p = c if isinstance(c, str) and type(c) is not SymStr else c
        if type(p) is SymStr:
            core.E.unsupported("symbolic file name")
        return os.path.abspath(p)
    return os.path.abspath(os.fspath(p))


class Dimension:
    def __init__(self, name, rec):
        self.name, self._rec = name, rec

    @property
    def size(self):
        return self._rec[0]

    def __len__(self):
        return int(self._rec[0])

    def isunlimited(self):
        return self._rec[1]


def attr_value(v):
    """Attribute values as netCDF4 stores and returns them."""
    if isinstance(v, str):
        if type(v) is SymStr:
            return v
        return str(v)
    if isinstance(v, bool):
        raise TypeError("illegal data type for attribute")
    if isinstance(v, (int, float, np.number)):
        if core.is_sym(v):
            return num(v.e, True)
        return np.float64(v) if isinstance(v, float) else np.int64(v)
    if isinstance(v, (list, tuple, np.ndarray)):
        return v
    raise TypeError("illegal data type for attribute, must be one of ...")


class _Attrs:
    """Attribute access shared by datasets and variables."""

    def _store(self):
        raise NotImplementedError

    def ncattrs(self):
        self._live()
        S.op("ncattrs")
        return list(self._store().keys())

    def getncattr(self, name, encoding="utf-8"):
        self._live()
        S.op("getattr")
        st = self._store()
        if name in st:
            return st[name]
        raise AttributeError("NetCDF: Attribute not found")

    def setncattr(self, name, value):
        self._live()
        self._writable()
        S.op("setattr")
        if not isinstance(name, str) or len(name) == 0:
            raise AttributeError("NetCDF: Name contains illegal characters")
        self._store()[name] = attr_value(value)

    setncattr_string = setncattr

    def setncatts(self, attdict):
        for k, v in attdict.items():
            self.setncattr(k, v)

    def delncattr(self, name):
        self._live()
        self._writable()
        del self._store()[name]

    def _sx_has(self, name):
        return name in self._own() or name in self._store()

    def __getattr__(self, name):
        if isinstance(name, str) and name.startswith("__"):
            raise AttributeError(name)
        self._live()
        S.op("getattr")
        st = self._store()
        if name in st:
            return st[name]
        raise AttributeError("NetCDF: Attribute not found")

    def __setattr__(self, name, value):
        if name.startswith("_nc") and type(name) is str:
            object.__setattr__(self, name, value)
            return
        if name in self._own():
            raise AttributeError(f"'{name}' is one of the reserved "
                                 "attributes, cannot rebind.")
        self.setncattr(name, value)

    def _own(self):
        return self._OWN


class Dataset(_Attrs):
    _OWN = ("_grpid", "_grp", "dimensions", "variables", "groups", "cmptypes",
            "vltypes", "enumtypes", "data_model", "disk_format", "parent",
            "path", "name", "keepweakref", "file_format", "_varid",
            "_ncstring_attrs__", "auto_complex", "ncattrs", "close")

    def __init__(self, filename, mode="r", clobber=True, format="NETCDF4",
                 **kw):
        self._nc_open = False
        path = path_key(filename)
        self._nc_path, self._nc_mode = path, mode
        S.op("open-" + mode)
        if mode in ("r", "a", "r+"):
            if path not in S.files:
                if os.path.isfile(path):
                    raise OSError(-51, "NetCDF: Unknown file format", path)
                raise FileNotFoundError(2, "No such file or directory", path)
            if not os.path.isfile(path):
                raise FileNotFoundError(2, "No such file or directory", path)
        elif mode in ("w", "x"):
            if not os.path.isdir(os.path.dirname(path)) or \
                    os.path.isdir(path):
                raise PermissionError(13, "Permission denied", path)
            if (mode == "x" or not clobber) and os.path.exists(path):
                raise OSError(17, "File exists", path)
            if any(d._nc_path == path and d._nc_open for d in S.open):
                raise PermissionError(13, "Permission denied", path)
            S.files[path] = File()
            with open(path, "wb"):
                pass
        else:
            raise ValueError(f"mode must be 'w', 'x', 'r', 'a' or 'r+', got "
                             f"'{mode}'")
        self._nc_file = S.files[path]
        self._nc_open = True
        self._nc_objs = {}
        S.open.append(self)
        S.opened += 1

    def _live(self):
        if not self._nc_open:
            raise RuntimeError("NetCDF: Not a valid ID")

    def _writable(self):
        if self._nc_mode == "r":
            raise RuntimeError("NetCDF: Write to read only")

    def _store(self):
        return self._nc_file.attrs

    def close(self):
        self._live()
        # a failing close still releases the handle
        self._nc_open = False
        S.op("close")

    def sync(self):
        pass

    def isopen(self):
        return self._nc_open

    def filepath(self, encoding=None):
        return self._nc_path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self._nc_open:
            self.close()

    def _own(self):
        return Dataset._OWN

    @property
    def data_model(self):
        return "NETCDF4"

    @property
    def dimensions(self):
        return {k: Dimension(k, r) for k, r in self._nc_file.dims.items()}

    @property
    def variables(self):
        return {k: self._var(k) for k in self._nc_file.vars}

    @property
    def groups(self):
        return {}

    def _var(self, name):
        if name not in self._nc_objs:
            self._nc_objs[name] = Variable(self, name,
                                           self._nc_file.vars[name])
        return self._nc_objs[name]

    def __getitem__(self, name):
        self._live()
        if name in self._nc_file.vars:
            return self._var(name)
        raise IndexError(f"{name} not found in /")

    def set_auto_mask(self, True_or_False):
        core.E.unsupported("set_auto_mask")

    set_auto_maskandscale = set_always_mask = set_auto_mask

    def set_auto_scale(self, True_or_False):
        pass

    def createDimension(self, dimname, size=None):
        name = dimname
        self._live()
        self._writable()
        S.op("createDimension")
        if name in self._nc_file.dims:
            raise RuntimeError("NetCDF: String match to name in use")
        if size is None:
            rec = [0, True]
        elif type(size) is not SymInt and int(size) == 0:
            rec = [0, True]
        elif type(size) is SymInt and bool(size == 0):
            rec = [0, True]
        else:
            if bool(size < 0):
                raise RuntimeError("NetCDF: Invalid dimension size")
            rec = [size if type(size) is SymInt else int(size), False]
        self._nc_file.dims[name] = rec
        return Dimension(name, rec)

    def createVariable(self, varname, datatype, dimensions=(), compression=None,
                       zlib=False, complevel=4, shuffle=True, **kw):
        self._live()
        self._writable()
        S.op("createVariable")
        if compression == "zlib":
            zlib = True
        elif compression:
            core.E.unsupported(f"compression {compression}")
        if isinstance(dimensions, (str, Dimension)):
            dimensions = (dimensions,)
        dims = []
        for d in dimensions:
            d = getattr(d, "name", d) if not isinstance(d, str) else d
            if d not in self._nc_file.dims:
                raise KeyError(f"dimension {d} not defined in group / or "
                               "any group in it's family tree")
            dims.append(d)
        if varname in self._nc_file.vars:
            raise RuntimeError("NetCDF: String match to name in use")
        if kw.get("least_significant_digit") is not None or \
                kw.get("significant_digits") is not None:
            core.E.unsupported("quantisation")
        fill = kw.pop("fill_value", None)
        if datatype is str:
            core.E.unsupported("variable length strings")
        dt = np.dtype({"d": "f8", "f": "f4", "c": "S1"}.get(datatype,
                                                            datatype)
                      if isinstance(datatype, str) else datatype)
        if dt.kind in "US" and dt.itemsize > (4 if dt.kind == "U" else 1):
            core.E.unsupported("variable length strings")
        if zlib and not (0 <= int(complevel) <= 9):
            raise RuntimeError("NetCDF: Invalid argument")
        v = Var(dt, tuple(dims))
        v.opts = {"zlib": zlib, "complevel": complevel, "fill": fill}
        if fill is not None:
            v.attrs["_FillValue"] = fill
        self._nc_file.vars[varname] = v
        return self._var(varname)


class Variable(_Attrs):
    _OWN = ("_grpid", "_grp", "_varid", "_name", "dimensions", "dtype",
            "size", "ndim", "shape", "name", "mask", "scale", "datatype",
            "ncattrs", "group", "chartostring", "always_mask", "endian_",
            "_cmptype", "_vltype", "_enumtype", "_isprimitive", "_iscompound",
            "_isvlen", "_isenum", "_nunlimdim", "_use_get_vars",
            "_ncstring_attrs__", "auto_complex")

    def __init__(self, ds, name, var):
        self._nc_ds, self._nc_name, self._nc_var = ds, name, var

    def _live(self):
        self._nc_ds._live()

    def _writable(self):
        self._nc_ds._writable()

    def _store(self):
        return self._nc_var.attrs

    @property
    def __class__(self):
        import netCDF4
        return netCDF4.Variable

    @property
    def name(self):
        return self._nc_name

    @property
    def dimensions(self):
        return self._nc_var.dims

    @property
    def dtype(self):
        return self._nc_var.dtype

    @property
    def datatype(self):
        return self._nc_var.dtype

    @property
    def shape(self):
        return tuple(self._nc_ds._nc_file.dims[d][0]
                     for d in self._nc_var.dims)

    @property
    def ndim(self):
        return len(self._nc_var.dims)

    @property
    def size(self):
        return SymArr(self.shape, None, "f8", store=arr.Store(None)).size

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return int(self.shape[0])

    def filters(self):
        z = self._nc_var.opts.get("zlib", False)
        return {"zlib": bool(z),
                "complevel": self._nc_var.opts["complevel"] if z else 0}

    def get_dims(self):
        return tuple(self._nc_ds.dimensions[d] for d in self.dimensions)

    def group(self):
        return self._nc_ds

    def getValue(self):
        if self.ndim:
            raise IndexError("to retrieve values from a non-scalar variable, "
                             "use slicing")
        return self[...]

    def __repr__(self):
        return core.token(self, "V")

    __str__ = __repr__

    def set_auto_mask(self, v):
        core.E.unsupported("set_auto_mask")

    set_auto_maskandscale = set_always_mask = set_auto_mask

    # -- reading -----------------------------------------------------------
    def _full(self):
        v = self._nc_var
        shape = self.shape
        if v.data is None:
            kind = v.dtype.kind
            if kind == "S":
                o = np.empty([int(d) for d in shape], dtype=object)
                o[...] = ""
                a = arr.explicit(o, "S")
                a._dtype = np.dtype("S1")
                a._masked = True
                return a
            return SymArr(shape, lambda i: z3.RealVal("996920996838686900000"
                                                      "0000000000000000"),
                          v.dtype, True, lambda i: z3.BoolVal(True))
        d = v.data
        a = SymArr(shape, d.elem, v.dtype, True, d._mask)
        return a

    def __getitem__(self, key):
        self._live()
        S.op("read")
        a = self._full()
        if self._nc_var.attrs.get("_Encoding") is not None and \
                self._nc_var.dtype == np.dtype("S1") and a.ndim > 0:
            b = chartostring(a)
            b = arr.astype(b, "U")
            b._masked = True
            return b if key in (slice(None), Ellipsis) else b[key]
        if key == slice(None) or key is Ellipsis:
            return a
        if a.ndim == 0:
            return a
        r = a[key]
        if type(r) is not SymArr:
            # netCDF4 returns a 0-d masked array for single elements
            r = arr.scalar_array(r)
            r._masked = True
        return r

    def __array__(self, *a, **k):
        core.E.unsupported("conversion of a netCDF variable")

    # -- writing -----------------------------------------------------------
    def __setitem__(self, key, value):
        self._live()
        self._writable()
        S.op("write")
        if key != slice(None) and key is not Ellipsis:
            core.E.unsupported("partial write of a netCDF variable")
        v = self._nc_var
        dims = self._nc_ds._nc_file.dims
        if v.attrs.get("_Encoding") is not None and v.dtype.kind == "S" and \
                not (type(value) is SymArr and value._dtype == np.dtype("S1")):
            value = stringtochar(arr.astype(to_arr(value), "S"))
        a = to_arr(value)
        if v.dtype.kind == "S":
            if a._dtype.kind not in "SU":
                raise TypeError("cannot write numbers to characters")
        elif a._dtype.kind in "SU":
            core.E.unsupported("text written to a numeric variable")
        elif a._dtype != v.dtype:
            a = arr.astype(a, v.dtype)
        unlim = [k for k, d in enumerate(v.dims) if dims[d][1]]
        a = fit(a, [dims[d][0] for d in v.dims], unlim)
        for k, d in enumerate(v.dims):
            if dims[d][1]:
                size = arr.max_(dims[d][0], a.shape[k])
                dims[d][0] = size
        v.data = a.copy()


def fit(a, shape, unlimited):
    """Data as it ends up in a variable of the given shape."""
    n, m = a.ndim, len(shape)
    if unlimited:
        # sizes along unlimited dimensions follow the data
        if n != m:
            core.E.unsupported("rank mismatch with unlimited dimension")
        target = [a.shape[k] if k in unlimited else shape[k]
                  for k in range(m)]
        return arr.broadcast_to(a, target)
    if m == 0:
        if bool(core.neg(core.eq_num(a.size, 1))):
            raise IndexError("size of data array does not conform to slice")
        return arr.reshape(a, ())
    if n == 0:
        return arr.broadcast_to(a, shape)
    same = n == m and bool(core.conj(*[core.eq_num(x, y)
                                       for x, y in zip(a.shape, shape)]))
    if same:
        return a
    if n == 1 and m == 1:
        # 1-D data of another size
        if bool(core.eq_num(a.shape[0], 1)) and \
                bool(core.eq_num(shape[0], 1)):
            return a
        raise IndexError("size of data array does not conform to slice")
    # the shapes must be compatible for broadcasting ...
    out = arr.broadcast_shapes(tuple(shape), tuple(a.shape))
    # ... and then equal sizes are reshaped
    src = [d for d in a.shape if not arr.unit(d)]
    dst = [d for d in shape if not arr.unit(d)]
    if len(src) == len(dst) and \
            all(bool(core.eq_num(x, y)) for x, y in zip(src, dst)):
        return arr.reshape(a, shape)
    if len(out) == m and all(bool(core.eq_num(x, y))
                             for x, y in zip(out, shape)):
        return arr.broadcast_to(a, shape)
    raise ValueError("cannot broadcast data to the shape of the variable")


# --------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------
def stringtochar(a, encoding="utf-8", n_strlen=None):
    if not core.contains_sym(a):
        a = arr.const_array(np.asarray(a)) if not isinstance(a, SymArr) else a
    a = to_arr(a)
    dt = a._dtype
    if dt.kind not in "US":
        raise ValueError("type must be 'S' or 'U'")
    # netCDF4 1.7.5: arrays of bytes are only accepted without an encoding
    if dt.kind == "S" and encoding in ("utf-8", "utf8", "UTF-8"):
        raise AttributeError("'numpy.bytes_' object has no attribute "
                             "'encode'")
    if dt.kind == "S" and encoding != "ascii" or \
            dt.kind == "U" and encoding != "utf-8":
        core.E.unsupported(f"stringtochar with encoding {encoding}")
    width = dt.itemsize
    if n_strlen is not None:
        width = n_strlen
    o = a.objects()
    out = np.empty(o.shape + (width,), dtype=object)
    for i in np.ndindex(*o.shape):
        it = expand(o[i])
        for k in range(width):
            out[i + (k,)] = mkbytes((it[k],)) if k < len(it) else b""
    r = arr.explicit(out, "S")
    r._dtype = np.dtype("S1")
    return r


def chartostring(b, encoding="utf-8"):
    a = to_arr(b)
    if a._dtype.kind != "S" or a._dtype.itemsize != 1:
        raise ValueError("type must be 'S1'")
    o = a.objects()
    out = np.empty(o.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape[:-1]):
        it = ()
        for k in range(o.shape[-1]):
            c = o[i + (k,)]
            x = expand(c) if not isinstance(c, str) else expand(c)
            it += x if x else ("\0",)
        it = list(it)
        while it and type(it[-1]) is str and it[-1] == "\0":
            it.pop()
        out[i] = mk(it)
    kind = "S" if encoding in ("none", "None", "bytes") else "U"
    if kind == "S":
        for i in np.ndindex(*out.shape):
            out[i] = mkbytes(expand(out[i]))
    r = arr.explicit(out, kind)
    r._dtype = np.dtype(f"{kind}{max(1, int(o.shape[-1]))}")
    return r


class NC4Model:
    """Stand-in for module netCDF4."""

    def __init__(self):
        self.Dataset = Dataset
        self.chartostring = chartostring
        self.stringtochar = stringtochar

    def __getattr__(self, name):
        import netCDF4
        return getattr(netCDF4, name)
