"""What a property harness sees: one interface, two modes.

'sym'  : the instrumented package runs on symbolic inputs (engine core.E).
'real' : an unmodified copy of /repo/sofar runs on concrete inputs, with the
         real numpy, netCDF4 and file system.

A harness is a function of the context `c`.  It creates inputs (c.int,
c.text ...), calls the package (c.sf) through c.attempt, and states the
property with c.check.
"""
import builtins
import collections.abc
import contextlib
import importlib
import io
import json
import os
import random
import re
import shutil
import sys
import tempfile
import warnings
import numpy as np
import z3
from . import core, text, arr, ncmodel, load, fixture
from .core import (conj, disj, neg, implies, iff, eq_num, is_sym, mkbool,
                   SymInt, SymReal, SymBool)
from .text import SymStr, SymBytes, expand, mk
from .arr import SymArr, NPStr

REPO = os.environ.get("SX_REPO", "/repo")

ASCII = ((32, 126),)
IDENT = ((65, 90), (97, 122), (48, 57), (95, 95))
ALNUM = ((65, 90), (97, 122), (48, 57))
ALPHA = ((65, 90), (97, 122))
WIDE = ((1, 0x7f), (0xa0, 0x17f), (0x370, 0x3ff), (0x4e00, 0x4eff))


class Failed(Exception):
    """A check failed in a concrete run."""

    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Skip(BaseException):
    """The concrete inputs do not meet the assumptions of the harness."""


class Outcome:
    def __init__(self):
        self.ok, self.value, self.exc = True, None, None
        self.out, self.warnings = [], []

    @property
    def kind(self):
        return "ok" if self.ok else type(self.exc).__name__

    @property
    def text(self):
        """Everything that was printed, as one text."""
        return mk(tuple(x for o in self.out for x in expand(o)))

    @property
    def warned(self):
        return mk(tuple(x for _, m in self.warnings
                        for x in expand(text.tostr(m))))

    @property
    def message(self):
        if self.exc is None:
            return ""
        a = self.exc.args
        return text.tostr(a[0]) if a else ""

    def raised(self, *types):
        return (not self.ok) and isinstance(self.exc, types or Exception)


class Places:
    """Scratch folders of one worker process."""

    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="sxw"))
        self.sym = os.path.join(self.root, "sym", "sofar")
        self.real = os.path.join(self.root, "real", "sofar")
        with open(os.path.join(self.root, "pid"), "w") as f:
            f.write(str(os.getpid()))
        os.makedirs(self.sym)
        shutil.copytree(
            os.path.join(REPO, "sofar"), self.real,
            ignore=shutil.ignore_patterns("sofa_conventions", "__pycache__"))
        self.dirty = {self.sym: True, self.real: True}
        self.package = load.Package(os.path.join(REPO, "sofar"), self.sym)

    def conventions(self, base):
        return os.path.join(base, "sofa_conventions")

    def reset(self, base):
        if self.dirty[base]:
            d = self.conventions(base)
            shutil.rmtree(d, ignore_errors=True)
            fixture.write(d)
            self.dirty[base] = False

    def remove(self):
        shutil.rmtree(self.root, ignore_errors=True)


class Ctx:
    """Common part of both modes."""
    mode = None

    def __init__(self, places, tier="quick"):
        self.places, self.tier = places, tier
        self.thorough = tier == "thorough"
        self.trace = []
        self.dir = tempfile.mkdtemp(prefix="run", dir=places.root)
        self.hooks = []
        self.base = places.sym if self.mode == "sym" else places.real
        os.chdir(self.dir)

    # -- environment -------------------------------------------------------
    def path(self, *names):
        return os.path.join(self.dir, *names)

    def write_conventions(self, **kw):
        """Other convention tables for this run (see fixture.write)."""
        d = self.places.conventions(self.base)
        self.places.dirty[self.base] = True
        shutil.rmtree(d, ignore_errors=True)
        fixture.write(d, dumps=self.dumps, **kw)
        return d

    def close(self):
        os.chdir(self.places.root)
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- logic -------------------------------------------------------------
    conj, disj, neg = staticmethod(conj), staticmethod(disj), \
        staticmethod(neg)
    implies, iff = staticmethod(implies), staticmethod(iff)

    def attempt(self, fn, *args, **kw):
        o = Outcome()
        self._run(o, fn, args, kw)
        self.trace.append(o.kind)
        return o

    def must(self, fn, *args, msg=None, **kw):
        """Call that has to succeed: an exception violates the property."""
        o = self.attempt(fn, *args, **kw)
        if not o.ok:
            self.check(False, (msg or f"{getattr(fn, '__name__', 'call')} "
                               "fails") + f" ({o.kind}: "
                       f"{self.plain(o.message)[:300]})")
        return o

    @staticmethod
    def plain(s):
        """Readable text for messages (no symbols)."""
        return text.TOKEN.sub("?", "".join(
            c if type(c) is str else "?" for c in expand(s)))

    # -- comparison without forking ----------------------------------------
    def eq(self, a, b):
        """Same kind of value, same shape, same content."""
        return value_eq(a, b)

    def same_text(self, a, b):
        return text_eq(a, b)


def is_text(x):
    return isinstance(x, str)


def is_arr(x):
    return type(x) is SymArr or isinstance(x, np.ndarray)


def value_eq(a, b):
    if is_text(a) or is_text(b):
        if is_text(a) and is_text(b):
            return text_eq(a, b)
        # a 0-d or one-element text against plain text is not the same
        return False
    if isinstance(a, (bytes,)) or isinstance(b, bytes):
        if isinstance(a, bytes) and isinstance(b, bytes):
            return arr.txt_eq(a, b)
        return False
    if is_arr(a) or is_arr(b):
        if not (is_arr(a) and is_arr(b)):
            return False
        return arr_eq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return conj(*[value_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b) or list(a) != list(b):
            return False
        return conj(*[value_eq(a[k], b[k]) for k in a])
    if a is None or b is None:
        return a is b
    if core.is_numlike(a) and core.is_numlike(b):
        return num_eq(a, b)
    r = a == b
    return r


def num_eq(a, b):
    if is_sym(a) or is_sym(b):
        return eq_num(a, b)
    if a != a or b != b:
        return bool(a != a and b != b)
    return bool(a == b)


def dims_eq(sa, sb):
    if len(sa) != len(sb):
        return False
    return conj(*[eq_num(x, y) for x, y in zip(sa, sb)])


def elem(a, idx):
    """Element at an index of z3 terms or integers, as term or object."""
    if type(a) is SymArr:
        v = a.elem(idx)
        return v
    return a[tuple(int(i) for i in idx)]


def arr_eq(a, b):
    """Equal shapes and equal elements."""
    if type(a) is not SymArr and type(b) is not SymArr:
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "US" or b.dtype.kind in "US":
            if a.dtype.kind not in "US" or b.dtype.kind not in "US":
                return False
            return bool(np.all(a.astype("U") == b.astype("U")))
        if isinstance(a, np.ma.MaskedArray) or \
                isinstance(b, np.ma.MaskedArray):
            ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
            if not np.array_equal(ma, mb):
                return False
            a, b = np.ma.filled(a, 0), np.ma.filled(b, 0)
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    a, b = arr.to_arr(a), arr.to_arr(b)
    d = dims_eq(a.shape, b.shape)
    if d is False:
        return False
    ta, tb = a.dtype.kind in "US", b.dtype.kind in "US"
    if ta != tb:
        return False
    return conj(d, all_idx(a.shape, lambda i: cell_eq(a, b, i),
                           text=ta))


def cell_eq(a, b, i):
    u, v = a.elem(i), b.elem(i)
    ma, mb = a._mask, b._mask
    if ma is not None or mb is not None:
        x = core.to_z3(ma(i)) if ma is not None else z3.BoolVal(False)
        y = core.to_z3(mb(i)) if mb is not None else z3.BoolVal(False)
        u, v = core._same_sort(arr.lift_num(u), arr.lift_num(v))
        return mkbool(z3.And(x == y, z3.Implies(z3.Not(x), u == v)))
    if a.dtype.kind in "US":
        return text_eq(mk(expand(u)), mk(expand(v)))
    if no_real(u) or no_real(v):
        # real numbers of the solver are neither infinite nor nan
        return no_real(u) and no_real(v) and num_eq(u, v)
    u, v = core._same_sort(arr.lift_num(u), arr.lift_num(v))
    return mkbool(u == v)


def no_real(x):
    return isinstance(x, (float, np.floating)) and not np.isfinite(x)


def all_idx(shape, f, text=False):
    """For all indices of the shape (symbolic sizes: a quantifier)."""
    if all(type(d) is not SymInt for d in shape):
        return conj(*[f(i) for i in np.ndindex(*[int(d) for d in shape])])
    if text:
        shape = tuple(int(d) for d in shape)
        return conj(*[f(i) for i in np.ndindex(*shape)])
    e = core.E
    k = [z3.Int(e.fresh("k")) for _ in shape]
    inb = z3.And(*[z3.And(x >= 0, x < core.to_z3(d))
                   for x, d in zip(k, shape)])
    body = core.to_z3bool(f(tuple(k)))
    if isinstance(body, bool):
        body = z3.BoolVal(body)
    return mkbool(z3.ForAll(k, z3.Implies(inb, body)))


def text_items(s):
    """Items of a text; numbers printed symbolically become single items."""
    out, pos = [], 0
    raw = expand(s)
    i = 0
    while i < len(raw):
        c = raw[i]
        if type(c) is str and c == "\ue000":
            j = i + 1
            while not (type(raw[j]) is str and raw[j] == "\ue001"):
                j += 1
            out.append(core.E.objects["".join(raw[i:j + 1])])
            i = j + 1
            continue
        out.append(c)
        i += 1
    return out


def text_eq(a, b):
    """Equality of texts as a condition, symbolic numbers included."""
    if type(a) is str and type(b) is str and "\ue000" not in a \
            and "\ue000" not in b:
        return a == b
    x, y = text_items(a), text_items(b)
    conds, i, j = [], 0, 0
    while i < len(x) and j < len(y):
        u, v = x[i], y[j]
        nu, nv = is_sym(u), is_sym(v)
        if nu and nv:
            if type(u) is SymArr or type(v) is SymArr:
                conds.append(value_eq(u, v))
            elif type(u) in (SymInt, SymReal, SymBool) and \
                    type(v) in (SymInt, SymReal, SymBool):
                conds.append(eq_num(u, v))
            else:
                conds.append(u is v)
            i, j = i + 1, j + 1
        elif nu or nv:
            n, other, k = (u, y, j) if nu else (v, x, i)
            if type(n) not in (SymInt, SymReal):
                return False
            m = k
            while m < len(other) and type(other[m]) is str and \
                    (other[m].isdigit() or (m == k and other[m] == "-") or
                     (type(n) is SymReal and other[m] in ".e+-")):
                m += 1
            s = "".join(other[k:m])
            try:
                w = int(s) if type(n) is SymInt else float(s)
            except ValueError:
                return False
            conds.append(eq_num(n, w))
            if nu:
                i, j = i + 1, m
            else:
                i, j = m, j + 1
        else:
            conds.append(mkbool(text.ceq(u, v)))
            i, j = i + 1, j + 1
    if i < len(x) or j < len(y):
        return False
    return conj(*conds)


# --------------------------------------------------------------------------
class SymCtx(Ctx):
    mode = "sym"

    def __init__(self, places, engine, tier="quick"):
        super().__init__(places, tier)
        self.e = engine
        core.set_engine(engine)
        places.reset(places.sym)
        ncmodel.S = ncmodel.State()
        load.REC.reset()
        load.REC.answers = None
        load.OPEN_HOOK[0] = None
        load.GlobModel.order = None
        load.GlobModel.known = []
        load.FLOAT_TEXT.clear()
        text.RANGES.clear()
        load.RequestsModel.handler = None
        self.np = load.NUMPY
        self.nc = load.MODELS["netCDF4"]
        self.sf = places.package.fresh()
        for s in places.package.constants:
            self.know(s)
        for _, table in fixture.TABLES.values():
            for k in table:
                self.know(k.replace(":", "_").replace(".", "_"))
                self.know(k)
        engine.hashed = []

    def open(self, *a, **k):
        """open() that understands symbolic text."""
        hook, load.OPEN_HOOK[0] = load.OPEN_HOOK[0], None
        try:
            return load.sx_open(*a, **k)
        finally:
            load.OPEN_HOOK[0] = hook

    json = load.MODELS["json"]

    def know(self, *names):
        for s in names:
            self.e.names.setdefault(len(s), {})[s] = None

    def mod(self, name):
        return self.places.package.load(f"sofar.{name}")

    @staticmethod
    def dumps(x):
        return load.MODELS["json"].dumps(x, indent=1)

    # -- inputs ------------------------------------------------------------
    def _var(self, name):
        if name in self.e.inputs:
            raise RuntimeError(f"input {name} exists")

    def int(self, name, lo=None, hi=None):
        self._var(name)
        v = z3.Int(name)
        self.e.inputs[name] = core.IntInput(v)
        if lo is not None:
            self.e.add(v >= lo)
        if hi is not None:
            self.e.add(v <= hi)
        return core.num(v)

    def size(self, name, lo=1, hi=None):
        v = self.int(name, lo, hi)
        self.e.sizes.append(v.e)
        return v

    def choice(self, name, options):
        options = list(options)
        self._var(name)
        v = z3.Int(name)
        self.e.inputs[name] = core.IntInput(v)
        self.e.add(v >= 0)
        self.e.add(v < len(options))
        if len(options) == 1:
            return options[0]
        return options[self.e.decide([v == i for i in range(len(options))])]

    def flag(self, name):
        self._var(name)
        v = z3.Bool(name)
        self.e.inputs[name] = core.BoolInput(v)
        return self.e.decide([v, z3.Not(v)]) == 0

    def bool(self, name):
        self._var(name)
        v = z3.Bool(name)
        self.e.inputs[name] = core.BoolInput(v)
        return SymBool(v)

    def real(self, name):
        self._var(name)
        v = z3.Real(name)
        self.e.inputs[name] = core.RealInput(v)
        return SymReal(v)

    def array(self, name, dims, kind="f"):
        self._var(name)
        dims = tuple(dims)
        if dims:
            sorts = [z3.IntSort()] * len(dims) + [
                z3.RealSort() if kind == "f" else z3.IntSort()]
            fn = z3.Function(name, *sorts)
        else:
            fn = z3.Real(name) if kind == "f" else z3.Int(name)
        self.e.inputs[name] = core.ArrayInput(
            fn, [d.e if type(d) is SymInt else d for d in dims], kind)
        return SymArr(dims, (lambda i: fn(*i)) if dims else (lambda i: fn),
                      "f8" if kind == "f" else "i8")

    def masked(self, name, dims):
        """Masked array with a symbolic mask."""
        a = self.array(name, dims)
        dims = tuple(dims)
        fn = z3.Function(name + ".mask", *[z3.IntSort()] * len(dims),
                         z3.BoolSort())
        self.e.inputs[name + ".mask"] = core.ArrayInput(
            fn, [d.e if type(d) is SymInt else d for d in dims], "b")
        a._masked, a._mask = True, lambda i: fn(*i)
        return a

    def text(self, name, lengths=(0, 1, 3), chars=ASCII, first=None):
        """Text over a range of characters; the length is forked."""
        if isinstance(lengths, int):
            lengths = (lengths,)
        n = lengths[0] if len(lengths) == 1 else \
            self.choice(name + ".len", lengths)
        self._var(name)
        items = []
        for k in range(n):
            v = z3.Int(f"{name}.{k}")
            r = first if k == 0 and first else chars
            self.e.add(z3.Or(*[z3.And(v >= a, v <= b) for a, b in r]))
            text.RANGES[v.get_id()] = (v, tuple(r))
            items.append(v)
        self.e.inputs[name] = core.StrInput(items)
        return SymStr(tuple(items)) if items else ""

    def texts(self, name, shape, lengths=(0, 1, 2), chars=ASCII,
              dtype="U"):
        """numpy array of texts."""
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            t = self.text(name + "." + "_".join(map(str, i)), lengths, chars)
            o[i] = t if dtype == "U" else text.mkbytes(expand(t))
        a = arr.explicit(o, dtype)
        return a

    def npscalar(self, x, kind="f"):
        return core.num(core.to_z3(x), True) if is_sym(x) else (
            np.float64(x) if kind == "f" else np.int64(x))

    # -- property ----------------------------------------------------------
    def assume(self, cond):
        self.e.assume(cond)

    def check(self, cond, msg):
        self.e.check(cond, self.plain(msg))

    def concrete(self, x):
        """Fork an integer into its values."""
        return self.e.concretize(x.e, 64) if core.is_sym(x) else int(x)

    def reach(self, name):
        """Marks a point whose reachability is part of the evidence."""
        self.e.notes.setdefault("reach", set()).add(self.plain(name))

    def _run(self, o, fn, args, kw):
        out, warn = load.REC.out, load.REC.warnings
        load.REC.out, load.REC.warnings = o.out, o.warnings
        try:
            o.value = fn(*args, **kw)
        except (z3.Z3Exception, NotImplementedError) as x:
            self.e.unsupported(f"in the model: {x}")
        except Exception as x:          # noqa: BLE001
            o.ok, o.exc = False, x
        finally:
            load.REC.out, load.REC.warnings = out, warn
        self.e.live()

    # -- environment -------------------------------------------------------
    def answers(self, fn):
        load.REC.answers = fn

    def network(self, handler):
        """handler(url) -> (text, content)"""
        load.RequestsModel.handler = lambda url: _Response(handler, url)

    def listing(self, order):
        load.GlobModel.order = order

    def file_view(self, path):
        return view_model(path)

    def open_count(self):
        return sum(1 for d in ncmodel.S.open if d._nc_open)

    def faults(self, fn):
        """fn(operation number, name) -> error or None (fn None: no faults)"""
        ncmodel.S.ops = 0
        ncmodel.S.fault = fn

    def isfile(self, path):
        return os.path.isfile(path)


class _Response:
    """handler(url) -> text, content, and status if it is not 200"""

    def __init__(self, handler, url):
        r = handler(url)
        self.text, self.content = r[:2]
        self.status_code = r[2] if len(r) > 2 else 200
        self.ok, self.url, self.headers = self.status_code < 400, url, {}
        self.reason, self.encoding = "", "utf-8"

    def raise_for_status(self):
        if not self.ok:
            import requests
            raise requests.HTTPError(f"{self.status_code} Client Error: "
                                     f"{self.reason} for url: {self.url}")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


class VarView:
    def __init__(self, dtype, dims, shape, attrs, data):
        self.dtype, self.dims, self.shape = dtype, dims, shape
        self.attrs, self.data = attrs, data


class FileView:
    def __init__(self, attrs, dims, vars):
        self.attrs, self.dims, self.vars = attrs, dims, vars


def view_model(path):
    f = ncmodel.S.files[ncmodel.path_key(path)]
    vs = {}
    for k, v in f.vars.items():
        shape = tuple(f.dims[d][0] for d in v.dims)
        ds = _FakeDs(f)
        data = ncmodel.Variable(ds, k, v)._full()
        if v.dtype.kind == "S" and data.ndim:
            data = ncmodel.chartostring(data)
        vs[k] = VarView(v.dtype, tuple(v.dims), shape,
                        {a: b for a, b in v.attrs.items()}, data)
    return FileView(dict(f.attrs),
                    {k: (r[0], r[1]) for k, r in f.dims.items()}, vs)


class _FakeDs:
    def __init__(self, f):
        self._nc_file = f

    def _live(self):
        pass


def view_real(path):
    import netCDF4
    with netCDF4.Dataset(path, "r") as f:
        vs = {}
        for k, v in f.variables.items():
            v.set_auto_mask(False)
            v.set_auto_chartostring(False)
            data = v[...]
            if v.dtype.kind == "S" and v.ndim:
                data = netCDF4.chartostring(data, encoding="latin-1")
            vs[k] = VarView(v.dtype, tuple(v.dimensions), tuple(v.shape),
                            {a: v.getncattr(a) for a in v.ncattrs()}, data)
        return FileView({a: f.getncattr(a) for a in f.ncattrs()},
                        {k: (len(d), d.isunlimited())
                         for k, d in f.dimensions.items()}, vs)


# --------------------------------------------------------------------------
class _Count:
    """Operations of the real library, counted as in ncmodel"""

    def __init__(self):
        self.reset(None)

    def reset(self, fn):
        self.n, self.fn = 0, fn

    def op(self, name):
        self.n += 1
        if self.fn is not None:
            x = self.fn(self.n, name)
            if x is not None:
                raise x


def faulty(base, variable):
    """The class netCDF4.Dataset with faults"""
    count = _Count()

    class Proxy:
        def __init__(self, v):
            object.__setattr__(self, "_v", v)

        @property
        def __class__(self):
            return variable

        def __getattr__(self, k):
            if k not in ncmodel.Variable._OWN and not hasattr(variable, k):
                count.op("getattr")
            return getattr(self._v, k)

        def __setattr__(self, k, x):
            count.op("setattr")
            setattr(self._v, k, x)

        def __getitem__(self, k):
            count.op("read")
            return self._v[k]

        def __setitem__(self, k, x):
            count.op("write")
            self._v[k] = x

        def ncattrs(self):
            count.op("ncattrs")
            return self._v.ncattrs()

        def getncattr(self, *a, **k):
            count.op("getattr")
            return self._v.getncattr(*a, **k)

        def setncattr(self, *a, **k):
            count.op("setattr")
            return self._v.setncattr(*a, **k)

        setncattr_string = setncattr

        def setncatts(self, d):
            for k, v in d.items():
                self.setncattr(k, v)

        def __len__(self):
            return len(self._v)

        def __repr__(self):
            return repr(self._v)

        __str__ = __repr__

    class Variables(collections.abc.Mapping):
        def __init__(self, d):
            self.d = d

        def __getitem__(self, k):
            return Proxy(self.d[k])

        def __iter__(self):
            return iter(self.d)

        def __len__(self):
            return len(self.d)

    class Dataset:
        op = count.op

        def __init__(self, filename, mode="r", *a, **k):
            count.op("open-" + mode)
            object.__setattr__(self, "_ds", base(filename, mode, *a, **k))

        @property
        def __class__(self):
            return base

        def __getattr__(self, k):
            if k == "_ds":
                raise AttributeError(k)
            if k not in ncmodel.Dataset._OWN and not hasattr(base, k):
                count.op("getattr")
            return getattr(self._ds, k)

        def __setattr__(self, k, x):
            count.op("setattr")
            setattr(self._ds, k, x)

        def ncattrs(self):
            count.op("ncattrs")
            return self._ds.ncattrs()

        def getncattr(self, *a, **k):
            count.op("getattr")
            return self._ds.getncattr(*a, **k)

        def setncattr(self, *a, **k):
            count.op("setattr")
            return self._ds.setncattr(*a, **k)

        setncattr_string = setncattr

        def setncatts(self, d):
            for k, v in d.items():
                self.setncattr(k, v)

        def createDimension(self, *a, **k):
            count.op("createDimension")
            return self._ds.createDimension(*a, **k)

        def createVariable(self, *a, **k):
            count.op("createVariable")
            return Proxy(self._ds.createVariable(*a, **k))

        def __getitem__(self, k):
            return Proxy(self._ds[k])

        @property
        def variables(self):
            return Variables(self._ds.variables)

        def close(self):
            self._ds.close()
            count.op("close")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            if self._ds.isopen():
                self.close()

    return Dataset


def dense(v, dtype):
    """Array from its description in a witness."""
    if v["data"] != "sparse":
        return np.array(v["data"], dtype=dtype).reshape(v["shape"])
    n = int(np.prod(v["shape"]))
    if dtype is bool:
        a = np.zeros(n, dtype=bool)
    else:
        a = np.arange(n, dtype=dtype) * 13 + 10 * v["start"] + 11
        if dtype == "f8":
            a /= 10
    a = a.reshape(v["shape"])
    for idx, x in v["entries"]:
        a[tuple(idx)] = x
    return a


class RealCtx(Ctx):
    mode = "real"

    def __init__(self, places, inputs, tier="quick", fill=None):
        super().__init__(places, tier)
        self.inputs = inputs
        # values of inputs that the encoded part of a path did not reach
        self.fill = random.Random(fill) if fill is not None else None
        self.np = np
        import netCDF4
        self.nc = netCDF4
        core.set_engine(None)
        places.reset(places.real)
        for m in [m for m in sys.modules
                  if m == "sofar" or m.startswith("sofar.")]:
            del sys.modules[m]
        parent = os.path.dirname(places.real)
        if parent not in sys.path:
            sys.path.insert(0, parent)
        # (byte code in the scratch folder: imported anew for every run)
        old, sys.dont_write_bytecode = sys.dont_write_bytecode, False
        try:
            self.sf = importlib.import_module("sofar")
        finally:
            sys.dont_write_bytecode = old
        assert self.sf.__file__.startswith(places.real), self.sf.__file__
        self._answers = None
        self._patches = []
        self._faulty = None
        self.failures = []

    def open(self, *a, **k):
        return open(*a, **k)

    json = json

    def know(self, *names):
        pass

    def mod(self, name):
        return importlib.import_module(f"sofar.{name}")

    @staticmethod
    def dumps(x):
        import json
        return json.dumps(x, indent=1)

    def _get(self, name, new=None):
        if name not in self.inputs:
            if self.fill is None or new is None:
                raise Skip(f"no value for input {name}")
            self.inputs[name] = new(self.fill)
        return self.inputs[name]

    def int(self, name, lo=None, hi=None, span=6):
        a = lo if lo is not None else (-3 if hi is None else hi - span)
        b = min(hi, a + span) if hi is not None else a + span
        v = self._get(name, lambda r: r.randint(a, b))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip(name)
        return v

    def size(self, name, lo=1, hi=None):
        return self.int(name, lo, hi, span=2)

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, lambda r: r.randrange(len(options)))]

    def flag(self, name):
        return bool(self._get(name, lambda r: r.random() < .5))

    bool = flag

    def real(self, name):
        return float(self._get(name, lambda r: r.choice(
            (0., 1., -1., 2.5, 44100., r.randint(-99, 99) / 4))))

    def array(self, name, dims, kind="f"):
        v = self._get(name, lambda r: {
            "shape": [int(d) for d in dims], "data": [
                r.randint(-999, 999) / (4 if kind == "f" else 1)
                if kind == "f" else r.randint(-99, 99)
                for _ in range(int(np.prod([int(d) for d in dims])))]})
        if v["data"] is None:
            raise Skip("array too large")
        return dense(v, "f8" if kind == "f" else "i8")

    def masked(self, name, dims):
        a = self.array(name, dims)
        m = self._get(name + ".mask", lambda r: {
            "shape": list(a.shape),
            "data": [r.random() < .3 for _ in range(a.size)]})
        if m["data"] is None:
            raise Skip("array too large")
        return np.ma.array(a, mask=dense(m, bool))

    def text(self, name, lengths=(0, 1, 3), chars=ASCII, first=None):
        if isinstance(lengths, int):
            lengths = (lengths,)

        def new(r):
            out = ""
            for k in range(r.choice(tuple(lengths))):
                a, b = r.choice(first if k == 0 and first else chars)
                out += chr(r.randint(a, b))
            return out
        return self._get(name, new)

    def texts(self, name, shape, lengths=(0, 1, 2), chars=ASCII, dtype="U"):
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.text(name + "." + "_".join(map(str, i)), lengths,
                             chars)
            if dtype == "S":
                o[i] = o[i].encode("latin-1")
        return o.astype(dtype)

    def npscalar(self, x, kind="f"):
        return np.float64(x) if kind == "f" else np.int64(x)

    def assume(self, cond):
        if not cond:
            raise Skip("assumption")

    def check(self, cond, msg):
        if not bool(cond):
            raise Failed(msg)

    def concrete(self, x):
        return int(x)

    def reach(self, name):
        pass

    def _run(self, o, fn, args, kw):
        buf = io.StringIO()
        old = builtins.input
        if self._answers is not None:
            builtins.input = lambda prompt="": (print(prompt, end=""),
                                                self._answers())[1]
        else:
            builtins.input = lambda *a: (_ for _ in ()).throw(
                EOFError("no answers"))
        try:
            with contextlib.redirect_stdout(buf), \
                    warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                try:
                    o.value = fn(*args, **kw)
                except Failed:
                    raise
                except Exception as x:          # noqa: BLE001
                    o.ok, o.exc = False, x
        finally:
            builtins.input = old
        if buf.getvalue():
            o.out.append(buf.getvalue())
        o.warnings += [(w.category, str(w.message)) for w in rec
                       if not issubclass(w.category, ResourceWarning)]

    def answers(self, fn):
        self._answers = fn

    def patch(self, obj, name, value):
        self._patches.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def network(self, handler):
        import requests
        self.patch(requests, "get",
                   lambda url, *a, **k: _Response(handler, url))

    def listing(self, order):
        import glob
        old = glob.glob
        self.patch(glob, "glob",
                   lambda *a, **k: order(sorted(old(*a, **k))))

    def file_view(self, path):
        return view_real(path)

    def faults(self, fn):
        import netCDF4
        if self._faulty is None:
            self._faulty = faulty(netCDF4.Dataset, netCDF4.Variable)
            for m in [m for n, m in sys.modules.items()
                      if n == "sofar" or n.startswith("sofar.")]:
                for k, v in list(vars(m).items()):
                    if v is netCDF4.Dataset:
                        self.patch(m, k, self._faulty)
            self.patch(netCDF4, "Dataset", self._faulty)
        self._faulty.op.__self__.reset(fn)

    def open_count(self):
        """Handles of files in the run folder still open in this process."""
        n = 0
        for fd in os.listdir("/proc/self/fd"):
            try:
                p = os.readlink(f"/proc/self/fd/{fd}")
            except OSError:
                continue
            if p.startswith(self.dir + "/") and p.endswith(
                    (".sofa", ".nc")):
                n += 1
        return n

    def isfile(self, path):
        return os.path.isfile(path)

    def close(self):
        for obj, name, v in reversed(self._patches):
            setattr(obj, name, v)
        super().close()
