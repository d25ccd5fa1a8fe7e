"""Symbolic numpy arrays and a model of the numpy functions used by sofar.

A SymArr has a concrete rank, but its dimensions may be symbolic (unbounded)
integers and its elements are given by a function of the (symbolic) index.
Whatever is not modelled falls back to real numpy on an object array after
forking over the sizes (within a bound).
"""
from fractions import Fraction
import numpy as np
import numpy.testing as npt
import z3
from . import core
from .core import (Sym, SymBool, SymInt, SymReal, num, mkbool, conj, disj,
                   to_z3, contains_sym)
from .text import SymStr, SymBytes, mk, mkbytes, expand

# exact value of 0.1 in single precision: the witness used for lossy casts
F4_WITNESS = z3.RealVal("13421773/134217728")
TENTH = z3.RealVal("1/10")


class Store:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


def ident(i):
    return i


def zi(x):
    """Index component as z3 term or int."""
    if type(x) is SymInt:
        return x.e
    if isinstance(x, z3.ExprRef):
        x = z3.simplify(x)
        return x.as_long() if z3.is_int_value(x) else x
    return int(x)


def dim(x):
    """Dimension as int or SymInt."""
    if isinstance(x, z3.ExprRef):
        return num(x)
    return x


class SymArr(Sym):
    __slots__ = ("_shape", "_store", "_imap", "_inv", "_dtype", "_masked",
                 "_mask", "__weakref__")
    __array_priority__ = 1000

    def __init__(self, shape, fn, dtype, masked=False, mask=None,
                 store=None, imap=None, inv=None):
        self._shape = tuple(dim(d) for d in shape)
        if store is None:
            store, imap, inv = Store(fn), ident, ident
        self._store, self._imap, self._inv = store, imap, inv
        self._dtype = np.dtype(dtype)
        self._masked = masked
        self._mask = mask

    # -- basics ------------------------------------------------------------
    @property
    def __class__(self):
        return np.ma.MaskedArray if self._masked else np.ndarray

    def elem(self, idx):
        return self._store.fn(self._imap(tuple(idx)))

    def scalar(self, idx):
        return wrap_scalar(self.elem(tuple(zi(i) for i in idx)), self._dtype)

    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        n, terms = 1, []
        for d in self._shape:
            if isinstance(d, int) and type(d) is not SymInt:
                n *= d
            else:
                terms.append(d.e)
        if not terms or n == 0:
            return n
        if len(terms) == 1:
            return num(terms[0] * n)
        p = terms[0]
        for t in terms[1:]:
            p = p * t
        return num(z3.If(z3.And(*[t == 1 for t in terms]), z3.IntVal(n),
                         z3.If(z3.Or(*[t == 0 for t in terms]),
                               z3.IntVal(0), p * n)))

    @property
    def dtype(self):
        return self._dtype

    @property
    def itemsize(self):
        return self._dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def T(self):
        return transpose(self)

    @property
    def flat(self):
        return self.ravel()

    @property
    def mask(self):
        if not self._masked:
            raise AttributeError("mask")
        if self._mask is None:
            return np.False_
        return SymArr(self._shape, self._mask, bool)

    @property
    def data(self):
        return SymArr(self._shape, None, self._dtype, store=self._store,
                      imap=self._imap, inv=self._inv)

    def filled(self, fill_value=None):
        if self._mask is None:
            return self.copy_plain()
        m, f = self._mask, self.elem

        def g(i):
            return z3.If(to_z3(m(i)), lift_num(fill_value), f(i))
        return SymArr(self._shape, g, self._dtype)

    def copy_plain(self):
        a = self.copy()
        a._masked = False
        return a

    def compressed(self):
        return self.explicit_call("compressed")

    def concrete_shape(self):
        return tuple(d if type(d) is int else int(d) for d in self._shape)

    def objects(self):
        """Fork over the sizes; real numpy object array of the elements."""
        if self._mask is not None:
            core.E.unsupported("masked data in unmodelled operation")
        shape = self.concrete_shape()
        known = all(type(d) is int for d in self._shape)
        if int(np.prod(shape)) > (4000 if known else 64):
            core.E.unsupported("large array in unmodelled operation")
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            v = self.elem(i)
            o[i] = num(v) if isinstance(v, z3.ExprRef) else v
        return o

    def explicit_call(self, name, *args, **kw):
        o = self.objects()
        r = getattr(o, name)(*plain_args(args), **kw)
        return from_result(r, self._dtype)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(np.ndarray, name):
            if self._masked and hasattr(np.ma.MaskedArray, name):
                core.E.unsupported(f"masked array method {name}")
            raise AttributeError(
                f"'numpy.ndarray' object has no attribute '{name}'")
        return lambda *a, **k: self.explicit_call(name, *a, **k)

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return int(self._shape[0])

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        s = self.size
        if s == 1:
            v = self.scalar((0,) * self.ndim)
            return bool(v)
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __repr__(self):
        return core.token(self, "A")

    __str__ = __repr__

    def __format__(self, spec):
        return core.token(self, "A")

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    def __copy__(self):
        return self.copy()

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim == 0 and self._dtype.kind == "i":
            return int(self.item())
        raise TypeError("only integer scalar arrays can be converted to a "
                        "scalar index")

    def __contains__(self, x):
        return bool(any_(compare("==", self, x)))

    # -- operations --------------------------------------------------------
    def copy(self, order="C"):
        f, im = self._store.fn, self._imap
        return SymArr(self._shape, lambda i: f(im(i)), self._dtype,
                      self._masked, self._mask)

    def view(self, *a, **k):
        if a or k:
            core.E.unsupported("view")
        return self._derive(self._shape, ident, ident)

    def _derive(self, shape, fwd, back):
        """View: index of the view -> index of self (and back)."""
        im, inv, m = self._imap, self._inv, self._mask
        return SymArr(
            shape, None, self._dtype, self._masked,
            None if m is None else (lambda i: m(fwd(i))),
            self._store, lambda i: im(fwd(i)),
            None if inv is None or back is None else
            (lambda j: back(inv(j))))

    def item(self, *args):
        if args:
            v = self[args if len(args) > 1 else args[0]]
        else:
            if bool(core.neg(core.conj(*[core.eq_num(d, 1)
                                         for d in self._shape]))):
                raise ValueError("can only convert an array of size 1 to a "
                                 "Python scalar")
            v = self.scalar((0,) * self.ndim)
        return to_python(v)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [r.tolist() if type(r) is SymArr else to_python(r)
                for r in self]

    def astype(self, t, *a, **k):
        return astype(self, t)

    def ravel(self, order="C"):
        return reshape(self, (-1,))

    def flatten(self, order="C"):
        return reshape(self, (-1,)).copy()

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or
                               isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        return transpose(self, axes or None)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return transpose(self, p)

    def all(self, axis=None, **k):
        return all_(self) if axis is None and not k \
            else self.explicit_call("all", axis, **k)

    def any(self, axis=None, **k):
        return any_(self) if axis is None and not k \
            else self.explicit_call("any", axis, **k)

    def max(self, axis=None, **k):
        return reduce_(self, max_) if axis is None and not k \
            else self.explicit_call("max", axis, **k)

    def min(self, axis=None, **k):
        return reduce_(self, min_) if axis is None and not k \
            else self.explicit_call("min", axis, **k)

    def fill(self, v):
        self[...] = v

    # -- indexing ----------------------------------------------------------
    def _key(self, key):
        if not isinstance(key, tuple) or type(key) is SymArr:
            key = (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        if n > self.ndim:
            raise IndexError("too many indices for array")
        full = []
        seen = False
        for k in key:
            if k is Ellipsis:
                if seen:
                    raise IndexError("more than one ellipsis")
                seen = True
                full += [slice(None)] * (self.ndim - n)
            else:
                full.append(k)
        if not seen:
            full += [slice(None)] * (self.ndim - n)
        return full

    def _simple(self, full):
        for k in full:
            if k is None or k == slice(None):
                continue
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    return False
                if any(type(x) is SymInt for x in (k.start, k.stop)):
                    return False
                continue
            if type(k) is SymInt or (isinstance(k, (int, np.integer)) and
                                     not isinstance(k, (bool, np.bool_))):
                continue
            return False
        return True

    def __getitem__(self, key):
        if type(key) is str or isinstance(key, str):
            raise IndexError("only integers, slices... are valid indices")
        full = self._key(key)
        if not self._simple(full):
            o = self.objects()
            r = o[plain_args(key) if isinstance(key, tuple)
                  else plain_args((key,))[0]]
            return from_result(r, self._dtype)
        shape, plan, ax = [], [], 0
        # plan: for each axis of self, ("i", const) or ("s", out axis, start)
        for k in full:
            if k is None:
                shape.append(1)
                continue
            d = self._shape[ax]
            if isinstance(k, slice):
                start, length = slice_len(k, d)
                plan.append(("s", len(shape), start))
                shape.append(length)
            else:
                plan.append(("i", norm_index(k, d)))
            ax += 1
        if not shape and len(key if isinstance(key, tuple) else (key,)):
            if self.ndim == 0 and (key is Ellipsis or key == ()):
                return self
            idx = tuple(p[1] for p in plan)
            if self._mask is not None and \
                    bool(mkbool(to_z3(self._mask(idx)))):
                return np.ma.masked
            if not any(k is Ellipsis for k in (
                    key if isinstance(key, tuple) else (key,))):
                return self.scalar(idx)

        def fwd(i):
            return tuple(p[1] if p[0] == "i" else
                         (i[p[1]] if p[2] == 0 else zi_add(i[p[1]], p[2]))
                         for p in plan)
        bij = all(p[0] == "s" and p[2] == 0 for p in plan) and \
            all(k is None or k == slice(None) for k in full)
        n_out = len(shape)

        def back(j):
            out = [0] * n_out
            for a, p in enumerate(plan):
                out[p[1]] = j[a]
            return tuple(out)
        return self._derive(shape, fwd, back if bij else None)

    def __setitem__(self, key, value):
        full = self._key(key)
        if self._simple(full) and self._inv is None and \
                all(k is not None and not isinstance(k, slice)
                    for k in full):
            return self._set_one(full, value)
        if not self._simple(full) or self._inv is None or \
                any(k is None for k in full):
            core.E.unsupported("assignment to a complex selection")
        sel, out = [], []
        for ax, k in enumerate(full):
            d = self._shape[ax]
            if isinstance(k, slice):
                if k != slice(None):
                    core.E.unsupported("assignment to a slice")
                sel.append(None)
                out.append(d)
            else:
                sel.append(norm_index(k, d))
        val = to_arr(value)
        val = broadcast_to(val, out)
        if self._dtype.kind != val._dtype.kind:
            val = astype(val, self._dtype)
        vf = val._store.fn
        vi = val._imap
        old = self._store.fn
        inv = self._inv

        def fn(j):
            i = inv(j)
            cond = []
            rest = []
            for a, s in enumerate(sel):
                if s is None:
                    rest.append(i[a])
                elif isinstance(s, int) and isinstance(i[a], int):
                    if s != i[a]:
                        return old(j)
                else:
                    cond.append(i[a] == s)
            new = vf(vi(tuple(rest)))
            if not cond:
                return new
            return choose(z3.And(*cond), new, old(j))
        self._store.fn = fn

    def _set_one(self, key, value):
        """Assignment to a single element of a view"""
        at = self._imap(tuple(norm_index(k, d)
                              for k, d in zip(key, self._shape)))
        val = broadcast_to(to_arr(value), ())
        if self._dtype.kind != val._dtype.kind:
            val = astype(val, self._dtype)
        new, old = val._store.fn(val._imap(())), self._store.fn

        def fn(j):
            cond = []
            for a, b in zip(j, at):
                if isinstance(a, int) and isinstance(b, int):
                    if a != b:
                        return old(j)
                else:
                    cond.append(a == b)
            if not cond:
                return new
            return choose(z3.And(*cond), new, old(j))
        self._store.fn = fn

    # -- operators ---------------------------------------------------------
    def __eq__(self, o):
        return compare("==", self, o)

    def __ne__(self, o):
        return compare("!=", self, o)

    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)

    def __add__(self, o):
        return arith(lambda a, b: a + b, self, o)

    def __radd__(self, o):
        return arith(lambda a, b: b + a, self, o)

    def __sub__(self, o):
        return arith(lambda a, b: a - b, self, o)

    def __rsub__(self, o):
        return arith(lambda a, b: b - a, self, o)

    def __mul__(self, o):
        return arith(lambda a, b: a * b, self, o)

    def __rmul__(self, o):
        return arith(lambda a, b: b * a, self, o)

    def __truediv__(self, o):
        return arith(lambda a, b: core.real(a) / core.real(b), self, o,
                     "f8")

    def __neg__(self):
        return self * -1

    def __abs__(self):
        f = self.elem

        def g(i):
            a = lift_num(f(i))
            return z3.If(a >= 0, a, -a)
        return SymArr(self._shape, g, self._dtype)

    def __invert__(self):
        if self._dtype.kind != "b":
            core.E.unsupported("inversion of an array")
        f = self.elem
        return SymArr(self._shape, lambda i: z3.Not(to_z3(f(i))), bool)

    def __and__(self, o):
        return logical(z3.And, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return logical(z3.Or, self, o)

    __ror__ = __or__


def choose(c, a, b):
    """If-then-else on elements (numbers, booleans or text)."""
    if isinstance(a, str) or isinstance(b, str):
        if mkbool(c) is True:
            return a
        if mkbool(c) is False:
            return b
        return a if bool(mkbool(c)) else b
    a, b = core._same_sort(lift_num(a), lift_num(b))
    return z3.If(c, a, b)


def zi_add(i, k):
    return i + k


def norm_index(k, d):
    """Index with bounds check (forks); int or z3 term."""
    if type(k) is SymInt or type(d) is SymInt:
        if bool(mkbool(to_z3(k) < 0)):
            k = d + k
            if bool(mkbool(to_z3(k) < 0)):
                raise IndexError("index is out of bounds")
        elif bool(mkbool(to_z3(k) >= to_z3(d))):
            raise IndexError("index is out of bounds")
        return zi(k)
    k = int(k)
    if not -d <= k < d:
        raise IndexError(f"index {k} is out of bounds for axis with size "
                         f"{d}")
    return k % d if d else k


def slice_len(k, d):
    if k == slice(None):
        return 0, d
    start = 0 if k.start is None else int(k.start)
    if type(d) is not SymInt:
        a, b, _ = k.indices(d)
        return a, max(0, b - a)
    e = d.e
    lo = z3.IntVal(start) if start >= 0 else e + start
    hi = e if k.stop is None else (
        z3.IntVal(int(k.stop)) if int(k.stop) >= 0 else e + int(k.stop))

    def clip(x):
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > e, e, x))
    lo, hi = z3.simplify(clip(lo)), z3.simplify(clip(hi))
    n = num(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    return zi(lo), n


# --------------------------------------------------------------------------
# construction
# --------------------------------------------------------------------------
def lift_num(v):
    """Element as z3 term."""
    if isinstance(v, z3.ExprRef):
        return v
    return to_z3(v)


def wrap_scalar(v, dtype):
    k = dtype.kind
    if isinstance(v, z3.ExprRef):
        if z3.is_bool(v):
            return mkbool(v)
        v = z3.simplify(v)
        if k == "f" and z3.is_int(v):
            v = z3.ToReal(v)
        if z3.is_int_value(v):
            return np.int64(v.as_long())
        if z3.is_rational_value(v):
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            if Fraction(float(f)) == f:
                return np.float64(float(f))
        return SymInt(v, True) if z3.is_int(v) else SymReal(v, True)
    if k == "f":
        return np.float64(v)
    if k in "iu":
        return np.int64(v)
    if k == "b":
        return np.bool_(v)
    if k == "U":
        if type(v) is SymStr:
            return NPStr(v.items)
        return np.str_(v)
    if k == "S":
        return v if type(v) is SymBytes else np.bytes_(
            v if isinstance(v, bytes) else v.encode())
    return v


class NPStr(SymStr):
    """Symbolic numpy.str_ scalar."""
    size, shape, ndim = 1, (), 0
    __hash__ = SymStr.__hash__

    @property
    def dtype(self):
        return np.dtype(f"U{max(1, len(self.items))}")

    def copy(self):
        return self

    def item(self):
        return mk(self.items)

    def astype(self, t):
        return astype(scalar_array(self), t).scalar(())

    def flatten(self):
        return reshape(scalar_array(self), (1,))


def to_python(v):
    if isinstance(v, (np.generic,)) and not contains_sym(v):
        return v.item()
    if type(v) in (SymInt, SymReal):
        return type(v)(v.e, False)
    if type(v) is NPStr:
        return mk(v.items)
    return v


def kind_of(v):
    t = type(v)
    if t is SymArr:
        return v._dtype.kind
    if t in (SymStr, NPStr) or isinstance(v, str):
        return "U"
    if t is SymBytes or isinstance(v, bytes):
        return "S"
    if t is SymBool or isinstance(v, (bool, np.bool_)):
        return "b"
    if t is SymInt:
        return "i"
    if t is SymReal:
        return "f"
    if isinstance(v, (int, np.integer)):
        return "i"
    if isinstance(v, (float, np.floating)):
        return "f"
    if isinstance(v, complex):
        return "c"
    return "O"


def make_dtype(kind, elems):
    if kind == "U":
        return np.dtype(f"U{max([1] + [len(expand(v)) for v in elems])}")
    if kind == "S":
        return np.dtype(f"S{max([1] + [len(expand(v)) for v in elems])}")
    return np.dtype({"b": bool, "i": "i8", "f": "f8", "c": "c16",
                     "O": object}[kind])


def common_kind(kinds):
    ks = set(kinds)
    if not ks:
        return "f"
    for k in "O", "U", "S", "c", "f", "i", "b":
        if k in ks:
            return k
    return "O"


def explicit(cells, kind=None, masked=False):
    """SymArr from an object array of elements."""
    cells = np.asarray(cells, dtype=object) \
        if not isinstance(cells, np.ndarray) else cells
    elems = list(cells.flat)
    if kind is None:
        kind = common_kind(kind_of(v) for v in elems)
    if kind == "U":
        new = np.empty(cells.shape, dtype=object)
        for i in np.ndindex(*cells.shape):
            v = cells[i]
            new[i] = mk(expand(v)) if isinstance(v, str) else str(v)
        cells = new
    store = {}
    for i in np.ndindex(*cells.shape):
        v = cells[i]
        store[i] = v.e if type(v) in (SymInt, SymReal, SymBool) else v
    if kind == "f":
        for i, v in store.items():
            if isinstance(v, z3.ExprRef) and z3.is_int(v):
                store[i] = z3.ToReal(v)

    def fn(i):
        if all(isinstance(k, int) for k in i):
            return store[i]
        items = list(store.items())
        if not items:
            return z3.RealVal(0)
        out = items[-1][1]
        for idx, v in items[:-1]:
            c = z3.And(*[a == b for a, b in zip(i, idx)
                         if not (isinstance(a, int) and a == b)])
            out = choose(c, v, out)
        return out
    return SymArr(cells.shape, fn, make_dtype(kind, elems), masked)


def scalar_array(v):
    o = np.empty((), dtype=object)
    o[()] = v
    return explicit(o)


def nested_shape(x):
    t = type(x)
    if t in (list, tuple):
        if not x:
            return (0,)
        shapes = [nested_shape(i) for i in x]
        for s in shapes[1:]:
            if len(s) != len(shapes[0]) or \
                    not all(bool(a == b) for a, b in zip(s, shapes[0])):
                raise ValueError(
                    "setting an array element with a sequence. The "
                    "requested array has an inhomogeneous shape")
        return (len(x),) + tuple(shapes[0])
    if t is SymArr or isinstance(x, np.ndarray):
        return tuple(x.shape)
    return ()


def to_arr(x):
    if type(x) is SymArr:
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return explicit(x)
        return const_array(x)
    if type(x) in (list, tuple):
        shape = tuple(int(d) for d in nested_shape(x))
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            v = x
            for k, i in enumerate(idx):
                if type(v) is SymArr or isinstance(v, np.ndarray):
                    v = v[idx[k:]]
                    break
                v = v[i]
            if type(v) is SymArr:
                v = v.scalar(())
            o[idx] = v
        return explicit(o)
    o = np.empty((), dtype=object)
    o[()] = x
    return explicit(o)


def const_array(x):
    """Concrete numpy array as SymArr (keeps the dtype)."""
    masked = isinstance(x, np.ma.MaskedArray)
    mask = None
    if masked and np.ma.is_masked(x):
        at = [i for i in np.ndindex(*x.shape) if np.ma.getmaskarray(x)[i]]

        def mask(i):
            return z3.Or(*[z3.And(*[
                z3.BoolVal(a == b) if isinstance(a, int) else a == b
                for a, b in zip(i, idx)]) for idx in at])
    vals = {i: x[i].item() for i in np.ndindex(*x.shape)} if not masked \
        else {i: x.data[i].item() for i in np.ndindex(*x.shape)}
    real = x.dtype.kind == "f"

    def fn(i):
        if all(isinstance(k, int) for k in i):
            return vals[i]
        items = list(vals.items())
        if not items:
            return z3.RealVal(0)
        out = items[-1][1]
        for idx, v in items[:-1]:
            c = z3.And(*[a == b for a, b in zip(i, idx)
                         if not (isinstance(a, int) and a == b)])
            out = choose(c, v, out)
        if isinstance(out, z3.ExprRef) and real and z3.is_int(out):
            out = z3.ToReal(out)
        return out
    return SymArr(x.shape, fn, x.dtype, masked, mask)


def plain_args(args):
    """Arguments for real numpy: SymArr -> object array."""
    return tuple(_plain(a) for a in args)


def _plain(a):
    t = type(a)
    if t is SymArr:
        return a.objects()
    if t is SymInt:
        return int(a)
    if t in (list, tuple):
        return t(_plain_keep(i) for i in a)
    return a


def _plain_keep(a):
    t = type(a)
    if t is SymArr:
        return a.objects()
    if t in (list, tuple):
        return t(_plain_keep(i) for i in a)
    return a


def from_result(r, dtype=None):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.size == 0 and dtype is not None:
                return SymArr(r.shape, lambda i: z3.RealVal(0), dtype)
            a = explicit(r)
            if dtype is not None and dtype.kind in "fi" and \
                    a._dtype.kind in "fi":
                a._dtype = np.dtype(dtype)
            return a
        return r
    if type(r) in (tuple, list):
        return type(r)(from_result(i, dtype) for i in r)
    if type(r) in (SymInt, SymReal):
        return type(r)(r.e, True)
    if dtype is not None and isinstance(r, str):
        return wrap_scalar(r, np.dtype("U1"))
    if dtype is not None and not isinstance(r, (np.generic, Sym)) and \
            isinstance(r, (int, float)):
        return wrap_scalar(r, dtype)
    return r


# --------------------------------------------------------------------------
# shape functions
# --------------------------------------------------------------------------
def unit(d):
    """Is a dimension equal to one (forks)?"""
    return bool(core.eq_num(d, 1))


def squeeze(a, axis=None):
    a = to_arr(a)
    if axis is None:
        keep = [k for k, d in enumerate(a._shape) if not unit(d)]
    else:
        axes = [axis] if isinstance(axis, (int, np.integer)) else list(axis)
        axes = [x % a.ndim for x in axes]
        for x in axes:
            if not unit(a._shape[x]):
                raise ValueError("cannot select an axis to squeeze out "
                                 "which has size not equal to one")
        keep = [k for k in range(a.ndim) if k not in axes]
    n = a.ndim

    def fwd(i):
        out = [0] * n
        for o, k in enumerate(keep):
            out[k] = i[o]
        return tuple(out)

    def back(j):
        return tuple(j[k] for k in keep)
    return a._derive([a._shape[k] for k in keep], fwd, back)


def transpose(a, axes=None):
    a = to_arr(a)
    n = a.ndim
    axes = list(range(n))[::-1] if axes is None else \
        [int(x) % n for x in axes]
    if sorted(axes) != list(range(n)):
        raise ValueError("axes don't match array")

    def fwd(i):
        out = [0] * n
        for o, k in enumerate(axes):
            out[k] = i[o]
        return tuple(out)

    def back(j):
        return tuple(j[k] for k in axes)
    return a._derive([a._shape[k] for k in axes], fwd, back)


def moveaxis(a, source, destination):
    a = to_arr(a)
    src = [source] if isinstance(source, (int, np.integer)) else list(source)
    dst = [destination] if isinstance(destination, (int, np.integer)) \
        else list(destination)
    n = a.ndim
    for x in src + dst:
        if not -n <= x < n:
            raise np.exceptions.AxisError(x, n)
    src = [x % n for x in src]
    dst = [x % n for x in dst]
    order = [k for k in range(n) if k not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return transpose(a, order)


def reshape(a, shape):
    a = to_arr(a)
    if isinstance(shape, (int, np.integer)) or type(shape) is SymInt:
        shape = (shape,)
    shape = list(shape)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = list(shape[0])
    unknown = [k for k, d in enumerate(shape)
               if type(d) is not SymInt and d == -1]
    # shapes that only differ in singleton dimensions
    if not unknown:
        src = [k for k, d in enumerate(a._shape)
               if not (type(d) is not SymInt and d == 1)]
        dst = [k for k, d in enumerate(shape)
               if not (type(d) is not SymInt and d == 1)]
        if len(src) == len(dst) and all(
                core.mkbool(to_z3(a._shape[s]) == to_z3(shape[t])) is True
                or (type(a._shape[s]) is SymInt or type(shape[t]) is SymInt)
                and bool(core.eq_num(a._shape[s], shape[t]))
                for s, t in zip(src, dst)):
            n, m = a.ndim, len(shape)

            def fwd(i):
                out = [0] * n
                for s, t in zip(src, dst):
                    out[s] = i[t]
                return tuple(out)

            def back(j):
                out = [0] * m
                for s, t in zip(src, dst):
                    out[t] = j[s]
                return tuple(out)
            return a._derive(shape, fwd, back)
    if len(shape) == 1:
        # flatten
        total = a.size
        if not unknown and bool(core.neg(core.eq_num(shape[0], total))):
            raise ValueError("cannot reshape array")
        dims = a._shape
        n = a.ndim
        nontriv = [k for k, d in enumerate(dims)
                   if not (type(d) is not SymInt and d == 1)]
        if len(nontriv) <= 1:
            def fwd(i):
                out = [0] * n
                for k in nontriv:
                    out[k] = i[0]
                return tuple(out)

            def back(j):
                return (j[nontriv[0]],) if nontriv else (0,)
            return a._derive([total], fwd, back)

        def fwd(i):
            k = i[0]
            if isinstance(k, int) and k == 0:
                return (0,) * n
            out = []
            for d in reversed(dims):
                d = d.e if type(d) is SymInt else d
                if isinstance(d, int) and isinstance(k, int):
                    out.append(k % d)
                    k = k // d
                else:
                    k = k if isinstance(k, z3.ExprRef) else z3.IntVal(k)
                    out.append(k % d)
                    k = k / d
            return tuple(reversed(out))
        return a._derive([total], fwd, None)
    if unknown:
        concrete = [d for k, d in enumerate(shape) if k not in unknown]
        if len(unknown) == 1 and all(
                type(d) is not SymInt and d == 1 for d in concrete):
            flat = reshape(a, (-1,))
            return reshape(flat, [flat._shape[0] if d == -1 else d
                                  for d in shape])
    o = a.objects()
    return from_result(o.reshape([int(d) for d in shape]), a._dtype)


def expand_dims(a, axis):
    a = to_arr(a)
    axes = [axis] if isinstance(axis, (int, np.integer)) else list(axis)
    n = a.ndim + len(axes)
    axes = {x % n for x in axes}
    key = tuple(None if k in axes else slice(None) for k in range(n))
    return a[key]


def atleast(n):
    def f(*arys):
        out = []
        for a in arys:
            a = to_arr(a)
            if n == 1:
                r = reshape(a, (1,)) if a.ndim == 0 else a
            elif n == 2:
                if a.ndim == 0:
                    r = reshape(a, (1, 1))
                elif a.ndim == 1:
                    r = a[None, :]
                else:
                    r = a
            else:
                if a.ndim == 0:
                    r = reshape(a, (1, 1, 1))
                elif a.ndim == 1:
                    r = a[None, :, None]
                elif a.ndim == 2:
                    r = a[:, :, None]
                else:
                    r = a
            out.append(r)
        return out[0] if len(out) == 1 else tuple(out)
    return f


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if type(x) is not SymInt and x == 1:
                continue
            if type(d) is not SymInt and d == 1:
                d = x
                continue
            if bool(core.eq_num(d, x)) or unit(x):
                continue
            if unit(d):
                d = x
                continue
            raise ValueError("operands could not be broadcast together with "
                             f"shapes {shapes}")
        out.append(d)
    return tuple(out)


def broadcast_to(a, shape):
    a = to_arr(a)
    shape = tuple(shape)
    n, m = a.ndim, len(shape)
    if n > m:
        # numpy allows leading singleton dimensions in assignments only
        extra = a._shape[:n - m]
        if all(unit(d) for d in extra):
            a = squeeze(a, tuple(range(n - m)))
            n = m
        else:
            raise ValueError("could not broadcast input array")
    off = m - n
    stretch = []
    for k in range(n):
        d = a._shape[k]
        t = shape[off + k]
        if core.mkbool(to_z3(d) == to_z3(t)) is True:
            stretch.append(False)
        elif type(d) is not SymInt and d == 1:
            stretch.append(True)
        elif bool(core.eq_num(d, t)):
            stretch.append(False)
        elif unit(d):
            stretch.append(True)
        else:
            raise ValueError(f"could not broadcast input array from shape "
                             f"{a._shape} into shape {shape}")

    def fwd(i):
        return tuple(0 if stretch[k] else i[off + k] for k in range(n))
    if not any(stretch) and off == 0:
        return a
    return a._derive(shape, fwd, None)


# --------------------------------------------------------------------------
# element-wise functions
# --------------------------------------------------------------------------
def astype(a, t):
    a = to_arr(a)
    t = np.dtype(t)
    k0, k1 = a._dtype.kind, t.kind
    f, im = a._store.fn, a._imap

    def at(i):
        return f(im(i))
    if k1 in "US":
        if k0 in "US":
            o = a.objects()
            width = t.itemsize // (4 if k1 == "U" else 1)
            new = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                it = expand(o[i])
                if width:
                    it = it[:width]
                if k1 == "S":
                    for c in it:
                        if type(c) is str and ord(c) > 127:
                            raise UnicodeEncodeError(
                                "ascii", c, 0, 1, "ordinal not in range")
                        if type(c) is not str and bool(mkbool(c > 127)):
                            raise UnicodeEncodeError(
                                "ascii", "?", 0, 1, "ordinal not in range")
                new[i] = mk(it) if k1 == "U" else mkbytes(it)
            r = explicit(new, k1)
            if width:
                r._dtype = np.dtype(f"{k1}{width}")
            return r
        core.E.unsupported("numbers to text")
    if k0 in "US":
        core.E.unsupported("text to numbers")
    if k1 == "f":
        if t.itemsize >= 8 or k0 == "b":
            def g(i):
                v = at(i)
                if isinstance(v, z3.ExprRef):
                    return z3.ToReal(v) if z3.is_int(v) else v
                return float(v)
        else:
            def g(i):
                v = core.real(lift_num(at(i)))
                return z3.If(v == TENTH, F4_WITNESS, v)
        return SymArr(a._shape, g, t, a._masked, a._mask)
    if k1 in "iu":
        def g(i):
            v = lift_num(at(i))
            if not z3.is_int(v):
                v = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            n = 8 * t.itemsize
            if n < 64:
                # (modulo only where it matters)
                lo = 2 ** (n - 1) if k1 == "i" else 0
                v = z3.If(z3.And(v >= -lo, v < 2 ** n - lo), v,
                          (v + lo) % 2 ** n - lo)
            return v
        return SymArr(a._shape, g, t, a._masked, a._mask)
    if k1 == "O":
        return from_result(a.objects())
    if k1 == "b":
        return SymArr(a._shape, lambda i: lift_num(at(i)) != 0, bool)
    if k1 == "c":
        core.E.unsupported("complex numbers")
    core.E.unsupported(f"conversion to {t}")


def compare(op, a, b):
    if not isinstance(b, (str, bytes, list, tuple, np.ndarray, np.generic,
                          int, float, bool)) and type(b) is not SymArr:
        if b is None or op in ("==", "!="):
            r = op == "!="
            if b is None:
                return SymArr(a.shape, lambda i: z3.BoolVal(r), bool)
        return NotImplemented
    a, b = to_arr(a), to_arr(b)
    ta, tb = a._dtype.kind in "US", b._dtype.kind in "US"
    if ta != tb:
        if op in ("==", "!="):
            shape = broadcast_shapes(a._shape, b._shape)
            r = op == "!="
            return SymArr(shape, lambda i: z3.BoolVal(r), bool)
        raise TypeError("cannot compare text and numbers")
    shape = broadcast_shapes(a._shape, b._shape)
    x, y = broadcast_to(a, shape), broadcast_to(b, shape)
    fx, fy = snapshot(x), snapshot(y)

    def g(i):
        u, v = fx(i), fy(i)
        if ta:
            c = core.to_z3bool(txt_eq(u, v))
            c = z3.BoolVal(c) if isinstance(c, bool) else c
            if op == "==":
                return c
            if op == "!=":
                return z3.Not(c)
            core.E.unsupported("order of text arrays")
        u, v = core._same_sort(lift_num(u), lift_num(v))
        return {"==": lambda: u == v, "!=": lambda: u != v,
                "<": lambda: u < v, "<=": lambda: u <= v,
                ">": lambda: u > v, ">=": lambda: u >= v}[op]()
    return SymArr(shape, g, bool)


def txt_eq(u, v):
    if type(u) in (SymStr, NPStr, SymBytes):
        return u.eqcond(v)
    if type(v) in (SymStr, NPStr, SymBytes):
        return v.eqcond(u)
    return u == v


def snapshot(a):
    f, im = a._store.fn, a._imap
    return lambda i: f(im(i))


def arith(op, a, b, dtype=None):
    if not (type(b) is SymArr or isinstance(b, (list, tuple, np.ndarray)) or
            core.is_numlike(b)):
        return NotImplemented
    a, b = to_arr(a), to_arr(b)
    if a._dtype.kind in "US" or b._dtype.kind in "US":
        core.E.unsupported("arithmetic on text")
    shape = broadcast_shapes(a._shape, b._shape)
    fx = snapshot(broadcast_to(a, shape))
    fy = snapshot(broadcast_to(b, shape))
    if dtype is None:
        dtype = "f8" if "f" in (a._dtype.kind, b._dtype.kind) else "i8"

    def g(i):
        return op(lift_num(fx(i)), lift_num(fy(i)))
    return SymArr(shape, g, dtype)


def logical(op, a, b):
    a, b = to_arr(a), to_arr(b)
    shape = broadcast_shapes(a._shape, b._shape)
    fx = snapshot(broadcast_to(a, shape))
    fy = snapshot(broadcast_to(b, shape))
    return SymArr(shape, lambda i: op(to_z3(fx(i)), to_z3(fy(i))), bool)


def where_true(a):
    return lambda i: to_z3(a.elem(i)) if a._dtype.kind == "b" \
        else lift_num(a.elem(i)) != 0


def concrete_dims(shape):
    return all(type(d) is not SymInt for d in shape)


def all_(a, axis=None, **kw):
    if axis is not None or kw or not (type(a) is SymArr or contains_sym(a)):
        return fallback(np.all, a, axis=axis, **kw)
    a = to_arr(a)
    f = where_true(a)
    if concrete_dims(a._shape):
        return conj(*[mkbool(f(i)) for i in np.ndindex(*a._shape)])
    e = core.E
    # universally quantified, decided now: the negative side gets a witness
    idx = [z3.Int(e.fresh("w")) for _ in a._shape]
    inb = z3.And(*[z3.And(k >= 0, k < to_z3(d))
                   for k, d in zip(idx, a._shape)])
    body = f(tuple(idx))
    bound = [z3.Int(e.fresh("q")) for _ in a._shape]
    qinb = z3.And(*[z3.And(k >= 0, k < to_z3(d))
                    for k, d in zip(bound, a._shape)])
    forall = z3.ForAll(bound, z3.Implies(qinb, f(tuple(bound))))
    i = e.decide([z3.And(inb, z3.Not(body)), forall])
    return i == 1


def any_(a, axis=None, **kw):
    if axis is not None or kw or not (type(a) is SymArr or contains_sym(a)):
        return fallback(np.any, a, axis=axis, **kw)
    a = to_arr(a)
    f = where_true(a)
    n = SymArr(a._shape, lambda i: z3.Not(f(i)), bool)
    return core.neg(all_(n))


def max_(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a if a >= b else b
    if not core.is_sym(a) and not core.is_sym(b):
        return max(a, b)
    c = to_z3(a) >= to_z3(b)
    return core.ite(c, a, b)


def min_(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a if a <= b else b
    if not core.is_sym(a) and not core.is_sym(b):
        return min(a, b)
    return core.ite(to_z3(a) <= to_z3(b), a, b)


def reduce_(a, f):
    a = to_arr(a)
    o = list(a.objects().flat)
    if not o:
        raise ValueError("zero-size array to reduction operation")
    r = o[0]
    for v in o[1:]:
        r = f(r, v)
    return from_result(r, a._dtype)


# --------------------------------------------------------------------------
# closeness
# --------------------------------------------------------------------------
def within(u, v, rtol, atol):
    u, v = core.real(lift_num(u)), core.real(lift_num(v))
    d = z3.If(u >= v, u - v, v - u)
    m = z3.If(v >= 0, v, -v)
    return d <= to_z3(float(atol)) + z3.RealVal(str(Fraction(repr(rtol)
                                                if isinstance(rtol, float)
                                                else rtol))) * m


def no_text(a, b):
    """Errors of comparisons up to a tolerance"""
    if a._dtype.kind in "US" and b._dtype.kind in "US" and \
            hasattr(np, "exceptions"):
        raise np.exceptions.DTypePromotionError("no common DType exists")
    if a._dtype.kind in "US" or b._dtype.kind in "US":
        raise TypeError("ufunc 'isfinite' not supported for the input types")


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = to_arr(a), to_arr(b)
    no_text(a, b)
    shape = broadcast_shapes(a._shape, b._shape)
    fx = snapshot(broadcast_to(a, shape))
    fy = snapshot(broadcast_to(b, shape))
    return SymArr(shape, lambda i: within(fx(i), fy(i), rtol, atol), bool)


def same_shape(a, b):
    if a.ndim != b.ndim:
        return False
    return bool(conj(*[core.eq_num(x, y)
                       for x, y in zip(a._shape, b._shape)]))


def assert_close(actual, desired, rtol, atol, strict=False):
    a, b = to_arr(actual), to_arr(desired)
    no_text(a, b)
    ok = same_shape(a, b) or (not strict and (a.ndim == 0 or b.ndim == 0))
    if not ok:
        raise AssertionError("Not equal to tolerance (shapes mismatch)")
    masks = [x._mask for x in (a, b) if x._mask is not None]
    if masks:       # (masked elements are ignored)
        if not same_shape(a, b):
            core.E.unsupported("broadcasting of masked arrays")
        fa, fb = a.elem, b.elem
        close = SymArr(a._shape, lambda i: z3.Or(
            *[to_z3(m(i)) for m in masks],
            within(fa(i), fb(i), rtol, atol)), bool)
    else:
        close = isclose(a, b, rtol, atol)
    if not bool(all_(close)):
        raise AssertionError("Not equal to tolerance")


class TestingModel:
    def __getattr__(self, name):
        return getattr(npt, name)

    def assert_allclose(self, actual, desired, rtol=1e-7, atol=0,
                        equal_nan=True, err_msg="", verbose=True,
                        strict=False):
        if not (contains_sym(actual) or contains_sym(desired)):
            return npt.assert_allclose(actual, desired, rtol, atol,
                                       equal_nan, err_msg, verbose,
                                       strict=strict)
        assert_close(actual, desired, rtol, atol, strict)

    def assert_array_equal(self, x, y, err_msg="", verbose=True,
                           strict=False):
        if not (contains_sym(x) or contains_sym(y)):
            return npt.assert_array_equal(x, y, err_msg, verbose,
                                          strict=strict)
        a, b = to_arr(x), to_arr(y)
        if not (same_shape(a, b) or a.ndim == 0 or b.ndim == 0) or \
                not bool(all_(compare("==", a, b))):
            raise AssertionError("Arrays are not equal")

    assert_equal = assert_array_equal

    def assert_array_almost_equal(self, *a, **k):
        core.E.unsupported("assert_array_almost_equal")


# --------------------------------------------------------------------------
# the numpy module
# --------------------------------------------------------------------------
def fallback(fn, *args, **kw):
    dt = None
    for a in args:
        if type(a) is SymArr:
            dt = a._dtype
            break
    if dt is not None and dt.kind == "b":
        dt = None
    r = fn(*plain_args(args), **{k: _plain(v) for k, v in kw.items()})
    return from_result(r, dt)


class VectorizeModel:
    def __init__(self, f, *a, **k):
        self.f, self.real = f, np.vectorize(f, *a, **k)

    def __call__(self, *args):
        if not contains_sym(args):
            return self.real(*args)
        if len(args) != 1:
            core.E.unsupported("vectorize with several arguments")
        o = to_arr(args[0]).objects()
        out = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            out[i] = self.f(o[i])
        if o.size == 0:
            raise ValueError("cannot call `vectorize` on size 0 inputs "
                             "unless `otypes` is set")
        return plainify(out)


def plainify(o):
    """Object array -> concrete array if no symbolic element is left."""
    if not contains_sym(o):
        return np.array(o.tolist())
    return explicit(o)


class MaModel:
    def __getattr__(self, name):
        return getattr(np.ma, name)

    def is_masked(self, x):
        if type(x) is SymArr:
            if x._mask is None:
                return False
            m = SymArr(x._shape, x._mask, bool)
            return bool(any_(m))
        if contains_sym(x):
            return False
        return np.ma.is_masked(x)

    def getmask(self, x):
        if type(x) is SymArr:
            return x.mask if x._masked else np.ma.nomask
        return np.ma.getmask(x)

    def getmaskarray(self, x):
        if type(x) is SymArr:
            m = x._mask or (lambda i: z3.BoolVal(False))
            return SymArr(x._shape, m, bool)
        return np.ma.getmaskarray(x)

    def isMaskedArray(self, x):
        if type(x) is SymArr:
            return x._masked
        return np.ma.isMaskedArray(x)

    isMA = isarray = isMaskedArray

    def count_masked(self, x, axis=None):
        if type(x) is SymArr:
            if x._mask is None:
                return 0
            core.E.unsupported("count of masked elements")
        return np.ma.count_masked(x, axis)

    def filled(self, x, fill_value=None):
        if type(x) is SymArr:
            return x.filled(fill_value)
        return np.ma.filled(x, fill_value)

    def getdata(self, x, *a):
        if type(x) is SymArr:
            return x.data
        return np.ma.getdata(x, *a)


class NPModel:
    """Stand-in for module numpy."""

    def __init__(self):
        self.ma = MaModel()
        self.testing = TestingModel()
        self.vectorize = VectorizeModel
        self.atleast_1d = self._lift(atleast(1), np.atleast_1d)
        self.atleast_2d = self._lift(atleast(2), np.atleast_2d)
        self.atleast_3d = self._lift(atleast(3), np.atleast_3d)
        for name, f in (("squeeze", squeeze), ("moveaxis", moveaxis),
                        ("transpose", transpose), ("reshape", None),
                        ("expand_dims", expand_dims), ("all", all_),
                        ("any", any_), ("isclose", isclose),
                        ("broadcast_to", broadcast_to)):
            setattr(self, name, self._lift(
                f or (lambda a, shape=None, **k: reshape(
                    a, k.get("newshape", shape))), getattr(np, name)))

    @staticmethod
    def _lift(model, real):
        def f(*args, **kw):
            if contains_sym(args) or contains_sym(kw):
                return model(*args, **kw)
            return real(*args, **kw)
        f.__name__ = real.__name__
        return f

    def __getattr__(self, name):
        r = getattr(np, name)
        if isinstance(r, (np.ufunc,)) or (
                callable(r) and not isinstance(r, type)):
            def f(*args, **kw):
                if contains_sym(args) or contains_sym(kw):
                    return fallback(r, *args, **kw)
                return r(*args, **kw)
            return f
        return r

    def array(self, obj, dtype=None, *, copy=True, ndmin=0, **kw):
        if not contains_sym(obj):
            return np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin, **kw)
        a = to_arr(obj)
        a = a.data.copy() if copy or a._masked else a
        if dtype is not None:
            a = astype(a, dtype)
        while a.ndim < ndmin:
            a = a[None]
        return a

    def asarray(self, obj, dtype=None, *args, **kw):
        if not contains_sym(obj):
            return np.asarray(obj, dtype, *args, **kw)
        a = to_arr(obj)
        if a._masked:
            a = a.data
        return a if dtype is None else astype(a, dtype)

    def asanyarray(self, obj, dtype=None, **kw):
        if not contains_sym(obj):
            return np.asanyarray(obj, dtype, **kw)
        a = to_arr(obj)
        return a if dtype is None else astype(a, dtype)

    ascontiguousarray = asarray

    def copy(self, a, *args, **k):
        if not contains_sym(a):
            return np.copy(a, *args, **k)
        return to_arr(a).copy()

    def ndim(self, a):
        return to_arr(a).ndim if contains_sym(a) else np.ndim(a)

    def shape(self, a):
        return to_arr(a).shape if contains_sym(a) else np.shape(a)

    def size(self, a, axis=None):
        if not contains_sym(a):
            return np.size(a, axis)
        a = to_arr(a)
        return a.size if axis is None else a.shape[axis]

    def ravel(self, a, *args, **k):
        return to_arr(a).ravel() if contains_sym(a) \
            else np.ravel(a, *args, **k)

    def swapaxes(self, a, x, y):
        return to_arr(a).swapaxes(x, y) if contains_sym(a) \
            else np.swapaxes(a, x, y)

    def max(self, a, axis=None, **kw):
        if not contains_sym(a):
            return np.max(a, axis, **kw)
        if axis is not None or kw:
            return fallback(np.max, a, axis, **kw)
        return reduce_(a, max_)

    amax = max

    def min(self, a, axis=None, **kw):
        if not contains_sym(a):
            return np.min(a, axis, **kw)
        if axis is not None or kw:
            return fallback(np.min, a, axis, **kw)
        return reduce_(a, min_)

    amin = min

    def prod(self, a, **kw):
        if not contains_sym(a):
            return np.prod(a, **kw)
        if kw:
            return fallback(np.prod, a, **kw)
        if isinstance(a, (list, tuple)) and type(a) is not SymArr:
            r = 1
            for x in a:
                r = x * r
            return r
        return reduce_(a, lambda x, y: x * y)

    def array_equal(self, a, b, equal_nan=False):
        if not (contains_sym(a) or contains_sym(b)):
            return np.array_equal(a, b, equal_nan)
        a, b = to_arr(a), to_arr(b)
        if not same_shape(a, b):
            return False
        return all_(compare("==", a, b))

    def array_equiv(self, a, b):
        core.E.unsupported("array_equiv")

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not (contains_sym(a) or contains_sym(b)):
            return np.allclose(a, b, rtol, atol, equal_nan)
        return all_(isclose(a, b, rtol, atol))

    def isscalar(self, x):
        if type(x) in (SymInt, SymReal, SymBool, SymStr, NPStr):
            return True
        return np.isscalar(x)

    def equal(self, a, b):
        return compare("==", to_arr(a), b) \
            if contains_sym((a, b)) else np.equal(a, b)

    def not_equal(self, a, b):
        return compare("!=", to_arr(a), b) \
            if contains_sym((a, b)) else np.not_equal(a, b)

    def issubdtype(self, a, b):
        return np.issubdtype(a, b)

    def iterable(self, x):
        if type(x) is SymArr:
            return x.ndim > 0
        return np.iterable(x)

    def float64(self, x=0.0):
        return num(core.real(x.e), True) if type(x) in (SymInt, SymReal) \
            else np.float64(x)


# names of numpy that must stay types
def make_numpy():
    m = NPModel()
    m.float64 = np.float64
    return m
