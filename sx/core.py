"""Dynamic symbolic execution: engine, symbolic booleans and numbers.

The code under test is run again and again; each run follows a prefix of
decisions and then, at every branch on a symbolic value, asks z3 which sides
are feasible under the path condition.  All feasible sides are put on the work
list, so that the set of explored paths covers every value of the inputs.
"""
import random
import time
from fractions import Fraction
import numpy as np
import z3

E = None          # the engine of the running path (None: concrete mode)


def engine():
    return E


class Abort(BaseException):
    """Ends a path: infeasible, unsupported, limit, violated."""

    def __init__(self, kind, why=""):
        super().__init__(f"{kind}: {why}")
        self.kind, self.why = kind, why


class Stats:
    FIELDS = ("paths", "aborted", "infeasible", "decisions", "queries",
              "unknown", "checks", "solver_s")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    """One path of the exploration."""

    def __init__(self, prefix, stats, seed=0, timeout_ms=8000,
                 max_decisions=4000, deadline=None):
        self.prefix = prefix
        self.trail = []          # decisions taken: (index, payload)
        self.alternatives = []   # prefixes still to be explored
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", seed)
        self.dead = None
        self.inputs = {}         # name -> Input
        self.fresh_n = 0
        self.candidates = []     # [(message, inputs)]
        self.inconclusive = []   # reasons
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.objects = {}        # token -> symbolic object
        self.sizes = []          # z3 ints that should be small in witnesses
        self.hashed = []         # symbolic strings used as dictionary keys
        self.names = {}          # known names (for dictionary look-up)
        self.nodes = 0
        self.notes = {}
        self.const_memo = {}

    # ---- solver ----------------------------------------------------------
    def _check(self, *assumptions):
        self.live()
        if self.deadline is not None and time.time() > self.deadline:
            self.abort("limit", "time budget of the case used up")
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def live(self):
        if self.dead is not None:
            raise self.dead

    def abort(self, kind, why=""):
        if self.dead is None:
            self.dead = Abort(kind, why)
        raise self.dead

    def unsupported(self, why):
        self.abort("unsupported", why)

    def fresh(self, stem):
        self.fresh_n += 1
        return f"{stem}!{self.fresh_n}"

    # ---- decisions -------------------------------------------------------
    def decide(self, options):
        """Fork over mutually exclusive z3 conditions; return the index."""
        self.live()
        n = len(self.trail)
        self.nodes += 1
        if n >= self.max_decisions:
            self.abort("limit", "too many decisions on one path")
        if n < len(self.prefix):
            i = self.prefix[n][0]
            self.trail.append(self.prefix[n])
            self.solver.add(options[i])
            return i
        self.stats.decisions += 1
        feasible = []
        for i, o in enumerate(options):
            if i == len(options) - 1 and not feasible:
                feasible.append(i)       # the path itself is feasible
                break
            r = self._check(o)
            if r == z3.unknown:
                self.inconclusive.append("solver gave up at a branch")
            if r != z3.unsat:
                feasible.append(i)
        for i in reversed(feasible[1:]):
            self.alternatives.append(self.trail + [(i, None)])
        i = feasible[0]
        self.trail.append((i, None))
        self.solver.add(options[i])
        return i

    def branch(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.decide([e, z3.Not(e)]) == 0

    def concretize(self, e, limit=5, prefer=(1, 2, 3, 0, 4)):
        """Fork an integer term into concrete values."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            n = len(self.trail)
            if n < len(self.prefix):
                i, v = self.prefix[n]
                self.trail.append((i, v))
                self.solver.add(e == v if i == 0 else e != v)
                if i == 0:
                    return v
                continue
            self.stats.decisions += 1
            v = None
            for p in prefer:
                if self._check(e == p) == z3.sat:
                    v = p
                    break
            if v is None:
                r = self._check()
                if r != z3.sat:
                    self.abort("unsupported", "no value for a term")
                v = self.solver.model().eval(e, model_completion=True)
                v = v.as_long()
            if self._check(e != v) != z3.unsat:
                self.alternatives.append(self.trail + [(1, v)])
            self.trail.append((0, v))
            self.solver.add(e == v)
            return v
        self.abort("limit", "term has more values than are enumerated")

    def assume(self, c):
        c = to_z3bool(c)
        if isinstance(c, bool):
            if not c:
                self.abort("infeasible")
            return
        self.solver.add(c)
        if len(self.trail) >= len(self.prefix) and \
                self._check() == z3.unsat:
            self.abort("infeasible")

    def add(self, c):
        """Constrain a fresh variable (always satisfiable)."""
        self.solver.add(c)

    # ---- assertions ------------------------------------------------------
    def check(self, cond, msg):
        self.live()
        self.stats.checks += 1
        c = to_z3bool(cond)
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if c is True:
            return
        if len(self.trail) < len(self.prefix):
            # decided by an earlier path with the same prefix
            if c is not False:
                self.solver.add(c)
            return
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        r = self._check(neg)
        if r == z3.unknown:
            self.inconclusive.append(f"solver gave up: {msg}")
        elif r == z3.sat:
            self.candidates.append((msg, self.witness(neg)))
            if c is False:
                self.abort("violated", msg)
        if c is not False:
            self.solver.add(c)
            if r == z3.sat and self._check() == z3.unsat:
                self.abort("violated", msg)

    # ---- witnesses -------------------------------------------------------
    def witness(self, *extra):
        """Concrete inputs that drive the real code along this path."""
        s = self.solver
        s.push()
        try:
            for x in extra:
                s.add(x)
            return self._witness()
        finally:
            s.pop()

    def witnesses(self, n, seed=0):
        """Further inputs, as different from each other as possible."""
        rnd = random.Random(seed)
        s = self.solver
        s.set("timeout", 500)
        for _ in range(n):
            want = []
            for inp in self.inputs.values():
                want += inp.random(rnd)
            rnd.shuffle(want)
            s.push()
            try:
                for x in self.sizes:
                    s.push()
                    s.add(x <= rnd.choice((2, 3, 4)))
                    if s.check() != z3.sat:
                        s.pop()
                todo = [want[k:k + 4] for k in range(0, len(want), 4)][:12]
                if want and s.check(*want) == z3.sat:
                    s.add(*want)
                    todo = []
                while todo:
                    g = todo.pop()
                    if s.check(*g) == z3.sat:
                        s.add(*g)
                    elif len(g) > 1:
                        todo += [g[:len(g) // 2], g[len(g) // 2:]]
                if s.check() == z3.sat:
                    m = s.model()
                    yield {n: i.concrete(m) for n, i in self.inputs.items()}
            finally:
                while s.num_scopes():
                    s.pop()

    def _witness(self):
        s = self.solver
        for bound in (2, 3, 4, 7, 12, 40, None):
            cs = [] if bound is None else [x <= bound for x in self.sizes]
            if s.check(*cs) == z3.sat:
                m = s.model()
                for c in cs:
                    s.add(c)
                break
        else:
            return None
        # prefer values that differ from each other, so that concrete runs
        # are not blind to exchanged data
        wish = []
        for inp in self.inputs.values():
            wish += inp.wish(m)
        if wish:
            # pin the integers first (sizes), then try the wishes
            pins = [v == m.eval(v, model_completion=True)
                    for v in self.sizes]
            for group in (wish, wish[:len(wish) // 2]):
                s.push()
                s.add(*(pins + group))
                good = s.check() == z3.sat
                if good:
                    m = s.model()
                s.pop()
                if good:
                    break
        return {n: i.concrete(m) for n, i in self.inputs.items()}


def set_engine(e):
    global E
    E = e


# --------------------------------------------------------------------------
# inputs
# --------------------------------------------------------------------------
class Input:
    def wish(self, m):
        return []

    def random(self, rnd):
        """Random values as equations (as far as the path allows them)."""
        return []


class IntInput(Input):
    def __init__(self, var):
        self.var = var

    def random(self, rnd):
        return [self.var == rnd.randint(-2, 4)]

    def concrete(self, m):
        return m.eval(self.var, model_completion=True).as_long()


class BoolInput(Input):
    def __init__(self, var):
        self.var = var

    def random(self, rnd):
        return [self.var == (rnd.random() < .5)]

    def concrete(self, m):
        return z3.is_true(m.eval(self.var, model_completion=True))


class RealInput(Input):
    count = 0

    def __init__(self, var):
        self.var = var
        RealInput.count += 1

    def random(self, rnd):
        return [self.var == z3.RealVal(str(rnd.choice(
            (0, 1, -1, Fraction(5, 2), Fraction(rnd.randint(-99, 99), 4)))))]

    def wish(self, m):
        return [self.var == z3.RealVal(
            str(Fraction(31 + 7 * (hash_name(str(self.var)) % 50), 10)))]

    def concrete(self, m):
        return float_of(m.eval(self.var, model_completion=True))


def hash_name(s):
    h = 7
    for c in s:
        h = (h * 31 + ord(c)) % 1000003
    return h


def float_of(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return v.as_long()
    f = Fraction(v.numerator_as_long(), v.denominator_as_long())
    return float(f)


class ArrayInput(Input):
    """Array of reals or integers, given by an uninterpreted function."""

    def __init__(self, fn, dims, kind):
        self.fn, self.dims, self.kind = fn, dims, kind

    def _shape(self, m):
        return tuple(d if isinstance(d, int) else
                     m.eval(d, model_completion=True).as_long()
                     for d in self.dims)

    def _app(self, idx):
        return self.fn(*idx) if len(idx) else self.fn

    def random(self, rnd):
        if any(not isinstance(d, int) for d in self.dims):
            shape = (2,) * len(self.dims)
        else:
            shape = tuple(self.dims)
        if int(np.prod(shape)) > 40:
            return []
        return [self._app(idx) == (
            z3.BoolVal(rnd.random() < .3) if self.kind == "b" else
            z3.RealVal(str(Fraction(rnd.randint(-99, 99), 4)))
            if self.kind == "f" else z3.IntVal(rnd.randint(-9, 9)))
            for idx in np.ndindex(*shape)]

    def wish(self, m):
        shape = self._shape(m)
        n = int(np.prod(shape)) if shape else 1
        if n > 200:
            return []
        h = hash_name(str(self.fn)) % 50
        out = []
        if self.kind == "b":
            return out
        for k, idx in enumerate(np.ndindex(*shape)):
            v = Fraction(10 * h + 11 + 13 * k, 10) if self.kind == "f" \
                else 10 * h + 11 + 13 * k
            out.append(self._app(idx) == (
                z3.RealVal(str(v)) if self.kind == "f" else z3.IntVal(v)))
        return out

    def _sparse(self, m, shape, n):
        """Large arrays: the values the model mentions, others arbitrary."""
        if n > 12000000:
            return {"shape": list(shape), "data": None}
        entries = []
        known = {d.name() for d in m.decls()}
        interp = m[self.fn] if len(shape) and self.fn.name() in known \
            else None
        if interp is not None and hasattr(interp, "num_entries"):
            for k in range(interp.num_entries()):
                e = interp.entry(k)
                idx = [e.arg_value(i).as_long()
                       for i in range(e.num_args())]
                v = e.value()
                if all(0 <= i < d for i, d in zip(idx, shape)):
                    entries.append([idx, z3.is_true(v) if self.kind == "b"
                                    else float_of(v)])
        return {"shape": list(shape), "kind": self.kind,
                "start": hash_name(str(self.fn)) % 50, "entries": entries,
                "data": "sparse"}

    def concrete(self, m):
        shape = self._shape(m)
        n = int(np.prod(shape)) if shape else 1
        if n > 20000:
            return self._sparse(m, shape, n)
        if self.kind == "b":
            return {"shape": list(shape), "data": [
                z3.is_true(m.eval(self._app(idx), model_completion=True))
                for idx in np.ndindex(*shape)]}
        return {"shape": list(shape), "data": [
            float_of(m.eval(self._app(idx), model_completion=True))
            for idx in np.ndindex(*shape)]}


class StrInput(Input):
    def __init__(self, items):
        self.items = items

    def random(self, rnd):
        return [c == rnd.choice((32, 45, 46, 58, 95, rnd.randint(48, 57),
                                 rnd.randint(65, 90), rnd.randint(97, 122),
                                 rnd.randint(32, 126)))
                for c in self.items if not isinstance(c, str)]

    def concrete(self, m):
        return "".join(c if isinstance(c, str) else
                       chr(m.eval(c, model_completion=True).as_long())
                       for c in self.items)


# --------------------------------------------------------------------------
# symbolic scalars
# --------------------------------------------------------------------------
def token(obj, kind):
    """A printable stand-in for a symbolic object inside plain text."""
    t = f"\ue000{kind}{len(E.objects)}\ue001"
    E.objects[t] = obj
    return t


class Sym:
    """Marker base class of all symbolic objects."""
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, to_z3(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, to_z3(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, to_z3(o)))

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if isinstance(o, (bool, np.bool_)):
            return mkbool(self.e == bool(o))
        return bool(self) == o

    def __ne__(self, o):
        return negate(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return str(bool(self))

    def all(self):
        return self

    def any(self):
        return self


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def negate(b):
    if type(b) is SymBool:
        return mkbool(z3.Not(b.e))
    return not b


def to_z3bool(c):
    """SymBool / SymInt / bool -> z3 Bool or Python bool (no forking)."""
    t = type(c)
    if t is SymBool:
        return c.e
    if t is SymInt:
        return c.e != 0
    if t is SymReal:
        return c.e != 0
    if isinstance(c, z3.BoolRef):
        return c
    return bool(c)


def to_z3(x):
    t = type(x)
    if t in (SymBool, SymInt, SymReal):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            E.unsupported("nan or inf in a symbolic expression")
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    raise TypeError(f"no term for {type(x)}")


def num(e, np_kind=False):
    """Wrap a z3 term or number as a Python-level scalar."""
    if not isinstance(e, z3.ExprRef):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_int(e):
        return SymInt(e, np_kind)
    if z3.is_bool(e):
        return mkbool(e)
    return SymReal(e, np_kind)


def is_numlike(o):
    return isinstance(o, (bool, int, float, np.number, np.bool_)) or \
        type(o) in (SymInt, SymReal, SymBool)


def _bin(op):
    def f(self, o):
        if not is_numlike(o):
            return NotImplemented
        if type(o) is SymBool:
            a = z3.If(o.e, 1, 0)
        elif isinstance(o, (bool, np.bool_)):
            a = z3.IntVal(int(o))
        else:
            a = to_z3(o)
        return op(self, self.e, a)
    return f


FORMAT = []         # formats numbers that were read from a text (set by load)


class _Num(Sym):
    __slots__ = ("e", "np_kind")

    def __init__(self, e, np_kind=False):
        self.e = e
        self.np_kind = np_kind

    def _n(self, e):
        return num(e, self.np_kind)

    __add__ = _bin(lambda s, a, b: s._n(a + b))
    __radd__ = _bin(lambda s, a, b: s._n(b + a))
    __sub__ = _bin(lambda s, a, b: s._n(a - b))
    __rsub__ = _bin(lambda s, a, b: s._n(b - a))
    __mul__ = _bin(lambda s, a, b: s._n(a * b))
    __rmul__ = _bin(lambda s, a, b: s._n(b * a))
    __lt__ = _bin(lambda s, a, b: mkbool(a < b))
    __le__ = _bin(lambda s, a, b: mkbool(a <= b))
    __gt__ = _bin(lambda s, a, b: mkbool(a > b))
    __ge__ = _bin(lambda s, a, b: mkbool(a >= b))

    def __eq__(self, o):
        if not is_numlike(o):
            if isinstance(o, np.ndarray):
                return NotImplemented
            return False
        return _bin(lambda s, a, b: mkbool(a == b))(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else negate(r)

    def __truediv__(self, o):
        if not is_numlike(o):
            return NotImplemented
        if o == 0:
            if self.np_kind:
                E.unsupported("division by zero")
            raise ZeroDivisionError
        return num(real(self.e) / real(to_z3(o)), self.np_kind)

    def __rtruediv__(self, o):
        if not is_numlike(o):
            return NotImplemented
        if self == 0:
            if self.np_kind:
                E.unsupported("division by zero")
            raise ZeroDivisionError
        return num(real(to_z3(o)) / real(self.e), self.np_kind)

    def __neg__(self):
        return num(-self.e, self.np_kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return num(z3.If(self.e >= 0, self.e, -self.e), self.np_kind)

    def __bool__(self):
        return E.branch(self.e != 0)

    def __repr__(self):
        return token(self, "N")

    __str__ = __repr__

    def __format__(self, spec):
        if spec in ("", "d", "g", "s"):
            return token(self, "N")
        if FORMAT:
            return FORMAT[0](self, spec)
        E.unsupported(f"number format {spec}")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy scalar interface
    _NP = ("dtype", "size", "shape", "ndim", "copy", "flatten", "item",
           "astype", "ravel", "squeeze", "reshape", "tolist", "T")

    def __getattr__(self, name):
        if name not in _Num._NP or not self.np_kind:
            raise AttributeError(
                f"'{self.__class__.__name__}' object has no attribute "
                f"'{name}'")
        if name == "dtype":
            return np.dtype("i8" if type(self) is SymInt else "f8")
        if name == "size":
            return 1
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name in ("copy",):
            return lambda *a: self
        if name in ("item", "tolist"):
            return lambda *a: type(self)(self.e, False)
        from . import arr
        return getattr(arr.scalar_array(self), name)


def real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


class SymInt(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return np.int64 if self.np_kind else int

    def __index__(self):
        return E.concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(E.concretize(self.e))

    def __hash__(self):
        return hash(E.concretize(self.e))

    def __floordiv__(self, o):
        if isinstance(o, (int, np.integer)) and o > 0:
            return num(self.e / int(o), self.np_kind)
        return int(self) // int(o)

    def __mod__(self, o):
        if isinstance(o, (int, np.integer)) and o > 0:
            return num(self.e % int(o), self.np_kind)
        return int(self) % int(o)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return int(self) ** o

    def __rpow__(self, o):
        return o ** int(self)

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        return o % int(self)


class SymReal(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return np.float64 if self.np_kind else float

    def __float__(self):
        E.unsupported("concrete value of a symbolic real requested")

    __int__ = __float__

    def __round__(self, n=None):
        return FORMAT[1](self, n)

    def __hash__(self):
        E.unsupported("hash of a symbolic real")

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        E.unsupported("power of a symbolic real")


def conj(*cs):
    """Conjunction without forking."""
    out = []
    for c in cs:
        c = to_z3bool(c)
        if c is False:
            return False
        if c is not True:
            out.append(c)
    return mkbool(z3.And(*out)) if out else True


def disj(*cs):
    out = []
    for c in cs:
        c = to_z3bool(c)
        if c is True:
            return True
        if c is not False:
            out.append(c)
    return mkbool(z3.Or(*out)) if out else False


def implies(a, b):
    return disj(neg(a), b)


def neg(a):
    a = to_z3bool(a)
    return (not a) if isinstance(a, bool) else mkbool(z3.Not(a))


def iff(a, b):
    a, b = to_z3bool(a), to_z3bool(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    return mkbool(a == b)


def ite(c, a, b):
    c = to_z3bool(c)
    if isinstance(c, bool):
        return a if c else b
    return num(z3.If(c, *_same_sort(to_z3(a), to_z3(b))))


def _same_sort(a, b):
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    if z3.is_int(b) and z3.is_real(a):
        b = z3.ToReal(b)
    return a, b


def eq_num(a, b):
    """Equality of two numbers as a condition (no forking)."""
    if type(a) in (SymInt, SymReal) or type(b) in (SymInt, SymReal):
        return mkbool(to_z3(a) == to_z3(b))
    return bool(a == b)


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def contains_sym(x, depth=4):
    if is_sym(x):
        return True
    if depth == 0:
        return False
    t = type(x)
    if t in (list, tuple, set, frozenset):
        return any(contains_sym(i, depth - 1) for i in x)
    if t is dict:
        return any(contains_sym(v, depth - 1) for v in x.values())
    if t is np.ndarray and x.dtype == object:
        return any(contains_sym(i, 1) for i in x.flat)
    return False
