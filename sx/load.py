"""Loads /repo/sofar for symbolic execution.

The sources are read anew, rewritten on the level of the syntax tree (see
Rewriter: only the points where C code would look inside a symbolic object),
and executed as private modules whose imports of numpy, netCDF4, re, json ...
yield the models of this package.
"""
import ast
import builtins
import codecs
import importlib
import io
import itertools
import operator
import os
import re
import sys
import types
import numpy as np
from . import core, text, arr, ncmodel
from .core import Sym, SymBool, SymInt, SymReal, is_sym, contains_sym
from .text import SymStr, SymBytes, expand, mk

STR_METHODS = {m for m in dir(str) if not m.startswith("_")} | \
    {m for m in dir(bytes) if not m.startswith("_")} | {
        "get", "pop", "isdisjoint", "issubset", "issuperset", "intersection",
        "difference", "union", "symmetric_difference"}
SETS = (set, frozenset, type({}.keys()))
SET_OPS = {"intersection": "&", "difference": "-", "union": "|",
           "symmetric_difference": "^"}
CALLS = {"str", "int", "float", "bool", "type", "len", "hasattr", "getattr",
         "setattr", "delattr", "max", "min", "abs", "sum", "any", "all",
         "sorted", "list", "tuple", "set", "dict", "repr", "round", "ord",
         "chr", "isinstance", "id", "bytes", "range", "vars", "map", "filter"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, record=True):
        self.mod = modname
        self.record = record
        self.stack = []

    # -- functions: record which ones are executed -------------------------
    def _func(self, node):
        if not self.record:
            self.generic_visit(node)
            return node
        self.stack.append(node.name)
        name = ".".join([self.mod] + self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = [self.visit(n) for n in node.body]
        doc = isinstance(node.body[0], ast.Expr) and \
            isinstance(node.body[0].value, ast.Constant)
        enter = ast.Expr(ast.Call(ast.Name("__sx_enter__", ast.Load()),
                                  [ast.Constant(name),
                                   ast.Constant(node.lineno)], []))
        flat = []
        for b in body:
            flat += b if isinstance(b, list) else [b]
        node.body = (flat[:1] + [enter] + flat[1:]) if doc else [enter] + flat
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _helper(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec or ast.Constant("")
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion),
                                        spec], ast.Load()))
            else:
                parts.append(v)
        return self._helper("__sx_fstr__", *parts)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0],
                                             (ast.In, ast.NotIn)):
            c = self._helper("__sx_in__", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), c)
            return c
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._helper("__sx_mod__", node.left, node.right)
        for t, op in ((ast.Sub, "-"), (ast.BitAnd, "&"), (ast.BitOr, "|"),
                      (ast.BitXor, "^")):
            if isinstance(node.op, t):
                return self._helper("__sx_setop__", node.left,
                                    ast.Constant(op), node.right)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(
                node.slice, (ast.Slice, ast.Tuple, ast.Constant,
                             ast.UnaryOp)):
            return self._helper("__sx_item__", node.value, node.slice)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._helper("__sx_call__", ast.Constant("set"),
                            ast.Name("__sx_set__", ast.Load()),
                            ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._helper("__sx_call__", ast.Constant("set"),
                            ast.Name("__sx_set__", ast.Load()),
                            ast.ListComp(node.elt, node.generators))

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS:
            return ast.Call(ast.Name("__sx_method__", ast.Load()),
                            [f.value, ast.Constant(f.attr)] + node.args,
                            node.keywords)
        if isinstance(f, ast.Name) and f.id in CALLS:
            return ast.Call(ast.Name("__sx_call__", ast.Load()),
                            [ast.Constant(f.id), f] + node.args,
                            node.keywords)
        if not isinstance(f, ast.Attribute) and not (
                isinstance(f, ast.Name) and (
                    hasattr(builtins, f.id) or f.id.startswith("__sx_"))):
            # the function may turn out to be a builtin
            return ast.Call(ast.Name("__sx_any__", ast.Load()),
                            [f] + node.args, node.keywords)
        return node


# --------------------------------------------------------------------------
# helpers called by rewritten code
# --------------------------------------------------------------------------
def sx_fstr(*parts):
    sym = False
    if FLOAT_TEXT:
        parts = [(str_real(p[0]),) + p[1:] if type(p) is tuple and
                 type(p[0]) is SymReal and p[1] != 114 and not p[2]
                 else (format_number(p[0], p[2]), -1, "")
                 if type(p) is tuple and type(p[0]) is SymReal and p[2]
                 else p for p in parts]
    for p in parts:
        v = p[0] if type(p) is tuple else p
        if type(v) in (SymStr, arr.NPStr, SymBytes) or \
                (type(v) is str and "\ue000S" in v):
            sym = True
    if not sym:
        out = ""
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                out += format(v, spec)
            else:
                out += p
        return out
    out = ()
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if type(v) in (SymStr, arr.NPStr):
                if conv == 114:
                    out += ("'",) + v.items + ("'",)
                    continue
                if spec:
                    core.E.unsupported("format of symbolic text")
                out += v.items
                continue
            v = repr(v) if conv == 114 else str(v) if conv == 115 else v
            out += expand(format(v, spec))
        else:
            out += expand(p)
    return mk(out)


def sx_in(a, b):
    tb = type(b)
    ta = type(a)
    if tb in (SymStr, arr.NPStr, SymBytes):
        if not b._ok(a):
            raise TypeError("'in <string>' requires string as left operand")
        return a in b
    if ta in (SymStr, arr.NPStr, SymBytes):
        if isinstance(b, (str, bytes)):
            return bool(text._T(b).__contains__(a))
        if isinstance(b, (list, tuple, set, frozenset)) or \
                isinstance(b, (dict, type({}.keys()))):
            for k in list(b):
                if isinstance(k, (str, bytes)) and bool(a == k):
                    if type(k) in (str, bytes) and "\ue000" not in str(k):
                        a.known_as(k)
                    return True
            return False
    if ta in (SymInt, SymReal) and isinstance(b, (list, tuple, range, set)):
        return bool(core.disj(*[core.eq_num(a, x) for x in b
                                if core.is_numlike(x)]))
    if isinstance(b, (str, bytes)) and isinstance(a, (str, bytes)):
        if "\ue000S" in (b if isinstance(b, str) else ""):
            return bool(text._T(b).__contains__(a))
        return a in b
    if isinstance(a, str) and isinstance(b, (dict, type({}.keys()), set,
                                             frozenset)):
        # symbolic keys inside the container
        if a in b:
            return True
        for k in list(b):
            if type(k) in (SymStr, arr.NPStr) and bool(k == a):
                return True
        return False
    return a in b


NOTHING = object()


def sx_key(obj, key):
    """The key of a dictionary that equals the given one."""
    if isinstance(obj, dict) and isinstance(key, str) and \
            dict.get(obj, key, NOTHING) is NOTHING:
        if type(key) in (SymStr, arr.NPStr):
            for k in list(obj):
                if isinstance(k, str) and bool(key == k):
                    return k
        else:
            for k in list(obj):
                if type(k) in (SymStr, arr.NPStr) and bool(k == key):
                    return k
    return key


def sx_item(obj, key):
    return obj[sx_key(obj, key)]


def sx_mod(a, b):
    if isinstance(a, str) and (type(a) is SymStr or contains_sym(b)):
        args = b if isinstance(b, tuple) else (b,)
        parts = a.split("%s")
        if type(a) is not SymStr and len(parts) == len(args) + 1 and \
                all("%" not in p for p in parts):
            out = expand(parts[0])
            for v, p in zip(args, parts[1:]):
                out += expand(text.tostr(v)) + tuple(p)
            return mk(out)
        core.E.unsupported("% formatting")
    return a % b


def symtext_deep(x, depth=3):
    t = type(x)
    if t in (SymStr, arr.NPStr, SymBytes):
        return True
    if t is str:
        return "\ue000S" in x
    if t is bytes:
        return b"\xee\x80\x80B" in x
    if depth and t in (list, tuple):
        return any(symtext_deep(i, depth - 1) for i in x)
    return False


def symkeys(*sets):
    """Is there symbolic text in a set?"""
    return any(type(k) in (SymStr, arr.NPStr) for s in sets for k in s)


def sx_setop(a, op, b):
    if isinstance(a, SETS) and isinstance(b, SETS) and symkeys(a, b):
        a, b = list(a), list(b)
        out = [x for x in a if op == "|" or sx_in(x, b) == (op == "&")]
        if op in "|^":
            out += [x for x in b if not sx_in(x, a)]
        return set(out)
    return {"-": operator.sub, "&": operator.and_, "|": operator.or_,
            "^": operator.xor}[op](a, b)


def sx_method(obj, name, /, *args, **kw):
    t = type(obj)
    if name == "get" and isinstance(obj, dict) and args and not kw and \
            type(args[0]) in (SymStr, arr.NPStr):
        return obj[args[0]] if sx_in(args[0], obj) else \
            args[1] if len(args) > 1 else None
    if name == "pop" and isinstance(obj, dict) and args:
        args = (sx_key(obj, args[0]),) + args[1:]
    if isinstance(obj, SETS) and len(args) == 1 and not kw and (
            name in SET_OPS or name.startswith("is")):
        other = list(args[0])
        if symkeys(obj, other):
            if name in SET_OPS:
                return sx_setop(obj, SET_OPS[name], set(other))
            if name == "isdisjoint":
                return not any(sx_in(x, other) for x in obj)
            if name == "issubset":
                return all(sx_in(x, other) for x in obj)
            if name == "issuperset":
                return all(sx_in(x, obj) for x in other)
        if type(obj) is not SymSet and any(
                type(i) in (SymInt, SymReal) for i in other):
            obj = SymSet(obj)
        args = (other,)
    if obj is os.path and name in ("isfile", "exists") and \
            type(args[0]) is SymStr:
        return path_exists(args[0])
    if t is str or t is bytes or t is np.str_:
        if name == "join" and len(args) == 1 and \
                not isinstance(args[0], (list, tuple)):
            args = (list(args[0]),)
        if symtext_deep(args) or symtext_deep(obj):
            if name == "format":
                return text.fmt(obj, args, kw)
            return getattr(text._T(obj), name)(*args, **kw)
    elif t is SymBytes and name == "hex":
        core.E.unsupported("hex")
    return getattr(obj, name)(*args, **kw)


def cls_of(x):
    return x.__class__ if is_sym(x) else type(x)


def resolve_attr(o, name):
    """Attribute name: known concrete name, or the symbolic one itself."""
    if type(name) not in (SymStr, arr.NPStr):
        if type(name) is str and "\ue000S" in name:
            name = mk(expand(name))
            if type(name) is str:
                return name
        else:
            return name
    names = core.E.names
    try:
        pool = list(object.__getattribute__(o, "__dict__"))
    except AttributeError:
        pool = []
    for n in pool + dir(type(o)):
        if type(n) is str:
            names.setdefault(len(n), {})[n] = None
    c = name.canonical()
    return c


def sx_hasattr(o, name):
    name = resolve_attr(o, name)
    if isinstance(o, ncmodel._Attrs):
        if o._sx_has(name):
            return True
    return hasattr(o, name)


def sx_getattr(o, name, *default):
    name = resolve_attr(o, name)
    return getattr(o, name, *default)


def sx_setattr(o, name, value):
    return setattr(o, resolve_attr(o, name), value)


def sx_delattr(o, name):
    return delattr(o, resolve_attr(o, name))


def parse_int(s):
    it = list(s.strip().items) if type(s.strip()) is SymStr \
        else list(s.strip())
    if all(type(c) is str for c in it):
        return int("".join(it))
    sign = 1
    if it and bool(text.mkb(text.inrange(it[0], (43, 43), (45, 45)))):
        if bool(text.mkb(text.ceq(it[0], "-"))):
            sign = -1
        it = it[1:]
    if not it:
        raise ValueError("invalid literal for int()")
    v = 0
    for c in it:
        if not bool(text.mkb(text.inrange(c, text.DIGIT))):
            if type(c) is str and c == "_" or type(c) is not str and \
                    bool(core.mkbool(c == 95)):
                core.E.unsupported("underscore in number")
            raise ValueError("invalid literal for int()")
        d = ord(c) - 48 if type(c) is str else SymInt(c - 48)
        v = v * 10 + d
    v = v * sign
    if is_sym(v):
        FLOAT_TEXT[id(v)] = (v, sign, it, [])
    return v


def parse_float(s):
    s = s.strip()
    it = list(expand(s))
    if all(type(c) is str for c in it):
        return float("".join(it))
    sign = 1
    if it and bool(text.mkb(text.inrange(it[0], (43, 43), (45, 45)))):
        if bool(text.mkb(text.ceq(it[0], "-"))):
            sign = -1
        it = it[1:]
    digits, scale, dot = 0, 1, False
    v = 0
    parts = ([], [])
    for c in it:
        if bool(text.mkb(text.ceq(c, "."))):
            if dot:
                raise ValueError("could not convert string to float")
            dot = True
            continue
        if not bool(text.mkb(text.inrange(c, text.DIGIT))):
            if bool(text.mkb(text.inrange(c, (ord("e"), ord("e")),
                                          (ord("E"), ord("E")),
                                          (95, 95), (ord("i"), ord("i")),
                                          (ord("n"), ord("n")),
                                          (ord("I"), ord("I")),
                                          (ord("N"), ord("N"))))):
                core.E.unsupported("exponent or nan/inf in number")
            raise ValueError("could not convert string to float")
        d = ord(c) - 48 if type(c) is str else SymInt(c - 48)
        v = v * 10 + d
        parts[dot].append(c)
        digits += 1
        if dot:
            scale *= 10
    if not digits:
        raise ValueError("could not convert string to float")
    v = v * sign
    e = core.to_z3(v)
    e = core.real(e) / scale
    if not core.is_sym(v):
        return float(v) / scale
    r = core.num(e)
    FLOAT_TEXT[id(r)] = (r, sign, parts[0], parts[1])
    return r


def sx_call(name, f, /, *args, **kw):
    if f is not getattr(builtins, name):
        return f(*args, **kw)          # shadowed by the code itself
    if name in ("map", "filter", "sorted", "max", "min"):
        if name in ("map", "filter") and args:
            args = (as_model(args[0]),) + args[1:]
        elif "key" in kw:
            kw["key"] = as_model(kw["key"])
    h = HANDLERS.get(name)
    if h is not None:
        r = h(*args, **kw)
        if r is not NotImplemented:
            return r
    return f(*args, **kw)


def sx_any(f, /, *args, **kw):
    if type(f) in (type, type(len)):
        name = f.__name__
        if name in CALLS and f is getattr(builtins, name, None):
            return sx_call(name, f, *args, **kw)
        if type(f) is not type and type(
                f.__self__) in (str, bytes) and name in STR_METHODS:
            return sx_method(f.__self__, name, *args, **kw)
    return f(*args, **kw)


def as_model(f):
    """Builtin functions that are passed to others handle symbolic values."""
    name = getattr(f, "__name__", "")
    if name in HANDLERS and f is getattr(builtins, name, None):
        return lambda *a: sx_call(name, f, *a)
    return f


def _h_str(*a, **k):
    if len(a) == 1 and type(a[0]) in (SymStr,):
        return a[0]
    if len(a) == 1 and type(a[0]) is arr.NPStr:
        return mk(a[0].items)
    if len(a) == 2 and type(a[0]) is SymBytes:
        return a[0].decode(a[1])
    if len(a) == 1 and type(a[0]) is SymReal:
        return str_real(a[0])
    return NotImplemented


def str_real(x):
    """Shortest representation of a number that was read from a text."""
    if not FLOAT_TEXT:
        return repr(x)
    it = FLOAT_TEXT.get(id(x))
    if it is None or it[0] is not x:
        core.E.unsupported("text of a symbolic real")
    sign, whole, frac = it[1:]
    if len(whole) + len(frac) > 15 or len(frac) > 4:
        core.E.unsupported("text of a real with many digits")
    while len(whole) > 1 and bool(text.mkb(text.ceq(whole[0], "0"))):
        whole = whole[1:]
    while frac and bool(text.mkb(text.ceq(frac[-1], "0"))):
        frac = frac[:-1]
    return mk((("-",) if sign < 0 else ()) + tuple(whole or "0") + (".",) +
              tuple(frac or "0"))


FLOAT_TEXT = {}         # texts of symbolic numbers


def fixed(x, k):
    """Sign, whole and k fractional digits of x rounded to k digits."""
    it = FLOAT_TEXT.get(id(x))
    if it is None or it[0] is not x:
        core.E.unsupported("format of a symbolic number")
    sign, whole, frac = it[1], list(it[2] or "0"), list(it[3])
    if len(whole) + len(frac) > 15 or len(frac) > 4 or k > 10:
        core.E.unsupported("format of a real with many digits")
    if len(frac) > k:
        rest = frac[k:]
        first, more = rest[0], rest[1:]
        tie = bool(text.mkb(text.ceq(first, "5"))) and all(
            bool(text.mkb(text.ceq(c, "0"))) for c in more)
        if tie:
            # decided by the binary number
            digits = "".join(_digit(c) for c in whole) + "." + "".join(
                _digit(c) for c in frac)
            whole, _, frac = f"{float(digits):.{k}f}".partition(".")
            return sign, list(whole), list(frac)
        up = bool(text.mkb(text.inrange(first, (53, 57))))
        out = whole + frac[:k]
        if up:
            for i in range(len(out) - 1, -1, -1):
                if bool(text.mkb(text.ceq(out[i], "9"))):
                    out[i] = "0"
                    continue
                out[i] = chr(ord(out[i]) + 1) if type(out[i]) is str \
                    else out[i] + 1
                break
            else:
                out = ["1"] + out
                whole = ["1"] + whole
        whole, frac = out[:len(whole)], out[len(whole):]
    else:
        frac = frac + ["0"] * (k - len(frac))
    while len(whole) > 1 and bool(text.mkb(text.ceq(whole[0], "0"))):
        whole = whole[1:]
    return sign, whole, frac


def _digit(c):
    if type(c) is str:
        return c
    for d in "012345678":
        if bool(text.mkb(text.ceq(c, d))):
            return d
    return "9"


def format_number(x, spec):
    m = re.fullmatch(r"\.(\d)f", spec)
    if not m or type(x) is not SymReal:
        core.E.unsupported(f"number format {spec}")
    sign, whole, frac = fixed(x, int(m.group(1)))
    return mk((("-",) if sign < 0 else ()) + tuple(whole) +
                         ((".",) if frac else ()) + tuple(frac))


def round_number(x, n=None):
    sign, whole, frac = fixed(x, n or 0)
    s = mk((("-",) if sign < 0 else ()) + tuple(whole) +
           ((".",) if frac else ()) + tuple(frac))
    return parse_int(s) if n is None else parse_float(s)


core.FORMAT[:] = [format_number, round_number]


def _h_int(*a, **k):
    if len(a) != 1 or k:
        return NotImplemented
    x = a[0]
    if type(x) is SymInt:
        return SymInt(x.e)
    if type(x) is SymReal:
        z3 = core.z3
        return core.num(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if type(x) in (SymStr, arr.NPStr):
        return parse_int(x)
    if type(x) is arr.SymArr:
        return _h_int(x.item())
    return NotImplemented


def _h_float(*a, **k):
    if len(a) != 1:
        return NotImplemented
    x = a[0]
    if type(x) in (SymInt, SymReal):
        r = core.num(core.real(x.e))
        t = FLOAT_TEXT.get(id(x))
        if t is not None and t[0] is x:
            FLOAT_TEXT[id(r)] = (r,) + t[1:]
        return r
    if type(x) in (SymStr, arr.NPStr):
        return parse_float(x)
    if type(x) is arr.SymArr:
        return _h_float(x.item())
    return NotImplemented


def _h_bool(*a):
    if len(a) == 1 and type(a[0]) is SymBool:
        return a[0]
    return NotImplemented


def _h_type(*a):
    return cls_of(a[0]) if len(a) == 1 else NotImplemented


def _h_len(x):
    if type(x) is arr.SymArr:
        if not x.shape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if type(x) is ncmodel.Dimension:
        return x.size
    return NotImplemented


def _fold(f):
    def h(*a, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        key = k.get("key")
        if key is None:
            if not any(core.is_sym(i) for i in items) or not items:
                return f(*[items], **k) if len(a) == 1 else f(*a, **k)
            fn = arr.max_ if f is max else arr.min_
            r = items[0]
            for i in items[1:]:
                r = fn(i, r) if False else fn(r, i)
            return r
        if len(a) == 1:
            return f(items, **k)
        return NotImplemented
    return h


def _h_sum(it, start=0):
    r = start
    for i in it:
        r = r + i
    return r


def _h_abs(x):
    return NotImplemented


def _h_list(*a):
    if a and type(a[0]) is arr.SymArr:
        return [x for x in a[0]]
    return NotImplemented


class SymSet:
    """Set with symbolic numbers."""

    __class__ = set
    __hash__ = None

    def __init__(self, items):
        self.items = []
        for x in items:
            if x not in self:
                self.items.append(x)

    def __contains__(self, x):
        return any(bool(core.eq_num(x, y)) if core.is_numlike(x) and
                   core.is_numlike(y) else bool(x == y) for y in self.items)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def issubset(self, other):
        other = SymSet(other)
        return all(x in other for x in self.items)

    def issuperset(self, other):
        return all(x in self for x in other)

    def isdisjoint(self, other):
        return not any(x in self for x in other)

    def union(self, *others):
        return SymSet([*self.items, *itertools.chain(*others)])

    def intersection(self, *others):
        others = [SymSet(o) for o in others]
        return SymSet([x for x in self.items if all(x in o for o in others)])

    def difference(self, *others):
        others = [SymSet(o) for o in others]
        return SymSet([x for x in self.items
                       if not any(x in o for o in others)])

    def symmetric_difference(self, other):
        other = SymSet(other)
        return self.difference(other).union(other.difference(self))

    def add(self, x):
        if x not in self:
            self.items.append(x)

    def update(self, *others):
        for x in itertools.chain(*others):
            self.add(x)

    def pop(self):
        if not self.items:
            raise KeyError("pop from an empty set")
        return self.items.pop(0)

    def copy(self):
        return SymSet(self.items)

    def __eq__(self, other):
        return isinstance(other, (set, frozenset)) and \
            self.issubset(other) and self.issuperset(other)

    def __ne__(self, other):
        return not self == other

    def __le__(self, other):
        return self.issubset(other)

    def __ge__(self, other):
        return self.issuperset(other)

    def __lt__(self, other):
        return self.issubset(other) and not self.issuperset(other)

    def __gt__(self, other):
        return self.issuperset(other) and not self.issubset(other)

    def __and__(self, other):
        return self.intersection(other)

    def __or__(self, other):
        return self.union(other)

    def __sub__(self, other):
        return self.difference(other)

    def __xor__(self, other):
        return self.symmetric_difference(other)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __rsub__(self, other):
        return SymSet(other).difference(self)


def _h_set(*a):
    if len(a) == 1:
        x = a[0] if isinstance(a[0], (list, tuple)) else list(a[0])
        if any(type(i) in (SymInt, SymReal) for i in x):
            return SymSet(x)
        return set(x)
    return NotImplemented


def _h_id(x):
    return NotImplemented


def _h_repr(x):
    if type(x) is SymStr:
        return mk(("'",) + x.items + ("'",))
    return NotImplemented


def _h_ord(c):
    if type(c) is SymStr:
        return core.num(c.items[0])
    return NotImplemented


def _h_isinstance(x, t):
    return NotImplemented


HANDLERS = {"str": _h_str, "int": _h_int, "float": _h_float, "bool": _h_bool,
            "type": _h_type, "len": _h_len, "hasattr": sx_hasattr,
            "getattr": sx_getattr, "setattr": sx_setattr,
            "delattr": sx_delattr, "max": _fold(max), "min": _fold(min),
            "sum": _h_sum, "list": _h_list, "set": _h_set, "repr": _h_repr, "ord": _h_ord}


# --------------------------------------------------------------------------
# stand-ins for modules
# --------------------------------------------------------------------------
class Recorder:
    """Printed text, warnings and answers of the user."""

    def __init__(self):
        self.out = []
        self.warnings = []
        self.answers = None

    def reset(self):
        self.out, self.warnings = [], []


REC = Recorder()


def sx_print(*args, sep=" ", end="\n", file=None, flush=False):
    out = ()
    for i, a in enumerate(args):
        if i:
            out += tuple(sep or " ")
        out += expand(text.tostr(a))
    s = mk(out + tuple(end if end is not None else "\n"))
    if file is not None and file not in (sys.stdout, sys.stderr):
        file.write(s)
        return
    REC.out.append(s)


def sx_input(prompt=""):
    if prompt:
        sx_print(prompt, end="")
    if REC.answers is None:
        core.E.unsupported("question to the user")
    return REC.answers()


class WarningsModel:
    def __init__(self):
        import warnings
        self._real = warnings

    def __getattr__(self, name):
        return getattr(self._real, name)

    def warn(self, message, category=None, stacklevel=1, source=None, **k):
        if isinstance(message, Warning):
            category, message = type(message), message.args[0] \
                if message.args else ""
        REC.warnings.append((category or UserWarning, message))

    def catch_warnings(self, *a, record=False, **k):
        return _Catch(record)

    def simplefilter(self, *a, **k):
        pass

    filterwarnings = simplefilter


class _Catch:
    def __init__(self, record):
        self.record = record

    def __enter__(self):
        self.saved = REC.warnings
        if self.record:
            REC.warnings = []
            core.E.unsupported("recorded warnings")
        return None

    def __exit__(self, *a):
        REC.warnings = self.saved


class JsonModel:
    """json whose texts may contain symbolic values (as tokens)."""

    def __init__(self):
        import json
        self._real = json
        self.hydrate_names = True

    def __getattr__(self, name):
        return getattr(self._real, name)

    def load(self, f, **k):
        raw = f.read()
        if type(raw) is SymStr:
            core.E.unsupported("symbolic json text")
        return self.loads(raw, **k)

    def loads(self, s, **k):
        return self._hydrate(self._real.loads(s, **k))

    def _hydrate(self, x):
        if isinstance(x, str):
            if "\ue000" not in x:
                return x
            o = core.E.objects.get(x)
            if o is not None and not isinstance(o, SymStr):
                return o
            return mk(expand(x))
        if isinstance(x, list):
            return [self._hydrate(i) for i in x]
        if isinstance(x, dict):
            for k in x:
                if "\ue000" not in k:
                    core.E.names.setdefault(len(k), {})[k] = None
            return {self._hydrate(k): self._hydrate(v)
                    for k, v in x.items()}
        return x

    def _tokens(self, x):
        if type(x) in (SymInt, SymReal, SymBool):
            return core.token(x, "N")
        if type(x) in (SymStr, arr.NPStr):
            return str.__str__(x)
        if type(x) is arr.SymArr:
            return self._tokens(x.tolist())
        if isinstance(x, (list, tuple)):
            return [self._tokens(i) for i in x]
        if isinstance(x, dict):
            return {self._tokens(k): self._tokens(v) for k, v in x.items()}
        return x

    def dumps(self, x, **k):
        return self._real.dumps(self._tokens(x), **k)

    def dump(self, x, f, **k):
        f.write(self._real.dumps(self._tokens(x), **k))


class FileModel:
    """Real file whose text may contain tokens of symbolic text."""

    def __init__(self, f, binary):
        self.f, self.binary = f, binary
        self.pending = None

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *a):
        return self.f.__exit__(*a)

    def __getattr__(self, name):
        return getattr(self.f, name)

    def _hyd(self, data):
        if self.binary:
            if b"\xee\x80\x80" not in data:
                return data
            return text.mkbytes(expand(data))
        if "\ue000" not in data:
            return data
        items = expand(data)
        s = mk(items)
        return s

    def read(self, *a):
        if a and a[0] not in (None, -1):
            return self.f.read(*a)
        return self._hyd(self.f.read())

    def readlines(self):
        d = self.read()
        if type(d) in (SymStr, SymBytes):
            if type(d) is SymStr:
                d = text._T(d.replace("\r\n", "\n"))
                d = text._T(d.replace("\r", "\n"))
            return self._lines(d)
        n = b"\n" if self.binary else "\n"
        out = [x + n for x in d.split(n)]
        out[-1] = out[-1][:-1]
        return out if out[-1] else out[:-1]

    @staticmethod
    def _lines(d):
        """Split at line feeds only."""
        out, cur = [], []
        for c in d.items:
            cur.append(c)
            if bool(text.mkb(text.ceq(c, "\n"))):
                out.append(d._mk(cur))
                cur = []
        if cur:
            out.append(d._mk(cur))
        return out

    def __iter__(self):
        return iter(self.readlines())

    def readline(self):
        if self.pending is None:
            self.pending = list(self.readlines())
        return self.pending.pop(0) if self.pending else \
            (b"" if self.binary else "")

    def write(self, s):
        if type(s) in (SymStr, arr.NPStr):
            s = SymStr.__new__(SymStr, s.items)
            s = str.__str__(s)
        elif type(s) is SymBytes:
            s = bytes(bytes.__getitem__(s, slice(None)))
        return self.f.write(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)


OPEN_HOOK = [None]


def sx_open(file, mode="r", *a, **k):
    if type(file) in (SymStr, arr.NPStr):
        file = real_path(file)
    if OPEN_HOOK[0] is not None:
        OPEN_HOOK[0](file, mode)
    binary = "b" in mode
    if not binary:
        # tokens need an encoding that can hold them
        enc = a[1] if len(a) > 1 else k.get("encoding")
        if enc is None or enc.lower().replace("_", "-") in ("utf-8", "utf8"):
            if len(a) > 1:
                a = (a[0], "utf-8") + tuple(a[2:])
            else:
                k = {**k, "encoding": "utf-8"}
        elif "r" in mode and "+" not in mode:
            return FileModel(_decoded(file, enc, *a[2:], **{
                x: v for x, v in k.items() if x not in (
                    "encoding", "buffering")}), False)
        else:
            k = {**k, "errors": "sxtoken"}
    return FileModel(builtins.open(file, mode, *a, **k), binary)


TOKEN_BYTES = re.compile(b"(\xee\x80\x80[A-Z][0-9]+\xee\x80\x81)")


def _decoded(file, enc, errors=None, newline=None):
    """Text file whose encoding can not hold tokens."""
    with builtins.open(file, "rb") as f:
        parts = TOKEN_BYTES.split(f.read())
    return io.StringIO("".join(
        p.decode("utf-8") if i % 2 else p.decode(enc, errors or "strict")
        for i, p in enumerate(parts)), newline=newline)


def _encode_token(x):
    s = x.object[x.start:x.end]
    if any(ch not in "\ue000\ue001" for ch in s):
        raise x
    return s.encode("utf-8"), x.end


codecs.register_error("sxtoken", _encode_token)


def real_path(file):
    """Existing file with a symbolic name."""
    known = GlobModel.known
    for p in known:
        if same_items(text._T(p).items, file.items):
            return p
    if not known:
        core.E.unsupported("symbolic file name")
    for p in known:
        if bool(text._T(p) == file):
            return p
    raise FileNotFoundError(2, "No such file or directory", str(file))


def same_items(a, b):
    return len(a) == len(b) and all(text.ceq(x, y) is True
                                    for x, y in zip(a, b))


def path_exists(file):
    try:
        real_path(file)
        return True
    except FileNotFoundError:
        return False


class GlobModel:
    order = None           # function(list) -> list
    known = []             # results

    def __init__(self):
        import glob
        self._real = glob

    def __getattr__(self, name):
        return getattr(self._real, name)

    def glob(self, *a, **k):
        r = sorted(self._real.glob(*a, **k))
        for p in r:
            if p not in GlobModel.known:
                GlobModel.known.append(p)
        r = [mk(expand(p)) if "\ue000S" in p else p for p in r]
        return GlobModel.order(r) if GlobModel.order else r

    iglob = glob


class RequestsModel:
    handler = None

    def get(self, url, *a, **k):
        if RequestsModel.handler is None:
            core.E.unsupported("network access")
        return RequestsModel.handler(url)

    def __getattr__(self, name):
        import requests
        return getattr(requests, name)


class PathModel:
    """pathlib.Path for symbolic names (pure part)."""

    def __init__(self, *parts):
        it = ()
        for i, p in enumerate(parts):
            it += (("/",) if i else ()) + (
                p.text.items if isinstance(p, PathModel)
                else expand(str(p) if not isinstance(p, str) else p))
        self.text = text._T(mk(it))

    def _name(self):
        i = self.text.rfind("/")
        return text._T(mk(self.text.items[i + 1:])), i + 1

    @property
    def name(self):
        return mk(self._name()[0].items)

    @property
    def suffix(self):
        n, _ = self._name()
        # Python 3.12: a trailing dot or a leading dot is no suffix
        i = n.rfind(".")
        if 0 < i < len(n.items) - 1:
            return mk(n.items[i:])
        return ""

    @property
    def stem(self):
        n, _ = self._name()
        i = n.rfind(".")
        if 0 < i < len(n.items) - 1:
            return mk(n.items[:i])
        return mk(n.items)

    @property
    def parent(self):
        _, i = self._name()
        return PathModel(mk(self.text.items[:max(0, i - 1)]))

    def with_suffix(self, suffix):
        n, i = self._name()
        if not n.items:
            raise ValueError("has an empty name")
        old = self.suffix
        base = self.text.items[:len(self.text.items) - len(old)]
        return PathModel(mk(base + expand(suffix)))

    def with_name(self, name):
        _, i = self._name()
        return PathModel(mk(self.text.items[:i] + expand(name)))

    def __truediv__(self, o):
        return PathModel(self, o)

    def __str__(self):
        r = mk(self.text.items)
        return r if type(r) is str else str.__str__(r)

    __repr__ = __str__

    def __fspath__(self):
        r = mk(self.text.items)
        if type(r) is not str:
            c = r.canonical()
            if type(c) is str:
                return c
            core.E.unsupported("symbolic file name")
        return r

    def is_file(self):
        return os.path.isfile(self)

    exists = is_file


class PathlibModel:
    def __init__(self):
        import pathlib
        self._real = pathlib

    def __getattr__(self, name):
        if name in ("Path", "PurePath", "PosixPath"):
            return self._path
        return getattr(self._real, name)

    def _path(self, *parts):
        if any(type(p) in (SymStr, PathModel) for p in parts):
            return PathModel(*parts)
        return self._real.Path(*parts)


class VersionModel:
    """Version number with symbolic parts (digits and dots only)."""

    def __init__(self, release):
        self.release = list(release)

    @staticmethod
    def of(v):
        return list(v.release)

    def _cmp(self, o):
        a, b = self.of(self), self.of(o)
        n = max(len(a), len(b))
        a += [0] * (n - len(a))
        b += [0] * (n - len(b))
        for x, y in zip(a, b):
            if bool(x < y):
                return -1
            if bool(x > y):
                return 1
        return 0

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __eq__(self, o):
        return self._cmp(o) == 0

    __hash__ = None


class PackagingModel:
    def __init__(self):
        from packaging import version
        self._real = version

    def parse(self, v):
        if type(v) is str and "\ue000S" in v:
            v = mk(expand(v))
        if type(v) is not SymStr:
            return self._real.parse(v)
        parts = v.split(".")
        for p in parts:
            if not len(p) or not bool(p.isdigit()):
                core.E.unsupported("version that is no number")
        return VersionModel([parse_int(text._T(p)) for p in parts])

    Version = parse

    def __getattr__(self, name):
        return getattr(self._real, name)


NUMPY = arr.make_numpy()
MODELS = {
    "numpy": NUMPY, "numpy.testing": NUMPY.testing, "numpy.ma": NUMPY.ma,
    "netCDF4": ncmodel.NC4Model(), "re": text.ReModel(),
    "warnings": WarningsModel(), "json": JsonModel(), "glob": GlobModel(),
    "packaging.version": PackagingModel(), "requests": RequestsModel(), "pathlib": PathlibModel(),
}

FUNCTIONS = {}          # executed functions -> first line


def sx_enter(name, line):
    FUNCTIONS[name] = line
    e = core.E
    if e is not None:
        e.live()


class Package:
    """The instrumented package; __file__ lies in the scratch folder."""

    def __init__(self, src, scratch, name="sofar"):
        self.src, self.scratch, self.name = src, scratch, name
        self.modules = {}
        self.code = {}
        self.constants = set()

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"]
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            full = f"{base}.{name}" if name else base
            return self._own(full, fromlist)
        if name == self.name or name.startswith(self.name + "."):
            mod = self._own(name, fromlist)
            return mod if fromlist else self.modules[self.name]
        if name in MODELS:
            if fromlist or "." not in name:
                return MODELS[name]
            return MODELS[name.split(".")[0]]
        top = name.split(".")[0]
        if top in MODELS and top != name:
            # submodule without model
            m = importlib.import_module(name)
            return m if fromlist else MODELS[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _own(self, full, fromlist):
        mod = self.load(full)
        for f in fromlist or ():
            if f != "*" and not hasattr(mod, f):
                self.load(f"{full}.{f}")
        return mod

    def fresh(self):
        """Forget the modules: every path starts with newly run module code."""
        self.modules = {}
        return self.load(self.name)

    def _compile(self, full):
        if full in self.code:
            return self.code[full]
        rel = full.split(".")[1:]
        path = os.path.join(self.src, *rel)
        shown = os.path.join(self.scratch, *rel)
        is_pkg = os.path.isdir(path)
        if is_pkg:
            path, shown = (os.path.join(p, "__init__.py")
                           for p in (path, shown))
        else:
            path, shown = path + ".py", shown + ".py"
        with open(path, "rb") as f:
            source = f.read()
        tree = ast.parse(source, path)
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                    len(n.value) < 60:
                self.constants.add(n.value)
        tree = Rewriter(full).visit(tree)
        ast.fix_missing_locations(tree)
        self.code[full] = compile(tree, path, "exec"), shown, is_pkg
        return self.code[full]

    def load(self, full):
        if full in self.modules:
            return self.modules[full]
        code, shown, is_pkg = self._compile(full)
        mod = types.ModuleType(full)
        mod.__file__ = shown
        mod.__package__ = full if is_pkg else full.rpartition(".")[0]
        if is_pkg:
            mod.__path__ = [os.path.dirname(shown)]
        b = dict(vars(builtins))
        b.update({"__import__": self._import, "print": sx_print,
                  "input": sx_input, "open": sx_open})
        mod.__dict__["__builtins__"] = b
        mod.__dict__.update(RUNTIME)
        self.modules[full] = mod
        exec(code, mod.__dict__)
        parent, _, leaf = full.rpartition(".")
        if parent in self.modules:
            # an attribute with the same name may be imported explicitly
            if not hasattr(self.modules[parent], leaf):
                setattr(self.modules[parent], leaf, mod)
        return mod


RUNTIME = {
    "__sx_fstr__": sx_fstr, "__sx_in__": sx_in, "__sx_mod__": sx_mod,
    "__sx_setop__": sx_setop,
    "__sx_method__": sx_method, "__sx_call__": sx_call,
    "__sx_set__": set, "__sx_item__": sx_item, "__sx_any__": sx_any,
    "__sx_enter__": sx_enter}


def load_harness(path, name):
    """A property module, rewritten like the code under test."""
    with open(path, "rb") as f:
        tree = ast.parse(f.read(), path)
    tree = Rewriter(name, record=False).visit(tree)
    ast.fix_missing_locations(tree)
    mod = types.ModuleType(name)
    mod.__file__ = path
    mod.__package__ = name.rpartition(".")[0]
    mod.__dict__.update(RUNTIME)
    sys.modules[name] = mod
    exec(compile(tree, path, "exec"), mod.__dict__)
    return mod
