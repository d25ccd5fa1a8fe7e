"""Symbolic text: vectors of characters of concrete length.

SymStr (SymBytes) is a subclass of str (bytes) whose C-level content is a
unique token; all methods are overridden and work on `items`, a tuple of
one-character strings and z3 integers (code points).  Lengths are concrete
(the engine forks over them when an input is created).
"""
import re
import z3
from . import core
from .core import (Sym, SymBool, SymInt, mkbool, num, conj, disj)

TOKEN = re.compile("\ue000([A-Z])(\\d+)\ue001")


def expand(s):
    """Plain text (which may contain tokens) -> items."""
    if issubclass(type(s), (SymStr, SymBytes)):
        return s.items
    if isinstance(s, (bytes, bytearray)):
        s = bytes(s).decode("utf-8" if b"\xee\x80\x80" in s else "latin-1")
    if "\ue000" not in s:
        return tuple(s)
    out, pos = [], 0
    for m in TOKEN.finditer(s):
        out += s[pos:m.start()]
        if m.group(1) in "SB":
            out += core.E.objects[m.group(0)].items
        else:
            out += m.group(0)
        pos = m.end()
    out += s[pos:]
    return tuple(out)


def mk(items):
    items = tuple(items)
    if all(type(c) is str for c in items):
        return "".join(items)
    return SymStr(items)


def mkbytes(items):
    items = tuple(items)
    if all(type(c) is str for c in items):
        s = "".join(items)
        return s.encode("utf-8" if "\ue000" in s else "latin-1")
    return SymBytes(items)


RANGES = {}         # ranges of the characters of inputs: id -> (var, ranges)


def ranges_of(c):
    r = RANGES.get(c.get_id())
    return r[1] if r is not None else None


def ceq(a, b):
    """Equality of two characters as bool or z3 Bool."""
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    r = ranges_of(a)
    if type(b) is str:
        b = ord(b)
        if r is not None and not any(lo <= b <= hi for lo, hi in r):
            return False
        return a == b
    if a is b or a.eq(b):
        return True
    q = ranges_of(b)
    if r is not None and q is not None and not any(
            lo <= h and k <= hi for lo, hi in r for k, h in q):
        return False
    return a == b


def inrange(c, *ranges):
    if type(c) is str:
        return any(lo <= ord(c) <= hi for lo, hi in ranges)
    r = ranges_of(c)
    if r is not None:
        if all(any(lo <= x and y <= hi for lo, hi in ranges) for x, y in r):
            return True
        ranges = [(lo, hi) for lo, hi in ranges
                  if any(lo <= y and x <= hi for x, y in r)]
        if not ranges:
            return False
    return z3.Or(*[z3.And(c >= lo, c <= hi) if lo != hi else c == lo
                   for lo, hi in ranges])


def band(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return mkbool(z3.And(*out))


UPPER, LOWER, DIGIT = (65, 90), (97, 122), (48, 57)
SPACES = ((9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0))


def clower(c):
    if type(c) is str:
        return c.lower()
    if inrange(c, UPPER) is False:
        return c
    return z3.simplify(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))


def cupper(c):
    if type(c) is str:
        return c.upper()
    if inrange(c, LOWER) is False:
        return c
    return z3.simplify(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))


class _Text(Sym):
    """Methods shared by SymStr and SymBytes."""

    @classmethod
    def _mk(cls, items):
        return mk(items)

    def _it(self, o):
        return expand(o)

    def _ok(self, o):
        return isinstance(o, str)

    # -- comparison --------------------------------------------------------
    def eqcond(self, o):
        b = self._it(o)
        a = self.items
        if len(a) != len(b):
            return False
        return band([ceq(x, y) for x, y in zip(a, b)])

    def __eq__(self, o):
        if not self._ok(o):
            return False
        if o is self:
            return True
        return self.eqcond(o)

    def __ne__(self, o):
        return core.negate(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def _cmp(self, o):
        a, b = self.items, self._it(o)
        for x, y in zip(a, b):
            if bool(mkb(ceq(x, y))):
                continue
            cx = ord(x) if type(x) is str else x
            cy = ord(y) if type(y) is str else y
            return -1 if bool(mkb(cx < cy)) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def _canon(self):
        """[text, concrete text or None, names that it is not]"""
        memo = core.E.notes.setdefault("canon", {})
        key = (type(self).__name__,) + tuple(
            c if type(c) is str else c.get_id() for c in self.items)
        done = memo.get(key)
        if done is None:
            done = memo[key] = [self, None, set()]
        return done

    def known_as(self, name):
        """The path has decided that this is the given concrete text."""
        done = self._canon()
        if done[1] is None and not any(
                h is self or h._canon() is done for h in core.E.hashed):
            # (not if its hash was already used for a dictionary)
            done[1] = name

    def canonical(self):
        """Concrete text if the path fixes it to a known name, else self."""
        e = core.E
        e.live()
        key = self.items
        done = self._canon()
        if done[1] is not None:
            return done[1]
        n = len(key)
        for name in list(e.names.get(n, ())):
            if name in done[2]:
                continue
            done[2].add(name)
            if bool(self.eqcond(name)):
                done[1] = name
                return name
        for other in e.hashed:
            if other is self or id(other) in done[2]:
                continue
            done[2].add(id(other))
            if len(other.items) == n and bool(self.eqcond(other)):
                done[1] = other
                return other
        return self

    def __hash__(self):
        c = self.canonical()
        if c is self:
            e = core.E
            if not any(h is self for h in e.hashed):
                e.hashed.append(self)
            return object.__hash__(self)
        return hash(c)

    # -- container ---------------------------------------------------------
    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        return iter([self._mk((c,)) for c in self.items])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._mk(self.items[k])
        return self._mk((self.items[k],))

    def __contains__(self, o):
        b = self._it(o)
        n = len(b)
        return bool(disj(*[self._at(i, b)
                           for i in range(len(self.items) - n + 1)]))

    def _at(self, i, b):
        a = self.items
        if i < 0 or i + len(b) > len(a):
            return False
        return band([ceq(a[i + k], b[k]) for k in range(len(b))])

    def __add__(self, o):
        if not self._ok(o):
            return NotImplemented
        return self._mk(self.items + self._it(o))

    def __radd__(self, o):
        if not self._ok(o):
            return NotImplemented
        return self._mk(self._it(o) + self.items)

    def __mul__(self, n):
        return self._mk(self.items * int(n))

    __rmul__ = __mul__

    def __reduce__(self):
        core.E.unsupported("pickling of text")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- predicates --------------------------------------------------------
    def startswith(self, p, start=0, end=None):
        s = self[start:end] if (start or end is not None) else self
        if isinstance(p, tuple):
            return disj(*[s.startswith(q) for q in p])
        return _T(s)._at(0, self._it(p))

    def endswith(self, p, start=0, end=None):
        s = self[start:end] if (start or end is not None) else self
        if isinstance(p, tuple):
            return disj(*[s.endswith(q) for q in p])
        b = self._it(p)
        s = _T(s)
        return s._at(len(s.items) - len(b), b)

    def _all(self, *ranges):
        if not self.items:
            return False
        return band([inrange(c, *ranges) for c in self.items])

    def isdigit(self):
        return self._all(DIGIT)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(UPPER, LOWER)

    def isalnum(self):
        return self._all(UPPER, LOWER, DIGIT)

    def isspace(self):
        return self._all(*SPACES)

    def isascii(self):
        return band([inrange(c, (0, 127)) for c in self.items])

    def isprintable(self):
        return band([inrange(c, (32, 126)) for c in self.items])

    def isupper(self):
        return conj(neg_any(self.items, LOWER), pos_any(self.items, UPPER))

    def islower(self):
        return conj(neg_any(self.items, UPPER), pos_any(self.items, LOWER))

    def isidentifier(self):
        if not self.items:
            return False
        return band([inrange(self.items[0], UPPER, LOWER, (95, 95))] +
                    [inrange(c, UPPER, LOWER, DIGIT, (95, 95))
                     for c in self.items[1:]])

    # -- mapping -----------------------------------------------------------
    def lower(self):
        return self._mk([clower(c) for c in self.items])

    casefold = lower

    def upper(self):
        return self._mk([cupper(c) for c in self.items])

    def swapcase(self):
        core.E.unsupported("swapcase")

    def capitalize(self):
        return self._mk([cupper(c) for c in self.items[:1]] +
                        [clower(c) for c in self.items[1:]])

    def _strip(self, chars, left, right):
        a = list(self.items)

        def hit(c):
            if chars is None:
                return bool(mkb(inrange(c, *SPACES)))
            return bool(disj(*[mkb(ceq(c, x)) for x in self._it(chars)]))
        while left and a and hit(a[0]):
            a.pop(0)
        while right and a and hit(a[-1]):
            a.pop()
        return self._mk(a)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return self[len(self._it(p)):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        n = len(self._it(p))
        return self[:len(self) - n] if n and bool(self.endswith(p)) else self

    # -- search ------------------------------------------------------------
    def find(self, sub, start=0, end=None):
        b = self._it(sub)
        n = len(self.items)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(b) + 1):
            if bool(self._at(i, b)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        b = self._it(sub)
        n = len(self.items)
        start, end, _ = slice(start, end).indices(n)
        for i in range(end - len(b), start - 1, -1):
            if bool(self._at(i, b)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        s = _T(self[slice(*a)]) if a else self
        b = self._it(sub)
        if len(b) == 1:
            total = 0
            terms = []
            for c in s.items:
                q = ceq(c, b[0])
                if isinstance(q, bool):
                    total += q
                else:
                    terms.append(z3.If(q, 1, 0))
            if not terms:
                return total
            return num(z3.Sum([z3.IntVal(total)] + terms))
        return len(s.split(sub)) - 1

    def replace(self, old, new, count=-1):
        a, b = self._it(old), self._it(new)
        count = int(count)
        if not a:
            core.E.unsupported("replace of empty text")
        out, i, n = [], 0, len(self.items)
        while i < n:
            if count != 0 and i + len(a) <= n and bool(self._at(i, a)):
                out += b
                i += len(a)
                count -= 1
            else:
                out.append(self.items[i])
                i += 1
        return self._mk(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_space(maxsplit)
        b = self._it(sep)
        if not b:
            raise ValueError("empty separator")
        parts, cur, i, n = [], [], 0, len(self.items)
        while i < n:
            if maxsplit != 0 and i + len(b) <= n and bool(self._at(i, b)):
                parts.append(self._mk(cur))
                cur = []
                i += len(b)
                maxsplit -= 1
            else:
                cur.append(self.items[i])
                i += 1
        parts.append(self._mk(cur))
        return parts

    def _split_space(self, maxsplit=-1):
        parts, cur = [], []
        for k, c in enumerate(self.items):
            if maxsplit >= 0 and len(parts) == maxsplit and not cur and \
                    not bool(mkb(inrange(c, *SPACES))):
                return parts + [self._mk(self.items[k:])]
            if bool(mkb(inrange(c, *SPACES))):
                if cur:
                    parts.append(self._mk(cur))
                cur = []
            else:
                cur.append(c)
        if cur:
            parts.append(self._mk(cur))
        return parts

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            core.E.unsupported("rsplit at space with limit")
        parts, s = [], self
        b = self._it(sep)
        while maxsplit > 0:
            i = _T(s).rfind(sep)
            if i < 0:
                break
            parts.insert(0, s[i + len(b):])
            s = s[:i]
            maxsplit -= 1
        return [s] + parts

    def partition(self, sep):
        i = self.find(sep)
        e = self._mk(())
        if i < 0:
            return self, e, e
        return self[:i], sep, self[i + len(self._it(sep)):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        e = self._mk(())
        if i < 0:
            return e, e, self
        return self[:i], sep, self[i + len(self._it(sep)):]

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        a = self.items
        while i < len(a):
            c = a[i]
            if bool(mkb(ceq(c, "\n"))):
                out.append(self._mk(cur + [c] if keepends else cur))
                cur = []
            elif bool(mkb(ceq(c, "\r"))):
                nl = [c]
                if i + 1 < len(a) and bool(mkb(ceq(a[i + 1], "\n"))):
                    nl.append(a[i + 1])
                    i += 1
                out.append(self._mk(cur + nl if keepends else cur))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(self._mk(cur))
        return out

    def join(self, seq):
        out = ()
        for i, s in enumerate(seq):
            if i:
                out += self.items
            if not self._ok(s):
                raise TypeError(f"sequence item {i}: expected text, "
                                f"{type(s).__name__} found")
            out += self._it(s)
        return self._mk(out)

    def zfill(self, w):
        core.E.unsupported("zfill")

    def ljust(self, w, f=" "):
        return self._mk(self.items + tuple(f) * (w - len(self.items)))

    def rjust(self, w, f=" "):
        return self._mk(tuple(f) * (w - len(self.items)) + self.items)

    def expandtabs(self, *a):
        core.E.unsupported("expandtabs")

    def translate(self, table):
        out = []
        for c in self.items:
            for k in table:
                if bool(mkb(ceq(c, chr(k)))):
                    v = table[k]
                    out += [] if v is None else \
                        [chr(v)] if isinstance(v, int) else list(self._it(v))
                    break
            else:
                out.append(c)
        return self._mk(out)

    def title(self):
        core.E.unsupported("title")

    def center(self, *a):
        core.E.unsupported("center")

    def istitle(self):
        core.E.unsupported("istitle")


def mkb(x):
    return x if isinstance(x, bool) else mkbool(x)


def pos_any(items, r):
    return disj(*[mkb(inrange(c, r)) for c in items])


def neg_any(items, r):
    return conj(*[core.neg(mkb(inrange(c, r))) for c in items])


def _T(s):
    """View plain text as symbolic text (to use the methods above)."""
    if type(s) in (SymStr, SymBytes):
        return s
    if isinstance(s, (bytes, bytearray)):
        return SymBytes(expand(s))
    return SymStr(expand(s))


class SymStr(_Text, str):
    def __new__(cls, items):
        e = core.E
        t = f"\ue000S{len(e.objects)}\ue001"
        self = str.__new__(cls, t)
        e.objects[t] = self
        self.items = tuple(items)
        return self

    __hash__ = _Text.__hash__

    def __str__(self):
        return str.__str__(self)

    def __repr__(self):
        return "'" + str.__str__(self) + "'"

    def __format__(self, spec):
        if spec in ("", "s"):
            return str.__str__(self)
        core.E.unsupported(f"text format {spec}")

    def encode(self, encoding="utf-8", errors="strict"):
        if bool(core.neg(self.isascii())):
            core.E.unsupported("encoding of non-ASCII text")
        return SymBytes(self.items)

    def format(self, *a, **k):
        return fmt(self, a, k)

    def format_map(self, m):
        core.E.unsupported("format_map")


class SymBytes(_Text, bytes):
    def __new__(cls, items):
        e = core.E
        t = f"\ue000B{len(e.objects)}\ue001"
        self = bytes.__new__(cls, t.encode("utf-8"))
        e.objects[t] = self
        self.items = tuple(items)
        return self

    __hash__ = _Text.__hash__

    @classmethod
    def _mk(cls, items):
        return mkbytes(items)

    def _ok(self, o):
        return isinstance(o, (bytes, bytearray))

    def __iter__(self):
        return iter([ord(c) if type(c) is str else num(c)
                     for c in self.items])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkbytes(self.items[k])
        c = self.items[k]
        return ord(c) if type(c) is str else num(c)

    def decode(self, encoding="utf-8", errors="strict"):
        return mk(self.items)

    def __repr__(self):
        return "b" + repr(bytes.decode(self, "utf-8"))

    def __str__(self):
        return repr(self)


def fmt(s, a, k):
    """str.format for the simple fields {}, {0}, {name}."""
    import string
    out, auto = (), 0
    if type(s) is SymStr:
        core.E.unsupported("format with a symbolic pattern")
    for lit, field, spec, conv in string.Formatter().parse(s):
        out += tuple(lit)
        if field is None:
            continue
        if spec:
            out += tuple(format(a[int(field or auto)], spec))
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            v = k[field]
        out += expand(tostr(v))
    return mk(out)


def tostr(v):
    if isinstance(v, str):
        return v
    return str(v)


def text(v):
    """Symbolic view of a plain text containing tokens."""
    return mk(expand(v))


# --------------------------------------------------------------------------
# regular expressions (the subset used with symbolic text)
# --------------------------------------------------------------------------
def mkas(s, items):
    """Text or bytes, as s."""
    return mkbytes(items) if isinstance(s, (bytes, bytearray)) else mk(items)


class SymRe:
    def __init__(self, pattern, flags=0):
        import re._parser as sp
        import re._constants as sc
        self.sc = sc
        self.pattern = pattern
        self.tree = sp.parse(pattern, flags)
        self.icase = bool(flags & re.I)

    def match_at(self, items, pos):
        """Greedy backtracking match; yields (end, groups)."""
        yield from self._seq(list(self.tree), items, pos, {})

    def _seq(self, nodes, items, pos, groups):
        if not nodes:
            yield pos, groups
            return
        for p, g in self._node(nodes[0], items, pos, groups):
            yield from self._seq(nodes[1:], items, p, g)

    def _char(self, c, item):
        a = item if type(item) is not str else ord(item)
        if self.icase:
            return disj(mkb(ceq(clower(item), chr(c).lower())))
        if isinstance(a, int):
            return a == c
        return mkb(ceq(item, chr(c)))

    def _in(self, members, item):
        sc = self.sc
        neg_, conds = False, []
        for op, av in members:
            if op is sc.NEGATE:
                neg_ = True
            elif op is sc.LITERAL:
                conds.append(self._char(av, item))
            elif op is sc.RANGE:
                conds.append(mkb(inrange(item, av)))
            elif op is sc.CATEGORY:
                conds.append(self._cat(av, item))
            else:
                core.E.unsupported(f"regular expression {self.pattern}")
        r = disj(*conds)
        return core.neg(r) if neg_ else r

    def _cat(self, cat, item):
        sc = self.sc
        table = {sc.CATEGORY_SPACE: (SPACES, False),
                 sc.CATEGORY_NOT_SPACE: (SPACES, True),
                 sc.CATEGORY_DIGIT: ((DIGIT,), False),
                 sc.CATEGORY_NOT_DIGIT: ((DIGIT,), True),
                 sc.CATEGORY_WORD:
                     ((UPPER, LOWER, DIGIT, (95, 95)), False),
                 sc.CATEGORY_NOT_WORD:
                     ((UPPER, LOWER, DIGIT, (95, 95)), True)}
        if cat not in table:
            core.E.unsupported(f"regular expression {self.pattern}")
        ranges, n = table[cat]
        r = mkb(inrange(item, *ranges))
        return core.neg(r) if n else r

    def _node(self, node, items, pos, groups):
        sc = self.sc
        op, av = node
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if pos >= len(items):
                return
            item = items[pos]
            if op is sc.LITERAL:
                c = self._char(av, item)
            elif op is sc.NOT_LITERAL:
                c = core.neg(self._char(av, item))
            elif op is sc.ANY:
                c = core.neg(mkb(ceq(item, "\n")))
            else:
                c = self._in(av, item)
            if bool(c):
                yield pos + 1, groups
        elif op is sc.SUBPATTERN:
            gid, _, _, sub = av
            for p, g in self._seq(list(sub), items, pos, groups):
                if gid is not None:
                    g = {**g, gid: (pos, p)}
                yield p, g
        elif op is sc.BRANCH:
            for alt in av[1]:
                yield from self._seq(list(alt), items, pos, groups)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            yield from self._repeat(list(sub), items, pos, groups, 0, lo,
                                    hi, op is sc.MAX_REPEAT)
        elif op is sc.AT:
            ok = {sc.AT_BEGINNING: pos == 0,
                  sc.AT_BEGINNING_STRING: pos == 0,
                  sc.AT_END_STRING: pos == len(items)}.get(av)
            if av is sc.AT_END:
                ok = pos == len(items) or (
                    pos == len(items) - 1
                    and bool(mkb(ceq(items[pos], "\n"))))
            if ok is None:
                core.E.unsupported(f"regular expression {self.pattern}")
            if ok:
                yield pos, groups
        elif op is sc.ASSERT or op is sc.ASSERT_NOT:
            direction, sub = av
            if direction < 0:
                core.E.unsupported("look-behind")
            hit = next(self._seq(list(sub), items, pos, groups), None)
            if (hit is not None) == (op is sc.ASSERT):
                yield pos, groups
        else:
            core.E.unsupported(f"regular expression {self.pattern}")

    def _repeat(self, sub, items, pos, groups, n, lo, hi, greedy):
        def more():
            if n < hi:
                for p, g in self._seq(sub, items, pos, groups):
                    if p == pos:
                        continue
                    yield from self._repeat(sub, items, p, g, n + 1, lo, hi,
                                            greedy)
        if greedy:
            yield from more()
            if n >= lo:
                yield pos, groups
        else:
            if n >= lo:
                yield pos, groups
            yield from more()

    def search(self, s, start=0):
        items = expand(s)
        for pos in range(start, len(items) + 1):
            for end, g in self.match_at(items, pos):
                return SymMatch(s, items, pos, end, g)
        return None

    def match(self, s):
        items = expand(s)
        for end, g in self.match_at(items, 0):
            return SymMatch(s, items, 0, end, g)
        return None

    def fullmatch(self, s):
        items = expand(s)
        for end, g in self.match_at(items, 0):
            if end == len(items):
                return SymMatch(s, items, 0, end, g)
        return None

    def finditer(self, s):
        items = expand(s)
        pos = 0
        out = []
        while pos <= len(items):
            m = self.search(s, pos)
            if m is None:
                break
            out.append(m)
            pos = m.e if m.e > m.b else m.e + 1
        return out

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            n = self.tree.state.groups - 1
            if n == 0:
                out.append(m.group())
            elif n == 1:
                out.append(m.group(1))
            else:
                out.append(tuple(m.group(i + 1) for i in range(n)))
        return out

    def split(self, s, maxsplit=0):
        items = expand(s)
        out, pos, k = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and k >= maxsplit:
                break
            if m.b == m.e:
                core.E.unsupported("split at empty match")
            out.append(mkas(s, items[pos:m.b]))
            for i in range(self.tree.state.groups - 1):
                out.append(m.group(i + 1))
            pos = m.e
            k += 1
        out.append(mkas(s, items[pos:]))
        return out

    def sub(self, repl, s, count=0):
        items = expand(s)
        out, pos, k = (), 0, 0
        for m in self.finditer(s):
            if count and k >= count:
                break
            out += items[pos:m.b]
            if callable(repl):
                out += expand(repl(m))
            else:
                r = expand(repl)
                if "\\" in r:
                    core.E.unsupported("group reference in re.sub")
                out += r
            pos = m.e
            k += 1
        return mkas(s, out + items[pos:])


class SymMatch:
    def __init__(self, s, items, b, e, groups):
        self.string, self.items, self.b, self.e = s, items, b, e
        self.g = groups

    def _span(self, i):
        if i == 0:
            return self.b, self.e
        return self.g.get(i)

    def group(self, *ids):
        if not ids:
            ids = (0,)
        r = []
        for i in ids:
            if not isinstance(i, int):
                core.E.unsupported("named group")
            sp = self._span(i)
            r.append(None if sp is None else
                     mkas(self.string, self.items[sp[0]:sp[1]]))
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, i):
        return self.group(i)

    def groups(self):
        n = max(self.g, default=0)
        return tuple(self.group(i + 1) for i in range(n))

    def start(self, i=0):
        return self._span(i)[0]

    def end(self, i=0):
        return self._span(i)[1]

    def span(self, i=0):
        return self._span(i)


def symtext(*args):
    """Does any argument contain symbolic text?"""
    for a in args:
        if type(a) in (SymStr, SymBytes):
            return True
        if type(a) is str and "\ue000S" in a:
            return True
        if type(a) is bytes and b"\xee\x80\x80" in a:
            return True
        if type(a) in (list, tuple) and symtext(*a):
            return True
    return False


class ReModel:
    """Stand-in for module re."""

    def __getattr__(self, name):
        return getattr(re, name)

    @staticmethod
    def _call(method, pattern, *args, **kw):
        if not symtext(*args):
            return getattr(re, method)(pattern, *args, **kw)
        if isinstance(pattern, re.Pattern):
            pattern, kw["flags"] = pattern.pattern, pattern.flags & re.I
        flags = kw.pop("flags", 0)
        r = SymRe(pattern, flags)
        out = getattr(r, method)(*args, **kw)
        return out

    def split(self, pattern, s, maxsplit=0, flags=0):
        return self._call("split", pattern, s, maxsplit=maxsplit,
                          flags=flags)

    def sub(self, pattern, repl, s, count=0, flags=0):
        return self._call("sub", pattern, repl, s, count=count, flags=flags)

    def search(self, pattern, s, flags=0):
        return self._call("search", pattern, s, flags=flags)

    def match(self, pattern, s, flags=0):
        return self._call("match", pattern, s, flags=flags)

    def fullmatch(self, pattern, s, flags=0):
        return self._call("fullmatch", pattern, s, flags=flags)

    def findall(self, pattern, s, flags=0):
        return self._call("findall", pattern, s, flags=flags)

    def finditer(self, pattern, s, flags=0):
        return self._call("finditer", pattern, s, flags=flags)

    def compile(self, pattern, flags=0):
        return PatternModel(self, re.compile(pattern, flags))


class PatternModel:
    def __init__(self, model, p):
        self.model, self.p = model, p

    def __getattr__(self, name):
        if name in ("split", "search", "match", "fullmatch", "findall",
                    "finditer"):
            return lambda s, *a, **k: (
                self.model._call(name, self.p, s, *a, **k)
                if symtext(s) else getattr(self.p, name)(s, *a, **k))
        if name == "sub":
            return lambda r, s, *a, **k: (
                self.model._call(name, self.p, r, s, *a, **k)
                if symtext(r, s) else self.p.sub(r, s, *a, **k))
        return getattr(self.p, name)
