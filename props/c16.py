"""C16: equals."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, IDENT, WIDE, ALNUM
from props.common import *

ASSUMPTIONS = [
    "the objects pass verification (attributes are texts, variables have the "
    "type of the convention)",
    "numbers with a relative difference below 5e-8 must be equal and above "
    "2e-7 different (the tolerance is 1e-7; nothing is claimed in between)",
]

CONV = "SimpleHeadphoneIR"
TEXTS = ("SourceManufacturer", "SourceModel", "ReceiverDescriptions")


def near(c, a, b, tol):
    """|a - b| <= tol * max(|a|, |b|)"""
    d = c.disj(*[c.conj(a - b <= tol * s, b - a <= tol * s)
                 for s in (a, -a, b, -b)])
    return d


def call(c, a, b, same, close, what, exclude=None, skip=False):
    """Compare in both orders; same: equal data, close: maybe equal"""
    ka, kb = keys_of(a), keys_of(b)
    got = []
    for x, y in ((a, b), (b, a)):
        sa, sb = snapshot(c, x), snapshot(c, y)
        verbose = c.flag("verbose") if not got else not verbose
        o = c.attempt(c.sf.equals, x, y, verbose, exclude)
        c.check(o.ok, f"{what}: a difference raises {o.kind}: "
                f"{c.plain(o.message)[:200]}")
        c.check(o.value is True or o.value is False, "no boolean")
        c.check(bool(o.warned) == (verbose and not o.value),
                f"{what}: warnings for verbose={verbose}")
        got.append(o.value)
        if o.value:
            c.check(close, f"{what}: different data are equal")
        else:
            c.check(c.neg(same), f"{what}: equal data are different: " +
                    c.plain(o.warned)[:200])
        check_same(c, sa, entries(x), "equals")
        check_same(c, sb, entries(y), "equals")
    if same is close:
        c.check(got[0] == got[1], f"{what}: the order matters")
    c.reach(f"{got[0]}")


def make(c, free=False):
    sofa = c.sf.Sofa(CONV)
    sofa.Data_IR = c.array("IR", (2, 2, c.size("N") if free else 2))
    sofa.SourcePosition = c.array("Source", (1, 3))
    for k in TEXTS:
        setattr(sofa, k, c.np.array([["ab"], ["c"]]))
    sofa.add_variable("Foo", 1.0, "double", "I")
    sofa.add_attribute("Foo_Date", "text")
    sofa.add_variable("DateBar", 1.0, "double", "I")
    return sofa


EXCLUDE = (None, "GLOBAL", "DATE", "ATTR", "global", "Date", "attr")


def left_out(sofa, key, exclude):
    e = None if exclude is None else exclude.upper()
    return (e == "GLOBAL" and key.startswith("GLOBAL_")) or \
        (e == "DATE" and "Date" in key) or \
        (e == "ATTR" and sofa._convention[key]["type"] == "attribute")


def copies(c):
    """Copies are equal"""
    a = make(c, True)
    b = c.must(a.copy).value
    call(c, a, b, True, True, "copy", c.choice("exclude", EXCLUDE))


def one_key(group):
    def change(c):
        a = make(c)
        b = c.must(a.copy).value
        keys = [k for k in keys_of(a) if k.startswith("GLOBAL_") ==
                (group == "global")]
        key = c.choice("key", tuple(keys))
        exclude = c.choice("exclude", EXCLUDE)
        kind = a._convention[key]["type"]
        b.protected = False
        if kind == "attribute":
            v = c.text("new", (0, 2))
            w = c.text("old", (2,))
            same = close = c.same_text(v, w)
            a.protected = False
            setattr(a, key, w)
            a.protected = True
        elif kind == "double":
            v = c.array("new", (2, 3))
            w = c.array("old", (2, 3))
            same = c.conj(*[near(c, v[i, j], w[i, j], 5e-8)
                            for i in range(2) for j in range(3)])
            close = c.conj(*[near(c, v[i, j], w[i, j], 2e-7)
                             for i in range(2) for j in range(3)])
            setattr(a, key, w)
        else:
            v, w = c.np.array([["ab"], ["d"]]), a.__dict__[key]
            if c.flag("change text"):
                same = close = False
            else:
                v, same, close = w, True, True
        setattr(b, key, v)
        b.protected = True
        if left_out(a, key, exclude):
            same = close = True
        call(c, a, b, same, close, key, exclude)
    change.__doc__ = f"One {group} entry has another value"
    return change


def long_texts(c):
    """Long texts with a difference at the end or in the middle"""
    a = make(c)
    b = c.must(a.copy).value
    key = c.choice("key", ("GLOBAL_Title", "SourcePosition_Units",
                           "SourceModel"))
    t = long_text(c, "a", 3000)
    w = long_text(c, "b", 3000)
    same = c.same_text(t, w)
    if key == "SourceModel":
        t, w = [[t], ["x"]], [[w], ["x"]]
    a.protected = b.protected = False
    setattr(a, key, t)
    setattr(b, key, w)
    a.protected = b.protected = True
    call(c, a, b, same, same, key)


def large(c):
    """Arrays of any size, one element differs"""
    a = c.sf.Sofa(CONV)
    M, N = c.size("M"), c.size("N")
    key = c.choice("key", ("Data_IR", "Foo"))
    shape = (M, 2, N) if key == "Data_IR" else (M, N)
    v = c.array("IR", shape)
    i, j = c.int("i", 0), c.int("j", 0)
    c.assume(c.conj(i < M, j < N))
    x = c.real("x")
    w = v.copy()
    at = (i, 1, j) if key == "Data_IR" else (i, j)
    w[at] = x
    old = v[at]
    if key == "Foo":
        a.add_variable("Foo", v, "double", "MN")
    else:
        a.Data_IR = v
    b = c.must(a.copy).value
    setattr(b, key, w)
    call(c, a, b, near(c, old, x, 5e-8), near(c, old, x, 2e-7), key)


def order(c):
    """The same entries, added in another order"""
    a = c.sf.Sofa(CONV)
    b = c.must(a.copy).value
    adds = {
        "variable": lambda s: s.add_variable("Foo", x, "double", "I"),
        "global": lambda s: s.add_attribute("GLOBAL_Bar", t),
        "attribute": lambda s: s.add_attribute("SourcePosition_Foo", t),
        "string": lambda s: s.add_variable("Words", "w", "string", "IS")}
    x, t = c.real("x"), c.text("text", (2,))
    one = c.choice("one", tuple(adds))
    two = c.choice("two", tuple(k for k in adds if k != one))
    for s, names in ((a, (one, two)), (b, (two, one))):
        for k in names:
            c.must(adds[k], s)
    call(c, a, b, True, True, "order", c.choice("exclude", EXCLUDE[:4]))


def missing(c):
    """Entries missing in one of the objects"""
    a = make(c)
    b = c.must(a.copy).value
    exclude = c.choice("exclude", EXCLUDE)
    diff = False
    some = c.choice("some", (("SourceModel", "GLOBAL_History", "Foo_Date"),
                             ("DateBar", "MeasurementDate",
                              "GLOBAL_DateCreated")))
    for k in some:
        side = c.choice("without " + k, ("", "a", "b"))
        if not side:
            continue
        x = a if side == "a" else b
        diff = diff or not left_out(a, k, exclude)
        x.protected = False
        x.delete(k)
        x.protected = True
    call(c, a, b, not diff, not diff, "missing entries", exclude)


def names(c):
    """Entries of different symbolic names"""
    a = c.sf.Sofa(CONV)
    b = c.sf.Sofa(CONV)
    b.GLOBAL_DateCreated = a.GLOBAL_DateCreated
    b.GLOBAL_DateModified = a.GLOBAL_DateModified
    # (names that the class has are no names of entries)
    na = "X" + c.text("a", (3,), ((65, 68), (97, 97), (101, 101),
                                   (116, 116)))
    nb = "X" + c.text("b", (3, 4), ((65, 68), (97, 97), (101, 101),
                                    (116, 116)), first=((65, 68),))
    what = c.choice("what", ("variable", "global", "attribute"))
    for s, n in ((a, na), (b, nb)):
        if what == "variable":
            s.add_variable(n, 1.0, "double", "I")
        else:
            s.add_attribute(("GLOBAL_" if what == "global" else
                             "SourcePosition_") + n, "text")
    exclude = c.choice("exclude", (None, "GLOBAL", "DATE", "ATTR"))

    def out(n):
        if exclude == "DATE":
            return c.disj(*[c.same_text(n[i:i + 4], "Date")
                            for i in range(len(n) - 3)])
        return {None: False, "GLOBAL": what == "global",
                "ATTR": what != "variable"}[exclude]
    same = c.disj(c.same_text(na, nb), c.conj(out(na), out(nb)))
    call(c, a, b, same, same, "names", exclude)


def bad_exclude(c):
    """Every other value of exclude is an error"""
    a = c.sf.Sofa(CONV)
    e = c.text("exclude", (0, 4, 6))
    c.know("GLOBAL", "DATE", "ATTR")
    good = c.disj(*[c.same_text(e.upper(), x)
                    for x in ("GLOBAL", "DATE", "ATTR")])
    o = c.attempt(c.sf.equals, a, a.copy(), False, e)
    c.check(c.iff(o.ok, good), "illegal value of exclude is accepted"
            if o.ok else "legal value of exclude is rejected")
    c.check(o.ok or o.raised(ValueError), f"wrong error {o.kind}")
    if o.ok:
        c.check(o.value is True, "copies are different")


def shapes(na, nb):
    def shape(c):
        a = c.sf.Sofa(CONV)
        b = c.must(a.copy).value
        sa = tuple(c.size(f"a{k}", 1, 3) for k in range(na))
        sb = tuple(c.size(f"b{k}", 1, 3) for k in range(nb))
        v, w = c.array("A", sa), c.array("B", sb)
        if c.flag("equal values"):
            fill = c.real("value")
            v, w = v * 0 + fill, w * 0 + fill
        key = c.choice("key", ("Data_IR", "MeasurementDate"))
        setattr(a, key, v)
        setattr(b, key, w)
        ra = [c.concrete(n) for n in sa]
        rb = [c.concrete(n) for n in sb]
        sq = [n for n in ra if n != 1] == [n for n in rb if n != 1]
        same = close = sq
        if sq:
            fa, fb = list(v.flatten()), list(w.flatten())
            same = c.conj(*[near(c, x, y, 5e-8) for x, y in zip(fa, fb)])
            close = c.conj(*[near(c, x, y, 2e-7) for x, y in zip(fa, fb)])
        call(c, a, b, same, close, "shape")
    shape.__doc__ = f"Arrays of {na} and {nb} dimensions"
    return shape


def scalars(c):
    """Numbers, lists and arrays with one or more elements"""
    a = c.sf.Sofa(CONV)
    b = c.must(a.copy).value
    x, y = c.real("x"), c.real("y")
    form = {"number": lambda v: v, "list": lambda v: [v],
            "array": lambda v: c.np.array([[v]]) if False else [[v]],
            "two": lambda v: [v, v], "integer": lambda v: 3}
    fa = c.choice("form a", tuple(form))
    fb = c.choice("form b", tuple(form))
    a.MeasurementDate = form[fa](x)
    b.MeasurementDate = form[fb](y)
    vx = 3 if fa == "integer" else x
    vy = 3 if fb == "integer" else y
    ok = (fa == "two") == (fb == "two")
    call(c, a, b, c.conj(ok, near(c, vx, vy, 5e-8)),
         c.conj(ok, near(c, vx, vy, 2e-7)), "scalars")


def masked(c):
    """Missing values"""
    a = c.sf.Sofa(CONV)
    b = c.must(a.copy).value
    n = c.choice("size", (1, 2, 3))
    v = c.masked("A", (1, n))
    w = c.masked("B", (1, n)) if c.flag("both") else c.array("B", (1, n))
    a.MeasurementDate, b.MeasurementDate = v, w
    conds = []
    for tol in (5e-8, 2e-7):
        each = []
        for i in range(n):
            ma = v.mask[0, i]
            mb = w.mask[0, i] if hasattr(w, "mask") else False
            each.append(c.conj(c.iff(ma, mb), c.disj(ma, near(
                c, v.data[0, i], (w.data if hasattr(w, "mask") else w)[0, i],
                tol))))
        conds.append(c.conj(*each))
    call(c, a, b, conds[0], conds[1], "missing values")


def special(c):
    """Values that are no numbers"""
    a = c.sf.Sofa(CONV)
    b = c.must(a.copy).value
    vals = (float("nan"), float("inf"), -float("inf"), 0.0)
    v = [c.choice(f"a{k}", vals) for k in range(2)]
    w = [c.choice(f"b{k}", vals) for k in range(2)]
    a.MeasurementDate, b.MeasurementDate = v, w
    same = all(x == y or (x != x and y != y) for x, y in zip(v, w))
    call(c, a, b, same, same, "special values")


def texts(c):
    """String variables"""
    a = c.sf.Sofa(CONV)
    b = c.must(a.copy).value
    k = c.choice("key", TEXTS)
    form = c.choice("form", ("arrays", "bytes", "text", "shapes"))
    if form == "text":
        pre = c.choice("prefix", ("", "a" * 25, "b" * 300))
        v, w = pre + c.text("A", (0, 1, 2)), pre + c.text("B", (1, 2))
        if pre:
            if c.flag("array"):
                w = c.np.array([[w]])
                v = c.np.array([[v]]) if c.flag("both") else v
            same = c.same_text(v if isinstance(v, str) else v[0, 0],
                               w if isinstance(w, str) else w[0, 0])
        elif c.flag("array"):
            w = c.texts("C", (1, 1), (0, 1, 2))
            same = c.same_text(v, w[0, 0])
        else:
            same = c.same_text(v, w)
    elif form == "shapes":
        na, nb = c.choice("shapes", (
            ((2, 1), (2,)), ((2, 1), (1, 2)), ((2, 1), (3, 1)),
            ((1, 1), (2, 1)), ((2, 2), (4, 1)), ((1, 2, 1), (2, 1))))
        v, w = c.texts("A", na, (1,)), c.texts("B", nb, (1,))
        sq = [n for n in na if n != 1] == [n for n in nb if n != 1]
        same = sq and c.conj(*[c.same_text(x, y) for x, y in
                               zip(list(v.flatten()), list(w.flatten()))])
    else:
        v = c.texts("A", (2, 1), (0, 1, 2), ((33, 126),))
        w = c.texts("B", (2, 1), (0, 1, 2), ((33, 126),),
                    dtype="S" if form == "bytes" else "U")
        same = c.conj(*[c.same_text(v[i, 0], w.astype("U")[i, 0]
                                    if form == "bytes" else w[i, 0])
                        for i in range(2)])
    a.protected = b.protected = False
    setattr(a, k, v)
    setattr(b, k, w)
    a.protected = b.protected = True
    call(c, a, b, same, same, "texts")


def types(c):
    """Entries of the same name and different types"""
    a, b = c.sf.Sofa(CONV), None
    b = c.must(a.copy).value
    v = c.choice("value", (1.0, "text"))
    ta, tb = (c.choice(n, ("double", "string")) for n in ("type a", "type b"))
    a.add_variable("Foo", "text" if ta == "string" else 1.0, ta,
                   "IS" if ta == "string" else "I")
    b.add_variable("Foo", "text" if tb == "string" else 1.0, tb,
                   "IS" if tb == "string" else "I")
    call(c, a, b, ta == tb, ta == tb, "types")


def conventions(c):
    """Objects of different conventions"""
    names = (("SimpleFreeFieldHRIR", "1.0"), ("SimpleHeadphoneIR", "1.0"),
             ("GeneralTF", "1.0"), ("GeneralTF", "2.0"))
    na, nb = c.choice("a", names), c.choice("b", names)
    a = c.sf.Sofa(na[0], version=na[1])
    b = c.sf.Sofa(nb[0], version=nb[1])
    for k in ("GLOBAL_DateCreated", "GLOBAL_DateModified"):
        setattr(b, k, getattr(a, k))
    exclude = c.choice("exclude", (None, "GLOBAL"))
    same = na == nb or (exclude == "GLOBAL" and na[0] == nb[0])
    call(c, a, b, same, same, "conventions", exclude)


def files(c):
    """An object and the one that is read from its file"""
    a = make(c)
    f = c.path("x.sofa")
    c.must(c.sf.write_sofa, f, a)
    b = c.must(c.sf.read_sofa, f, verbose=False).value
    call(c, a, b, True, True, "file", c.choice("exclude", (None, "DATE")))
    b.Data_IR = b.Data_IR + 1
    call2 = c.must(c.sf.equals, a, b, False)
    c.check(c.implies(c.eq(a.Data_IR, b.Data_IR), call2.value),
            "difference")


def two(c):
    """Two differences, one of them left out"""
    a = make(c)
    b = c.must(a.copy).value
    a.GLOBAL_Title, b.GLOBAL_Title = c.text("A", (1,)), c.text("B", (1,))
    a.SourcePosition_Units = c.text("C", (1,))
    b.SourcePosition_Units = c.text("D", (1,))
    x, y = c.real("x"), c.real("y")
    a.Foo, b.Foo = x, y
    exclude = c.choice("exclude", EXCLUDE)
    t = c.same_text(a.GLOBAL_Title, b.GLOBAL_Title)
    u = c.same_text(a.SourcePosition_Units, b.SourcePosition_Units)
    e = (exclude or "").upper()
    if e in ("GLOBAL", "ATTR"):
        t = True
    if e == "ATTR":
        u = True
    call(c, a, b, c.conj(t, u, near(c, x, y, 5e-8)),
         c.conj(t, u, near(c, x, y, 2e-7)), "two differences", exclude)


def cases(tier):
    out = [Case("long_texts", long_texts), Case("large", large), Case("copies", copies), Case("one_global", one_key("global")),
           Case("one_other", one_key("other")), Case("missing", missing),
           Case("order", order),
           Case("names", names), Case("bad_exclude", bad_exclude),
           Case("scalars", scalars), Case("masked", masked),
           Case("special", special),
           Case("texts", texts), Case("types", types),
           Case("conventions", conventions), Case("files", files),
           Case("two", two)]
    for na, nb in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 1), (3, 3)):
        if tier == "thorough" or na + nb < 5:
            out.append(Case(f"shapes_{na}{nb}", shapes(na, nb)))
    return out
