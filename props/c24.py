"""C24: new objects."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, IDENT, ALNUM, ALPHA
from props.common import *
from props.c15 import table, default_eq, is_mandatory

ASSUMPTIONS = [
    "versions are numbers with one or two digits before and one digit after "
    "the point",
    "tables contain the entries all conventions have in common",
]

DIGIT = ((48, 57),)
NAMES = tuple(k for k in fixture.TABLES)
FIELDS = ("GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
          "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
          "GLOBAL_ApplicationVersion")


def convert(t):
    return {k.replace(":", "_").replace(".", "_"): v for k, v in t.items()}


def depth(x):
    n = 0
    while isinstance(x, list):
        n, x = n + 1, x[0]
    return n


def check_value(c, got, want, dims, what):
    default_eq(c, got, want, what, False)
    if not isinstance(want, list):
        return
    flat = c.np.array(want).flatten()
    if len(flat) > 1:
        # one axis for each dimension
        n = max(len(dims.split(", ")[0]), depth(want))
        c.check(ndim(got) == n, f"{what}: {ndim(got)} dimensions, not {n}")
        shape = tuple(c.np.array(want).shape)
        if len(shape) == 1 and n > 1:
            shape = (1,) + shape        # one value for each receiver or axis
        c.check(tuple(got.shape) == shape + (1,) * (n - len(shape)),
                f"{what}: shape")


def check_fields(c, sofa):
    c.check(sofa.GLOBAL_APIName.startswith("sofar"), "APIName")
    c.check(sofa.GLOBAL_APIVersion == c.sf.version(), "APIVersion")
    c.check(sofa.GLOBAL_ApplicationName == "Python", "ApplicationName")
    c.check(len(sofa.GLOBAL_ApplicationVersion) > 5, "ApplicationVersion")
    for k in FIELDS[:2]:
        d = sofa.__dict__[k]
        c.check(isinstance(d, str) and len(d) == 19 and
                [d[i] for i in (4, 7, 10, 13, 16)] ==
                ["-", "-", " ", ":", ":"], f"{k}: format")
    c.check(sofa.GLOBAL_DateCreated == sofa.GLOBAL_DateModified,
            "dates differ")


def check_new(c, sofa, t, mandatory, skip=()):
    """sofa is a new object of the table t"""
    want = [k for k in t if is_mandatory(t[k]) or not mandatory]
    got = entries(sofa)
    for k in got:
        c.check(k in want or k in FIELDS, f"{k} is not expected")
    for k in want:
        c.check(k in got, f"{k} is missing")
        if k not in FIELDS and k not in skip:
            check_value(c, got[k], t[k]["default"], t[k]["dimensions"], k)
    check_fields(c, sofa)
    c.check(sofa.protected is True, "not protected")
    c.check(len(getattr(sofa, "_custom", {})) == 0, "custom entries")
    c.check(list(sofa._convention) == list(t), "known entries")


def protection(c, sofa, t):
    """The flags of the table are those of the object"""
    for k in t:
        if k not in entries(sofa):
            continue
        flags = t[k]["flags"] or ""
        v = sofa.__dict__[k]
        o = c.attempt(setattr, sofa, k, v)
        c.check(o.raised(TypeError) == ("r" in flags), f"{k}: read only")
        o = c.attempt(delattr, sofa, k)
        c.check(o.raised(TypeError) == ("m" in flags), f"{k}: mandatory")
    o = c.attempt(setattr, sofa, "GLOBAL_Unknown", "x")
    c.check(o.raised(TypeError), "unknown names can be set")


def create(c, name, version, mandatory, verify):
    """All the ways to write the same thing"""
    how = c.choice("how", ("names", "positions", "few"))
    if how == "names":
        return c.attempt(c.sf.Sofa, convention=name, mandatory=mandatory,
                         version=version, verify=verify)
    if how == "positions":
        return c.attempt(c.sf.Sofa, name, mandatory, version, verify)
    kw = {}
    if mandatory:
        kw["mandatory"] = True
    if verify != "auto":
        kw["verify"] = verify
    if version != "latest":
        kw["version"] = version
    return c.attempt(c.sf.Sofa, name, **kw)


def fixtures(c):
    """Every convention, every combination of arguments"""
    key = c.choice("convention", NAMES)
    name, version = key.rsplit("_", 1)
    t = table(key)
    mandatory = c.flag("mandatory")
    verify = c.choice("verify", ("auto", True, False))
    o = create(c, name, version, mandatory, verify)
    c.check(o.ok, f"{key}: {o.kind}")
    check_new(c, o.value, t, mandatory)
    c.check(bool(o.warned) or float(version) >= 1.0, "no warning")
    if float(version) < 1.0:
        c.check("preliminary" in c.plain(o.warned),
                "no warning for preliminary versions")
    elif fixture.TABLES[key][0] is False:
        c.check(not o.warned, "warning")
    c.check(not c.plain(o.text), "something is printed")
    protection(c, o.value, t)
    c.reach("mandatory" if mandatory else "all")


FLAGS = ((109, 109), (114, 114))


def base(name="Ab", version="1.0", room="free field"):
    return {**fixture.head(name, version, "FIR", room=room),
            **fixture.geometry(), **fixture.fir()}


def flags_texts(c):
    """Symbolic flags and texts of attributes"""
    t = base()
    for k in range(2):
        t[f"GLOBAL:New{k}"] = fixture.attr(
            c.text(f"default {k}", (0, 1, 3)),
            None if c.flag(f"no flags {k}") else
            c.text(f"flags {k}", (0, 1, 2), FLAGS))
    c.write_conventions(conv={"Ab_1.0": (c.flag("deprecated"), t)})
    mandatory = c.flag("mandatory")
    o = c.must(c.sf.Sofa, "Ab", mandatory=mandatory, verify=False)
    t = convert(t)
    check_new(c, o.value, t, mandatory)
    for k in range(2):
        key = f"GLOBAL_New{k}"
        if key in entries(o.value):
            o2 = c.attempt(setattr, o.value, key, "x")
            c.check(o2.raised(TypeError) == ("r" in (t[key]["flags"] or "")),
                    f"{key}: read only")
    c.reach("mandatory" if mandatory else "all")


def numbers(c):
    """Symbolic numbers: scalars, lists and nested lists"""
    t = base()
    t["GLOBAL:RoomType"] = fixture.attr(c.text("room", (1,)), "m")
    for k in range(2):
        kind = c.choice(f"kind {k}", (
            "number", "integer", "one", "list", "two", "row", "column",
            "matrix", "cube", "none dims") if k == 0 else
            ("number", "list", "matrix"))
        x = [c.real(f"x{k}{i}") for i in range(6)]
        value, dims = {
            "number": (x[0], "I"), "integer": (c.int(f"i{k}", -9, 9), "I, M"),
            "one": ([x[0]], "IC, MC"), "list": (x[:3], "IC, MC"),
            "two": (x[:2], "mRn"), "row": ([x[:3]], "MC, IC"),
            "column": ([[x[0]], [x[1]]], "mRn, mRN"),
            "matrix": ([x[:3], x[3:]], "rCI, rCM"),
            "cube": ([[[x[0], x[1], x[2]], x[3:]]], "MRn"),
            "none dims": (x[:2], "N"),
        }[kind]
        t[f"New{k}"] = fixture.dbl(value, dims, c.choice(
            f"flags {k}", (None, "m", "r")))
    c.write_conventions(conv={"Ab_1.0": (False, t)})
    mandatory = c.flag("mandatory")
    o = c.must(c.sf.Sofa, "Ab", mandatory=mandatory, verify=False)
    check_new(c, o.value, convert(t), mandatory)
    c.check(not o.warned, "warning")


def strings(c):
    """String variables"""
    t = base()
    kind = c.choice("kind", ("text", "list", "two"))
    a, b = c.text("a", (0, 2)), c.text("b", (1,))
    t["New"] = fixture.strg({"text": a, "list": [a], "two": [a, b]}[kind],
                            "MS", c.choice("flags", (None, "m")))
    c.write_conventions(conv={"Ab_1.0": (False, t)})
    mandatory = c.flag("mandatory")
    o = c.must(c.sf.Sofa, "Ab", mandatory=mandatory, verify=False)
    check_new(c, o.value, convert(t), mandatory, ("New",))
    if "New" in entries(o.value):
        got = o.value.New
        flat = list(got.flatten()) if ndim(got) else [got]
        want = [a, b] if kind == "two" else [a]
        c.check(len(flat) == len(want) and c.conj(
            *[c.same_text(str(g), w) for g, w in zip(flat, want)]),
            "texts")


def names(c):
    """Symbolic names of entries"""
    t = base()
    kind = c.choice("kind", ("GLOBAL:", "", "SourcePosition:", "Data."))
    n = c.text("name", (1, 3), ALPHA)
    for k in t:
        if k.startswith(kind) and len(k) == len(kind + n):
            c.assume(c.neg(c.same_text(k, kind + n)))
    if kind == "":
        for k in dir(c.sf.Sofa):
            if len(k) == len(n):
                c.assume(c.neg(c.same_text(k, n)))
    value = c.real("value")
    if kind in ("", "Data."):
        t[kind + n] = fixture.dbl(value, "I", "m")
    else:
        value = c.text("text", (2,))
        t[kind + n] = fixture.attr(value, "m")
    c.write_conventions(conv={"Ab_1.0": (False, t)})
    o = c.must(c.sf.Sofa, "Ab", mandatory=c.flag("mandatory"), verify=False)
    got = [k for k in entries(o.value) if k not in convert(base())]
    c.check(len(got) == 1, "number of new entries")
    c.check(c.same_text(got[0], kind.replace(":", "_").replace(".", "_") + n),
            "name of the entry")
    v = o.value.__dict__[got[0]]
    c.check(c.same_text(v, value) if isinstance(value, str)
            else c.eq(v, value), "default")


def versions(c):
    """Symbolic version; verification by default"""
    n = c.choice("digits", (1, 2))
    v = c.text("major", (n,), DIGIT,
               first=((49, 57),) if n > 1 else None) + "." + \
        c.text("minor", (1,), DIGIT)
    preliminary = n == 1 and v[0] == "0"
    # invalid default: detected if and only if the object is verified
    bad = c.choice("default", ("valid", "error", "warning"))
    t = base("Ab", v, "invalid" if bad == "error" else "free field")
    depr = fixture.deprecations()
    if bad == "warning":
        depr["GLOBAL:SOFAConventions"]["Ab"] = "GeneralTF"
    rule = fixture.rules()
    rule["GLOBAL:SOFAConventions"]["value"].append("Ab")
    c.write_conventions(conv={"Ab_" + v: (False, t)}, rule=rule, depr=depr)
    mandatory = c.flag("mandatory")
    verify = c.choice("verify", ("auto", True, False))
    o = create(c, "Ab", c.choice("version", ("latest", v)), mandatory, verify)
    verified = not mandatory and (
        verify is True or verify == "auto" and not preliminary)
    if verified and bad == "error":
        c.check(o.raised(ValueError), "not verified")
        c.reach("error")
        return
    c.check(o.ok, f"{o.kind}: {'' if o.ok else c.plain(o.message)[:200]}")
    check_new(c, o.value, convert(t), mandatory)
    pre = "preliminary" in c.plain(o.warned)
    c.check(pre == preliminary, f"warning about preliminary versions {pre}")
    if bad == "warning" and verified:
        c.check("deprecated" in c.plain(o.warned), "no warning")
    if not preliminary and not (bad == "warning" and verified):
        c.check(not o.warned, "warning")
    c.reach("warning" if pre else "no warning")


def several(c):
    """Objects of several conventions at the same time"""
    a = c.choice("first", ("SimpleFreeFieldHRIR", "GeneralTF",
                           "SingleRoomMIMOSRIR"))
    t1, t2 = table(a + ("_2.0" if a == "GeneralTF" else "_1.0")), None
    c.write_conventions(conv={
        **fixture.TABLES, "Ab_1.0": (False, {
            **base(), "GLOBAL:Title": fixture.attr(
                c.text("title", (1,)), "r"),
            "GLOBAL:AuthorContact": fixture.attr("y", None),
            "ListenerPosition": fixture.dbl([c.real("x"), 1, 2], "IC, MC",
                                            "rm")})})
    x = c.must(c.sf.Sofa, a).value
    y = c.must(c.sf.Sofa, "Ab", verify=False).value
    z = c.must(c.sf.Sofa, a, mandatory=True).value if c.flag("third") \
        else None
    check_new(c, x, t1, False)
    c.check(c.attempt(setattr, y, "GLOBAL_Title", "x").raised(TypeError),
            "read only in its table")
    c.check(c.attempt(delattr, y, "GLOBAL_AuthorContact").ok,
            "optional in its table")
    c.check(c.attempt(setattr, y, "ListenerPosition", [1, 2, 3]
                      ).raised(TypeError), "read only in its table")
    protection(c, x, t1)
    if z is not None:
        check_new(c, z, t1, True)
        protection(c, z, t1)


def reject(c):
    """Wrong arguments"""
    what = c.choice("what", ("unknown", "unknown version", "number",
                             "list", "array"))
    if what == "unknown":
        n = c.text("name", (0, 1, 5), ASCII)
        o = c.attempt(c.sf.Sofa, n, c.flag("mandatory"))
        c.check(o.raised(ValueError), o.kind)
    elif what == "unknown version":
        v = c.text("version", (0, 1, 3), ASCII)
        c.assume(c.neg(c.disj(*[len(v) == len(w) and c.same_text(v, w)
                                for w in ("1.0", "0.4")])))
        o = c.attempt(c.sf.Sofa, HRIR, version=v)
        c.check(o.raised(ValueError), o.kind)
    else:
        o = c.attempt(c.sf.Sofa, {"number": 1, "list": [HRIR],
                                  "array": c.np.array([1.0])}[what])
        c.check(o.raised(TypeError), o.kind)


@also_after("fixtures")
def cases(tier):
    return [Case(f.__name__, f) for f in (
        fixtures, flags_texts, numbers, strings, names, versions, several,
        reject)]
