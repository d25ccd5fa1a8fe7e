"""C22: copies."""
import copy
from sx import fixture
from sx.run import Case
from sx.env import ASCII, ALPHA
from props.common import *
from props.c12 import CONV

ASSUMPTIONS = [
    "names of entries are those of the fixture conventions and of three "
    "custom entries; sequences of up to two (thorough: three) modifications",
    "arrays are 64 bit floats and unicode texts",
]


def deep(c, v):
    if hasattr(v, "shape"):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [deep(c, x) for x in v]
    if isinstance(v, dict):
        return {k: deep(c, x) for k, x in v.items()}
    return v


def same(c, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and c.conj(
            *[same(c, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and c.conj(
            *[same(c, a[k], b[k]) for k in a])
    if a is None or b is None:
        return a is b
    return c.eq(a, b)


def look(c, sofa):
    """Everything that can be seen of an object"""
    return {"entries": {k: deep(c, v) for k, v in entries(sofa).items()},
            "custom": deep(c, getattr(sofa, "_custom", {})),
            "convention": deep(c, sofa._convention),
            "protected": sofa.protected}


DATES = ("GLOBAL_DateCreated", "GLOBAL_DateModified")


def check_look(c, want, sofa, msg, skip=()):
    got = look(c, sofa)
    c.check(got["protected"] is want["protected"], f"{msg}: protection")
    for what in ("entries", "custom", "convention"):
        a, b = want[what], got[what]
        c.check(sorted(a) == sorted(b), f"{msg}: names ({what})")
        for k in a:
            if k not in skip:
                c.check(same(c, a[k], b[k]), f"{msg}: {k} ({what})")


def make(c, M=None, N=None):
    """Object with data of all kinds"""
    sofa = c.sf.Sofa(CONV)
    M = c.size("M") if M is None else M
    N = c.size("N") if N is None else N
    sofa.Data_IR = c.array("IR", (M, 2, N))
    sofa.Data_Delay = [[c.real("d0"), c.real("d1")]]
    sofa.ListenerPosition = [c.real("x"), 0., 1.]
    sofa.GLOBAL_Title = c.text("title", (0, 2))
    sofa.add_variable("Foo", c.array("Foo", (1, 2)), "double", "IP")
    sofa.add_attribute("Foo_Units", "metre")
    sofa.add_variable("Words", c.np.array(["a", "bc"]), "string", "PS")
    return sofa


def put(c, x, where, value):
    """Change one element inside of a nested list or array"""
    if hasattr(x, "shape"):
        x[tuple(0 for _ in x.shape)] = value
    elif isinstance(x[0], list) or hasattr(x[0], "shape"):
        put(c, x[0], where, value)
    else:
        x[0] = value


OTHER = -77.25
ACTIONS = ("array", "scale", "list", "nested", "replace", "text", "string",
           "custom array", "custom new", "custom attribute", "custom delete",
           "delete", "protect", "meta", "upgrade", "missing", "verify",
           "slice", "default")


def act(c, sofa, what, tag):
    x = c.real("value " + tag)
    if what == "array":
        sofa.Data_IR[0, 1, 0] = x
    elif what == "slice":
        sofa.Data_IR[0] = x
    elif what == "scale":
        sofa.Data_IR *= 2.0
    elif what == "list":
        put(c, sofa.ListenerPosition, 0, x)
    elif what == "nested":
        put(c, sofa.Data_Delay, 0, x)
    elif what == "default":
        # data that have never been set
        put(c, sofa.ReceiverPosition, 0, OTHER)
        if "SourceUp" in sofa.__dict__:
            put(c, sofa.SourceUp, 0, OTHER)
    elif what == "replace":
        sofa.SourcePosition = c.array("source " + tag, (1, 3))
    elif what == "text":
        sofa.GLOBAL_Title = c.text("title " + tag, (1,))
    elif what == "string":
        if "Words" in sofa.__dict__:
            sofa.Words[0] = "x"
    elif what == "custom array":
        if "Foo" in sofa.__dict__:
            put(c, sofa.Foo, 0, x)
    elif what == "custom new":
        c.attempt(sofa.add_variable, "New" + tag, 1.0, "double", "I")
    elif what == "custom attribute":
        c.attempt(sofa.add_attribute, "GLOBAL_New" + tag, "text")
    elif what == "custom delete":
        c.attempt(sofa.delete, "Words")
    elif what == "delete":
        c.attempt(sofa.delete, "SourceUp")
    elif what == "protect":
        sofa.protected = not sofa.protected
    elif what == "meta":
        if "Foo" in sofa._custom:
            sofa._custom["Foo"]["dimensions"] = "XY"
    elif what == "upgrade":
        c.attempt(sofa.upgrade_convention)
    elif what == "missing":
        c.attempt(sofa.add_missing)
    elif what == "verify":
        c.attempt(sofa.verify, issue_handling="return")


def copies(c):
    """The copy equals the original"""
    sofa = make(c)
    state = c.choice("state", ("plain", "verified", "deleted", "unprotected",
                               "masked", "invalid", "no custom", "added"))
    if state == "verified":
        c.attempt(sofa.verify, issue_handling="return")
    elif state == "deleted":
        sofa.delete("SourceUp")
        sofa.delete("Words")
    elif state == "unprotected":
        sofa.protected = False
        del sofa.Data_IR
        sofa.GLOBAL_DataType = "FIR-E"
    elif state == "masked":
        sofa.Data_IR = c.masked("masked", (c.size("K"), 2, 2))
    elif state == "invalid":
        sofa.Data_IR = "text"
        sofa.GLOBAL_Title = 1.0
    elif state == "no custom":
        for k in ("Foo_Units", "Foo", "Words"):
            sofa.delete(k)
    elif state == "added":
        sofa.delete("SourceUp")
        sofa.add_missing(verbose=False)
    before = look(c, sofa)
    cp = c.must(sofa.copy).value
    c.check(type(cp) is c.sf.Sofa and cp is not sofa, "no copy")
    check_look(c, before, cp, "copy")
    check_look(c, before, sofa, "original after copying")
    for k, v in entries(sofa).items():
        if isinstance(v, list) or ndim(v) > 0:
            c.check(cp.__dict__[k] is not v, f"{k} is shared")
        c.check(isinstance(cp.__dict__[k], list) == isinstance(v, list) and
                c.np.ma.isMaskedArray(cp.__dict__[k]) ==
                c.np.ma.isMaskedArray(v), f"type of {k}")
    cc = c.must(cp.copy).value
    check_look(c, before, cc, "copy of the copy")
    c.reach("end")


def independent(c):
    """Modifications of one object are not visible in the other"""
    pair = make(c)
    pair = [pair, c.must(pair.copy).value]
    if c.flag("reverse"):
        pair = pair[::-1]
    n = 2
    for k in range(n):
        i = 0 if k == 0 else c.choice(f"object {k}", (0, 1))
        before = look(c, pair[1 - i])
        what = c.choice(f"action {k}", ACTIONS)
        act(c, pair[i], what, str(k))
        check_look(c, before, pair[1 - i], f"after '{what}'")
    c.reach("end")


def visible(c):
    """Modifications are there in the object that was modified"""
    sofa = make(c)
    cp = sofa.copy()
    x = c.real("new")
    cp.Data_IR[0, 1, 0] = x
    cp.GLOBAL_Title = "new"
    put(c, cp.ListenerPosition, 0, x)
    c.check(c.eq(cp.Data_IR[0, 1, 0], x), "array was not modified")
    c.check(cp.GLOBAL_Title == "new", "text was not modified")
    cp.add_attribute("GLOBAL_New", "text")
    c.check("GLOBAL_New" not in sofa._custom and
            "GLOBAL_New" in cp._custom, "custom entries")
    o = c.attempt(setattr, sofa, "GLOBAL_New", "x")
    c.check(o.raised(TypeError), "custom entries of the copy are allowed in "
            "the original")
    c.must(setattr, cp, "GLOBAL_New", "x")
    cp.delete("GLOBAL_New")
    c.must(sofa.add_attribute, "GLOBAL_New", "y")


def source(c):
    """Data of the user that is changed after copying"""
    sofa = c.sf.Sofa(CONV)
    ir = c.array("IR", (c.size("M"), 2, c.size("N")))
    pos = [c.real("x"), 0., 1.]
    foo = c.array("Foo", (1, 2))
    sofa.Data_IR = ir
    sofa.ListenerPosition = pos
    sofa.add_variable("Foo", foo, "double", "IP")
    if c.flag("verified"):
        c.attempt(sofa.verify, issue_handling="return")
    before = look(c, sofa)
    cp = c.must(sofa.copy).value
    ir[0, 0, 0] = c.real("new")
    pos[0] = c.real("new pos")
    foo[0, 1] = c.real("new foo")
    check_look(c, before, cp, "copy after changes of the data it was made "
               "from")


def pairs(c):
    """Objects created independently"""
    how = c.choice("created by", ("convention", "mandatory", "read",
                                  "netcdf", "missing", "upgrade"))
    name, ver = c.choice("convention", (
        (CONV, "1.0"), ("GeneralTF", "2.0"), ("SimpleFreeFieldHRSOS", "1.0"),
        ("SimpleHeadphoneIR", "1.0")))
    path = c.path("a.sofa")
    if how in ("read", "netcdf"):
        c.must(c.sf.write_sofa, path, c.sf.Sofa(name, version=ver))

    def new():
        if how == "convention":
            return c.sf.Sofa(name, version=ver, verify=c.choice(
                "verify", (True, False)) if len(made) == 0 else True)
        if how == "mandatory":
            return c.sf.Sofa(name, mandatory=True, version=ver)
        if how == "read":
            return c.sf.read_sofa(path, verbose=False)
        if how == "netcdf":
            return c.sf.read_sofa_as_netcdf(path)
        if how == "upgrade":
            s = c.sf.Sofa("SimpleFreeFieldHRIR", version="0.4", verify=False)
            c.attempt(s.upgrade_convention, "SimpleFreeFieldHRIR_1.0")
            return s
        s = c.sf.Sofa(name, mandatory=True, version=ver)
        c.must(s.add_missing, verbose=False)
        return s
    made = []
    made.append(c.must(new).value)
    made.append(c.must(new).value)
    before = look(c, made[1])
    c.reach(how + name)
    vals = [(k, v) for k, v in entries(made[0]).items()
            if hasattr(v, "shape") or isinstance(v, list)]
    c.check(len(vals) > 2, "data")
    for k, v in vals:
        if hasattr(v, "shape") and (
                len(v.shape) == 0 or
                how in ("read", "netcdf") and v.dtype.kind in "US"):
            continue
        put(c, v, 0, "x" if hasattr(v, "shape") and v.dtype.kind in "US"
            else OTHER)
    made[0].protected = False
    if how != "netcdf":
        made[0].add_attribute("GLOBAL_New", "text")
        for k in made[0]._convention:
            made[0]._convention[k]["flags"] = "x"
    check_look(c, before, made[1], "other object")
    made.append(c.must(new).value)
    check_look(c, before, made[2], "object created later", DATES)
    c.reach(how)


def cases(tier):
    return [Case(f.__name__, f) for f in (copies, independent, visible,
                                          source, pairs)]
