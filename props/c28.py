"""C28: verification when reading, outdated versions when writing."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, ALPHA
from props.common import *
from props.c18 import version, install

ASSUMPTIONS = [
    "the convention and version of the file exist, versions are decimal "
    "numbers with one digit after the point and without leading zeros",
    "verification with mode='read' finds what it should (C04 to C10); here "
    "it is compared to reading, and to violations known by construction",
]

CONV = "Ab"
VERSIONS = ("0.4", "0.9", "1.0", "1.1", "10.0")
ALIASES = {"m": "m", "k": "m"}


def tables(c, deprecated=False):
    out = {}
    for v in VERSIONS:
        out[f"{CONV}_{v}"] = (deprecated, {
            **fixture.head(CONV, v, "FIR"), **fixture.geometry(),
            **fixture.fir(), "A": fixture.dbl([[1, 1, 1]], "IC, MC", None),
            "A:Units": fixture.attr("m", None),
            "B": fixture.dbl([[1, 1, 1]], "IC, MC", None)})
    c.write_conventions(conv=out, aliases=ALIASES, rule={
        "A:Units": {"value": ["m"]},
        "GLOBAL:RoomType": {"value": ["free field", "shoebox"]}},
        depr={"GLOBAL:SOFAConventions": {CONV: "Other"} if deprecated
              else {}})


PROBLEMS = ("none", "units", "room", "missing", "missing attribute", "shape",
            "number", "orphan", "name")


def make_file(c, what):
    """File of any version, and whether its content is invalid"""
    v = c.choice("version", VERSIONS)
    tables(c, c.flag("deprecated"))
    sofa = c.sf.Sofa(CONV, version=v, verify=False)
    M = c.size("M")
    sofa.Data_IR = c.array("IR", (M, 2, c.size("N")))
    if what == "shape":
        sofa.delete("B")
    path = c.path("a.sofa")
    c.must(c.mod("io")._write_sofa, path, verified(c, sofa), 4, False)
    bad = False
    ds = c.nc.Dataset(path, "a")
    if what == "units":
        u = c.text("units", (0, 1), ALPHA)
        ds["A"].setncattr("Units", u)
        bad = c.neg(c.disj(*[c.same_text(u, x) for x in "mkMK"]))
    elif what == "room":
        x = c.text("room", (7,), ALPHA)
        ds.setncattr("RoomType", x)
        bad = c.neg(c.same_text(x.lower(), "shoebox"))
    elif what == "missing attribute":
        ds.delncattr("RoomType")
        bad = True
    elif what == "shape":
        d = c.choice("dimensions", ("IC", "MC", "RC", "MR"))
        ds.createVariable("B", "f8", tuple(d))[:] = 0.0
        bad = d == "MR" or d == "RC" and c.neg(c.eq(M, 2))
    elif what == "number":
        ds.setncattr("Title", 1)
        bad = True
    elif what == "orphan":
        ds["A"].setncattr("Foo_Bar", "text")
        bad = True
    elif what == "name":
        ds.createVariable("Foo_Bar", "f8", ("I", "C"))[:] = 0.0
        bad = True
    ds.close()
    if what == "missing":
        # (variables can not be removed from files)
        sofa.protected = False
        del sofa.ListenerPosition, sofa.ListenerPosition_Type
        del sofa.ListenerPosition_Units
        sofa.protected = True
        c.must(c.mod("io")._write_sofa, path, sofa, 4, False)
        bad = True
    return path, v, bad


def verified(c, sofa):
    """Sizes of the dimensions are known after verification"""
    sofa.verify(issue_handling="ignore", mode="read")
    return sofa


def reading(what):
    def run(c):
        path, v, bad = make_file(c, what)
        how = c.choice("verify", ("default", "auto", True, False))
        raw = c.must(c.sf.read_sofa, path, verify=False, verbose=False,
                     msg="reading without verification")
        kw = {} if how == "default" else {"verify": how}
        o = c.attempt(c.sf.read_sofa, path, verbose=False, **kw)
        wanted = float(v) >= 1.0 if how in ("default", "auto") else how
        # (verified the same way by hand)
        s = raw.value.copy()
        o2 = c.attempt(s.verify, mode="read")
        c.check(o2.ok or o2.raised(ValueError), "verification")
        if bad is not None:
            c.check(c.iff(bad, not o2.ok),
                    f"{what}: verification differs from what is expected")
        c.check(o.ok or o.raised(ValueError),
                f"other error ({o.kind}: {c.plain(o.message)[:200]})")
        c.check(o.ok == (not wanted or o2.ok),
                "read although verification fails" if o.ok else
                "not read although verification was not requested or is "
                "passed")
        c.reach(f"read {o.ok}")
        if o.ok:
            check_same(c, entries(raw.value), entries(o.value),
                       "verification when reading")
            c.check(o.value.protected, "not protected")
            if wanted:
                for d in "MRNE":
                    c.check(c.eq(o.value._api[d], s._api[d]),
                            f"dimension {d} is not updated")
        # positional arguments
        if how in (True, False):
            o3 = c.attempt(c.sf.read_sofa, path, how, False)
            c.check(o3.ok == o.ok, "positional argument")
    run.__doc__ = (f"Files with problem '{what}', all versions, ways of "
                   "requesting verification, and sizes")
    return run


def outdated(c):
    """A warning if and only if there is a higher version of the convention
    to be written (symbolic versions)"""
    v = [version(c, f"{k}", (1, 2) if k < 2 else (1,)) for k in range(3)]
    names = [(HRIR, v[0]), (HRIR, v[1]),
             (c.choice("other", (HRIR, HRIR + "x", "A")), v[2])]
    install(c, [(n, x, k == 2 and c.flag("deprecated"))
                for k, (n, x) in enumerate(names)],
            c.choice("order", (None, "reversed")))
    o = c.attempt(c.sf.Sofa, HRIR, version=v[0], verify=False)
    c.check(o.ok, f"not made ({c.plain(o.message)[:200]})")
    sofa = o.value
    before = snapshot(c, sofa)
    if c.flag("written before"):
        c.must(c.sf.write_sofa, c.path("a.sofa"), sofa)
    o = c.attempt(c.sf.write_sofa, c.path("a.sofa"), sofa)
    c.check(o.ok, f"not written ({o.kind}: {c.plain(o.message)[:200]})")
    newer = c.disj(*[float(x) > float(v[0])
                     for n, x in names[1:] if n == HRIR])
    txt = [x for x in c.plain(o.warned) if "outdated" in x.lower()] \
        if isinstance(c.plain(o.warned), list) else \
        (["x"] if "outdated" in str(c.plain(o.warned)).lower() else [])
    c.check(c.iff(bool(txt), newer), "warning without reason" if txt else
            "no warning about a newer version")
    check_same(c, before, entries(sofa), "write_sofa")
    view = c.file_view(c.path("a.sofa"))
    c.check(c.same_text(view.attrs["SOFAConventionsVersion"], v[0]),
            "version in the file")
    c.reach("outdated" if txt else "latest")


def same_file(c):
    """What is written does not depend on newer versions"""
    f, g = c.path("a.sofa"), c.path("b.sofa")
    v = c.choice("version", ("1.0", "1.1"))
    conv = {}
    for x in ("1.0", "1.1"):
        conv[f"{CONV}_{x}"] = (False, {
            **fixture.head(CONV, x, "FIR"), **fixture.geometry(),
            **fixture.fir(),
            **({"New": fixture.dbl(1, "I", "m")} if x == "1.1" else {})})
    kw = {"rule": {}, "depr": {"GLOBAL:SOFAConventions": {}}}
    c.write_conventions(conv={f"{CONV}_{v}": conv[f"{CONV}_{v}"]}, **kw)
    sofa = c.sf.Sofa(CONV, version=v)
    sofa.Data_IR = c.array("IR", (c.size("M"), 2, c.size("N")))
    sofa.GLOBAL_Title = c.text("title", (0, 2), ASCII)
    protected = not c.flag("unprotected")
    sofa.protected = protected
    o = c.must(c.sf.write_sofa, f, sofa)
    c.check("outdated" not in str(c.plain(o.warned)).lower(),
            "the only version is outdated")
    c.write_conventions(conv=conv, **kw)
    sofa.protected = protected
    o = c.must(c.sf.write_sofa, g, sofa)
    c.check(("outdated" in str(c.plain(o.warned)).lower()) == (v == "1.0"),
            "warning")
    a, b = c.file_view(f), c.file_view(g)
    c.check(a.dims == b.dims or sorted(a.dims) == sorted(b.dims),
            "dimensions")
    c.check(sorted(a.attrs) == sorted(b.attrs) and c.conj(
        *[c.eq(a.attrs[k], b.attrs[k]) for k in a.attrs]), "attributes")
    c.check(sorted(a.vars) == sorted(b.vars), "variables")
    x, y = (c.must(c.sf.read_sofa, p, verbose=False).value for p in (f, g))
    check_same(c, entries(x), entries(y), "newer versions")


def cases(tier):
    return [Case("read_" + x.replace(" ", "_"), reading(x))
            for x in PROBLEMS] + [
        Case("outdated", outdated), Case("same_file", same_file)]
