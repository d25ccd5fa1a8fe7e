"""C10: write mode against read mode."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII
from props.common import *

ASSUMPTIONS = [
    "Units attributes are those named Units; letters are ASCII",
    "versions are decimal numbers like '1.0'",
]

CONV = "SimpleFreeFieldHRIR"
ALIASES = {"m": "m", "k": "m", "d": "d"}


def tables(names, extra=None):
    out = {}
    for name, version, dep in names:
        t = {**fixture.head(name, version, "FIR"), **fixture.geometry(),
             **fixture.fir(),
             "A": fixture.dbl(1, "I", None),
             "A:Units": fixture.attr("m", None),
             "A:Type": fixture.attr("t", None)}
        t.update(extra or {})
        out[f"{name}_{version}"] = (dep, t)
    return out


def has_upper(c, v):
    return c.neg(c.same_text(v, v.lower()))


def both(c, sofa, upper, deprecated, early, invalid=None):
    """Verify in both modes and compare with what is documented.

    upper: a Units attribute has upper case letters, early: version below 1
    invalid: violates the rules for reading (None: unknown)
    """
    seen = {}
    before = snapshot(c, sofa)
    for mode in ("read", "write"):
        s = sofa.copy()
        o = c.must(s.verify, issue_handling="return", mode=mode)
        txt = "" if o.value is None else c.plain(o.value)
        err, warn = "ERRORS" in txt, "WARNINGS" in txt
        seen[mode] = err
        c.check(c.iff("which is deprecated" in txt, deprecated),
                f"deprecation in {mode} mode")
        c.check(c.iff("preliminary" in txt, early),
                f"preliminary version in {mode} mode")
        c.check(c.iff(warn, c.disj(early, c.conj(deprecated,
                                                 mode == "read"))),
                f"warnings in {mode} mode: {txt}")
        # the other ways of handling issues agree
        o = c.attempt(sofa.copy().verify, mode=mode)
        c.check(o.raised(ValueError) == err and (o.ok or err),
                f"raising errors in {mode} mode")
        c.check(bool(o.warned) == warn, f"giving warnings in {mode} mode")
        # a second time
        o = c.must(s.verify, issue_handling="return", mode=mode)
        c.check(("" if o.value is None else c.plain(o.value)) == txt,
                f"issues of the second verification in {mode} mode")
        if invalid is not None and mode == "read":
            c.check(c.iff(err, invalid), "read mode rejects the object"
                    if err else "read mode accepts the object")
    c.check(not (seen["read"] and not seen["write"]),
            "accepted for writing but not for reading")
    c.check(c.iff(seen["write"], c.disj(seen["read"], upper, deprecated)),
            "rejected for writing without reason" if seen["write"] else
            "accepted for writing despite upper case units or deprecation")
    # the default is the write mode
    o = c.must(sofa.copy().verify, issue_handling="return")
    txt = "" if o.value is None else c.plain(o.value)
    c.check(("ERRORS" in txt) == seen["write"], "default mode")
    check_same(c, before, entries(sofa), "verify")
    c.reach(f"read {not seen['read']} write {not seen['write']}")
    return seen


def deprecated_names(c, name, how):
    return {"this": {name: "Other"}, "other": {"Other": name},
            "none": {}, "both": {"X": "Y", name: "Other"},
            "longer": {name + "X": "Other", name[:-1]: "Other"}}[how]


def units(c):
    """Symbolic unit and type"""
    how = c.choice("deprecated", ("none", "this", "other"))
    c.write_conventions(
        conv=tables([(CONV, "1.0", how == "this")]), aliases=ALIASES,
        depr={"GLOBAL:SOFAConventions": deprecated_names(c, CONV, how)},
        rule={"A:Units": {"value": ["m"]}, "A:Type": {"value": ["t", "u"]}})
    sofa = c.sf.Sofa(CONV, verify=False)
    c.know("m", "k", "d", "t", "u")
    u, t = c.text("units", (1, 2)), c.text("type", (1,))
    sofa.A_Units, sofa.A_Type = u, t
    low = u.lower()
    bad = c.disj(
        c.neg(c.disj(*[c.same_text(low, x) for x in ("m", "k")])),
        c.neg(c.disj(*[c.same_text(t.lower(), x) for x in ("t", "u")])))
    both(c, sofa, has_upper(c, u), how == "this", False, bad)


def free_units(c):
    """Units without rule: of variables, custom variables and several"""
    c.write_conventions(conv=tables([(CONV, "1.0", False)]), rule={},
                        depr={"GLOBAL:SOFAConventions": {}})
    sofa = c.sf.Sofa(CONV, verify=False)
    sofa.add_variable("Foo", 1.0, "double", "I")
    sofa.add_attribute("Foo_Units", "m")
    sofa.add_attribute("Foo_Name", "NAME")
    upper = []
    for k in ("Foo_Units", "Data_SamplingRate_Units",
              "SourcePosition_Units"):
        v = c.text(k, (0, 2))
        setattr(sofa, k, v)
        upper.append(has_upper(c, v))
    # no units, although the name or the value suggest it
    sofa.GLOBAL_Title = "Units"
    if c.flag("variable"):
        sofa.add_variable("FooUnits", [1.0], "double", "I")
        sofa.add_variable("TextUnits", "ABC", "string", "IS")
    both(c, sofa, c.disj(*upper), False, False, False)


def version(c):
    """Every kind of version, deprecated or not"""
    versions = ("0.1", "0.4", "0.9", "0.99", "1.0", "1.1", "2.0", "10.0")
    v = c.choice("version", versions)
    how = c.choice("deprecated", ("none", "this", "other", "both", "longer"))
    c.write_conventions(
        conv=tables([(CONV, x, False) for x in versions] +
                    [("Other", "1.0", False), (CONV + "X", "1.0", False)]),
        rule={}, depr={"GLOBAL:SOFAConventions":
                       deprecated_names(c, CONV, how)})
    o = c.attempt(c.sf.Sofa, CONV, version=v, verify=False)
    sofa = o.value
    u = c.text("units", (1,))
    sofa.A_Units = u
    both(c, sofa, has_upper(c, u), how in ("this", "both"),
         float(v) < 1, False)


def problems(c):
    """Violations of other kinds are found in both modes"""
    c.write_conventions(
        conv=tables([(CONV, "1.0", False), (CONV, "0.5", True)]), rule={},
        depr={"GLOBAL:SOFAConventions":
              {CONV: "Other"} if c.flag("deprecated") else {}})
    old = c.flag("old")
    sofa = c.sf.Sofa(CONV, version="0.5" if old else "1.0", verify=False)
    what = c.choice("problem", ("none", "missing", "type", "shape", "name",
                                "missing attribute"))
    sofa.protected = False
    if what == "missing":
        del sofa.ListenerPosition_Type
    elif what == "missing attribute":
        del sofa.GLOBAL_Title
    elif what == "type":
        sofa.GLOBAL_Title = 1.0
    elif what == "shape":
        sofa.Data_Delay = [1, 2, 3, 4, 5]
    elif what == "name":
        del sofa.A
    u = c.text("units", (1,))
    sofa.SourcePosition_Units = u
    sofa.protected = True
    dep = "Other" in str(c.sf.Sofa._verification_rules()[2])
    seen = {}
    for mode in ("read", "write"):
        o = c.attempt(sofa.copy().verify, mode=mode)
        c.check(o.ok or o.raised(ValueError), "unexpected error")
        seen[mode] = not o.ok
    c.check(seen["read"] == (what != "none"), f"{what}: read mode")
    if what == "none":
        c.check(c.iff(seen["write"], c.disj(dep, has_upper(c, u))),
                "write mode")
    else:
        c.check(seen["write"], f"{what}: accepted for writing")


def files(c):
    """The same for files: units as read, rejected when written"""
    how = c.choice("deprecated", ("none", "this"))
    f, g = c.path("a.sofa"), c.path("b.sofa")
    conv = tables([(CONV, "1.0", False)])
    kw = {"conv": conv, "rule": {}}
    c.write_conventions(depr={"GLOBAL:SOFAConventions": {}}, **kw)
    sofa = c.sf.Sofa(CONV, verify=False)
    c.must(c.sf.write_sofa, f, sofa)
    c.write_conventions(depr={"GLOBAL:SOFAConventions":
                              deprecated_names(c, CONV, how)}, **kw)
    u = c.text("units", (1, 2))
    ds = c.nc.Dataset(f, "a")
    ds["A"].setncattr("Units", u)
    ds.close()
    o = c.must(c.sf.read_sofa, f, verbose=False,
               msg="files with upper case units cannot be read")
    c.check(bool(o.warned) == (how == "this"), "warning when reading")
    sofa = o.value
    c.check(c.same_text(sofa.A_Units, u), "the unit changes when reading")
    o = c.attempt(c.sf.write_sofa, g, sofa)
    bad = c.disj(has_upper(c, u), how == "this")
    c.check(c.iff(o.raised(ValueError), bad), "writing")
    c.check(o.ok or o.raised(ValueError), "unexpected error")
    c.check(c.isfile(g) == o.ok, "file of a rejected object")
    c.reach("written" if o.ok else "rejected")


def cases(tier):
    return [Case("units", units), Case("free_units", free_units),
            Case("version", version), Case("problems", problems),
            Case("files", files)]
