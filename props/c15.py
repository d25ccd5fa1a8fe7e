"""C15: deleting and adding missing data."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, IDENT, ALPHA
from props.common import *
from props.c12 import state, check_state

ASSUMPTIONS = [
    "the tables are as in sx/fixture.py, or have symbolic flags and defaults",
]

CONV = "SimpleFreeFieldHRIR"


def table(name=CONV + "_1.0"):
    return {k.replace(":", "_").replace(".", "_"): v
            for k, v in fixture.TABLES[name][1].items()}


def is_mandatory(v):
    return "m" in (v["flags"] or "")


def default_eq(c, got, want, what, shape=True):
    """got holds the default of the table."""
    if isinstance(want, list):
        a = c.np.array(want)
        flat = [x for x in a.flatten()]
        g = list(got.flatten()) if ndim(got) else [got]
        c.check(len(g) == len(flat), f"{what}: size of the default")
        c.check(c.conj(*[c.eq(x, y) for x, y in zip(g, flat)]),
                f"{what}: not the default")
        if shape and ndim(got) and a.ndim > 1:
            c.check(tuple(got.shape) == a.shape, f"{what}: shape")
    elif isinstance(want, str):
        c.check(isinstance(got, str) and c.same_text(got, want),
                f"{what}: not the default")
    else:
        c.check(ndim(got) == 0 and c.eq(got, want), f"{what}: not the default")


def add_missing(c, sofa, t, mandatory, optional, how):
    """Call add_missing and compare with the table t."""
    before = state(c, sofa)
    had = before[0]
    absent = [k for k in t if k not in had]
    want = [k for k in absent
            if (is_mandatory(t[k]) and mandatory) or
            (not is_mandatory(t[k]) and optional)]
    verbose = c.flag(f"verbose {how}")
    o = c.must(sofa.add_missing, mandatory, optional, verbose)
    c.check(o.value is None, "a value is returned")
    now = entries(sofa)
    for k in want:
        c.check(k in now, f"{k} is not added")
        default_eq(c, now[k], t[k]["default"], k)
    for k in absent:
        if k not in want:
            c.check(k not in now, f"{k} is added although not selected")
    check_same(c, had, now, "add_missing", want)
    c.check(sofa.protected is True, "not protected afterwards")
    c.check(list(dict(getattr(sofa, "_custom", {}))) == list(before[2]),
            "custom entries changed")
    txt = c.plain(o.text)
    if verbose:
        for k in t:
            line = f"- {k} (" + ("mandatory" if is_mandatory(t[k]) else
                                 "optional") + ")\n"
            c.check((line in txt) == (k in want), f"{k}: printed list")
    else:
        c.check(not txt, "something is printed")
    # once more
    mid = snapshot(c, sofa)
    c.must(sofa.add_missing, mandatory, optional, False)
    check_same(c, mid, entries(sofa), "adding again")
    return want


def remove(c, sofa, keys):
    for k in keys:
        if c.flag("no " + k):
            sofa.protected = False
            delattr(sofa, k)
            sofa.protected = True


GROUPS = {
    "mixed": ("SourceUp", "GLOBAL_History", "GLOBAL_Title", "Data_Delay"),
    "optional": ("GLOBAL_ApplicationName", "GLOBAL_ApplicationVersion",
                 "GLOBAL_History", "SourceUp"),
    "variables": ("ListenerPosition", "ReceiverPosition", "Data_IR",
                  "Data_SamplingRate"),
    "attributes": ("GLOBAL_RoomType", "SourcePosition_Units",
                   "SourcePosition_Type", "GLOBAL_DateCreated"),
}


def subsets(group):
    def run(c):
        sofa = c.sf.Sofa(CONV)
        # values other than the defaults must survive
        sofa.GLOBAL_Title = c.text("title", (2,))
        sofa.Data_IR = c.array("IR", (c.size("M"), 2, c.size("N")))
        sofa.SourceUp = c.array("Up", (1, 3))
        sofa.add_variable("Foo", c.real("foo"), "double", "I")
        remove(c, sofa, GROUPS[group])
        add_missing(c, sofa, table(), c.flag("mandatory"),
                    c.flag("optional"), "1")
    run.__doc__ = f"Every subset of {GROUPS[group]} missing"
    return run


def all_missing(c):
    """All or almost all entries are missing"""
    name, v = c.choice("convention", (
        ("SimpleFreeFieldHRIR", "1.0"), ("SimpleHeadphoneIR", "1.0"),
        ("GeneralTF", "2.0"), ("SingleRoomMIMOSRIR", "1.0")))
    t = table(f"{name}_{v}")
    sofa = c.sf.Sofa(name, version=v)
    keep = c.choice("keep", (None, "GLOBAL_Title", "SourcePosition",
                             "SourcePosition_Units"))
    if keep == "GLOBAL_Title":
        sofa.GLOBAL_Title = c.text("title", (2,))
    elif keep == "SourcePosition":
        sofa.SourcePosition = c.array("Source", (1, 3))
    sofa.protected = False
    for k in keys_of(sofa):
        if k not in (keep, "GLOBAL_SOFAConventions",
                     "GLOBAL_SOFAConventionsVersion"):
            delattr(sofa, k)
    sofa.protected = True
    add_missing(c, sofa, t, c.flag("mandatory"), c.flag("optional"), "1")
    c.reach("end")


def single(c):
    """Every entry missing"""
    name, v = c.choice("convention", (
        ("SimpleFreeFieldHRIR", "1.0"), ("SimpleHeadphoneIR", "1.0"),
        ("GeneralTF", "2.0"), ("SimpleFreeFieldHRSOS", "1.0")))
    t = table(f"{name}_{v}")
    sofa = c.sf.Sofa(name, version=v)
    k = c.choice("key", tuple(
        k for k in t if k not in ("GLOBAL_SOFAConventions",
                                  "GLOBAL_SOFAConventionsVersion")))
    sofa.protected = False
    delattr(sofa, k)
    sofa.protected = True
    add_missing(c, sofa, t, c.flag("mandatory"), c.flag("optional"), "1")


def mandatory_only(c):
    """Objects with mandatory entries only"""
    name, v = c.choice("convention", (
        ("SimpleFreeFieldHRIR", "1.0"), ("SimpleHeadphoneIR", "1.0"),
        ("GeneralTF", "1.0"), ("SimpleFreeFieldHRTF", "1.0")))
    t = table(f"{name}_{v}")
    sofa = c.sf.Sofa(name, mandatory=True, version=v)
    for k in range(2):
        want = add_missing(c, sofa, t, c.flag(f"mandatory {k}"),
                           c.flag(f"optional {k}"), str(k))
        c.check(not any(is_mandatory(t[x]) for x in want), "mandatory")
    # the defaults of the arguments
    c.must(sofa.add_missing, verbose=False)
    c.check(set(keys_of(sofa)) == set(t), "not everything is added by "
            "default")


def symbolic_table(c):
    """Symbolic flags and defaults of an entry"""
    f = c.text("flags", (0, 1, 2), ((109, 109), (114, 114)))
    d = c.choice("kind", ("text", "number", "row"))
    default = {"text": lambda: c.text("default", (0, 2)),
               "number": lambda: c.real("default"),
               "row": lambda: [c.real("default 1"), 2.5, 3]}[d]()
    t = dict(fixture.TABLES[CONV + "_1.0"][1])
    k = "GLOBAL:New" if d == "text" else "New"
    t[k] = {**(fixture.attr() if d == "text" else
               fixture.dbl(0, "IC" if d == "row" else "I")),
            "default": default, "flags": f}
    c.write_conventions(conv={CONV + "_1.0": (False, t)})
    m = c.disj(*[c.same_text(x, "m") for x in f])
    sofa = c.sf.Sofa(CONV)
    k = k.replace(":", "_")
    default_eq(c, sofa.__dict__[k], default, k)
    sofa.protected = False
    delattr(sofa, k)
    sofa.protected = True
    a, b = c.flag("mandatory"), c.flag("optional")
    before = state(c, sofa)
    c.must(sofa.add_missing, a, b, False)
    want = c.disj(c.conj(m, a), c.conj(c.neg(m), b))
    c.check(c.iff(k in sofa.__dict__, want), "selection of entries")
    if k in sofa.__dict__:
        default_eq(c, sofa.__dict__[k], default, k)
    check_same(c, before[0], entries(sofa), "add_missing", (k,))


def delete(c):
    """Deleted entries stay away and can be added again"""
    sofa = c.sf.Sofa(CONV)
    sofa.add_variable("Foo", [1.0, 2.0, 3.0], "double", "IC")
    sofa.add_attribute("Foo_Units", "metre")
    sofa.add_attribute("GLOBAL_Bar", "text")
    k = c.choice("key", ("Foo", "Foo_Units", "GLOBAL_Bar", "SourceUp",
                         "GLOBAL_History"))
    custom = k in ("Foo", "Foo_Units", "GLOBAL_Bar")
    gone = (k, "Foo_Units") if k == "Foo" else (k,)
    before = state(c, sofa)
    method = c.flag("method")
    for x in reversed(gone):
        if method:
            c.must(sofa.delete, x)
        else:
            c.must(delattr, sofa, x)
    for x in gone:
        c.check(x not in sofa.__dict__, f"{x} is still there")
        c.check(x not in getattr(sofa, "_custom", {}),
                f"{x} is still known as custom entry")
    check_state(c, before, sofa, "deletion", gone)
    # nothing of it comes back by itself
    after = c.choice("after", ("verify", "add_missing", "copy", "write",
                               "inspect", "print"))
    if after == "verify":
        c.must(sofa.verify)
    elif after == "print":
        c.must(sofa.verify, issue_handling="print")
    elif after == "add_missing":
        c.must(sofa.add_missing, True, custom, False)
    elif after == "copy":
        sofa = c.must(sofa.copy).value
        c.must(sofa.verify)
    elif after == "inspect":
        o = c.must(sofa.inspect)
        for x in gone:
            c.check(f"\n{x} : " not in c.plain(o.text), f"{x} is shown")
    else:
        f = c.path("x.sofa")
        c.must(c.sf.write_sofa, f, sofa)
        sofa = c.must(c.sf.read_sofa, f, verbose=False).value
    check_same(c, before[0], entries(sofa), f"{after} after deletion", gone)
    # the name can be used again
    x = gone[0]
    if x in ("Foo", "SourceUp"):
        dims = "I" if custom else "IC"
        v = c.real("new") if custom else c.array("new array", (1, 3))
        c.must(sofa.add_variable, x, v, "double", dims,
               msg="the name of a deleted entry can not be used")
    else:
        v = c.text("new text", (1, 2), ((97, 122),))
        c.must(sofa.add_attribute, x, v,
               msg="the name of a deleted entry can not be used")
    c.check(c.eq(sofa.__dict__[x], v), "another value is stored")
    c.must(sofa.verify, msg="the new entry is rejected")
    c.check(c.eq(sofa.__dict__[x], v), "verification changes it")
    if not custom:
        c.must(sofa.delete, x)
        c.must(sofa.add_missing, False, True, False)
        default_eq(c, sofa.__dict__[x], table()[x]["default"], x)


def variable_only(c):
    """Deleting a variable leaves its attributes and all others"""
    sofa = c.sf.Sofa(CONV)
    sofa.add_variable("Foo", [1.0, c.real("x"), 3.0], "double", "IC")
    sofa.add_attribute("Foo_Units", c.text("unit", (1,)))
    sofa.add_variable("FooBar", 2.0, "double", "I")
    sofa.add_attribute("SourceUp_Units", "metre")
    protected = not c.flag("unprotected")
    sofa.protected = protected
    keys = ("Foo", "Foo_Units", "SourceUp") + (() if protected else (
        "SourcePosition", "Data_SamplingRate", "GLOBAL"))
    k = c.choice("key", keys)
    before = state(c, sofa)
    o = c.attempt(sofa.delete, k) if c.flag("method") else \
        c.attempt(delattr, sofa, k)
    c.check(o.ok == (k != "GLOBAL"), f"deletion of {k}: {o.kind}")
    check_state(c, before, sofa, "deletion", (k,) if o.ok else (),
                protected)
    if o.ok:
        c.check(k not in sofa.__dict__, f"{k} is still there")
        c.check(k not in sofa._custom, f"{k} is still a custom entry")


def sequence(c):
    """Sequences of deleting and adding"""
    sofa = c.sf.Sofa(CONV)
    t = table()
    have = snapshot(c, sofa)
    custom = set()
    ops = ("delete SourceUp", "delete Foo", "delete Data_IR", "add Foo",
           "missing", "missing optional", "missing mandatory", "verify",
           "assign SourceUp")
    for n in range(4 if c.thorough else 3):
        op = c.choice(f"op {n}", ops)
        what, _, key = op.partition(" ")
        if what == "delete":
            ok = key in have and key != "Data_IR"
            o = c.attempt(sofa.delete, key)
            c.check(o.ok == ok, f"{op}: {o.kind}")
            if ok:
                have.pop(key)
                custom.discard(key)
        elif what == "add":
            ok = "Foo" not in have
            v = c.real(f"value {n}")
            o = c.attempt(sofa.add_variable, "Foo", v, "double", "I")
            c.check(o.ok == ok, f"{op}: {o.kind}")
            if ok:
                have["Foo"] = v
                custom.add("Foo")
        elif what == "missing":
            c.must(sofa.add_missing, key != "optional", key != "mandatory",
                   False)
            if key != "mandatory" and "SourceUp" not in have:
                have["SourceUp"] = sofa.__dict__.get("SourceUp")
                c.check(have["SourceUp"] is not None, "not added")
                default_eq(c, have["SourceUp"], t["SourceUp"]["default"],
                           "SourceUp")
        elif what == "assign":
            v = c.array(f"value {n}", (1, 3))
            o = c.attempt(setattr, sofa, key, v)
            c.check(o.ok == (key in have), f"{op}: {o.kind}")
            if o.ok:
                have[key] = v
        else:
            c.must(sofa.verify)
        check_same(c, have, entries(sofa), op)
        c.check(set(getattr(sofa, "_custom", {})) == custom,
                f"{op}: custom entries")


def unknown(c):
    """Unknown names can not be deleted"""
    sofa = c.sf.Sofa(CONV)
    sofa.add_variable("Foo", 1.0, "double", "I")
    n = c.choice("prefix", ("", "GLOBAL_", "SourcePosition_", "Fo")) + \
        c.text("name", (1, 2), IDENT, first=ALPHA)
    c.assume(c.neg(c.disj(*[c.same_text(n, k) for k in
                            keys_of(sofa) + dir(c.sf.Sofa)
                            if len(k) == len(n)])))
    before = state(c, sofa)
    o = c.attempt(sofa.delete, n)
    c.check(not o.ok, "an unknown name is deleted")
    check_state(c, before, sofa, "failed deletion")
    c.must(sofa.add_missing, verbose=False)
    check_same(c, before[0], entries(sofa), "add_missing")


def cases(tier):
    return [Case("subsets_" + g, subsets(g)) for g in GROUPS] + [
        Case("single", single), Case("all_missing", all_missing), Case("mandatory_only", mandatory_only),
        Case("symbolic_table", symbolic_table), Case("delete", delete),
        Case("variable_only", variable_only),
        Case("sequence", sequence), Case("unknown", unknown)]
