"""C12: protected objects."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, IDENT, ALPHA, ALNUM
from props.common import *

ASSUMPTIONS = [
    "names of methods and other names of the class Sofa, and names that "
    "start with an underscore, are not names of entries",
]

CONV = "SimpleFreeFieldHRIR"


def flags_of(key):
    t = fixture.TABLES[CONV + "_1.0"][1]
    for k, v in t.items():
        if k.replace(":", "_").replace(".", "_") == key:
            return v["flags"] or ""
    return ""


def state(c, sofa):
    """Everything an object knows about its entries"""
    return (snapshot(c, sofa), list(sofa._convention),
            dict(getattr(sofa, "_custom", {})), sofa.protected)


def check_state(c, before, sofa, msg, skip=(), protected=True):
    check_same(c, before[0], entries(sofa), msg, skip)
    now = state(c, sofa)
    c.check([k for k in before[1] if k not in skip] ==
            [k for k in now[1] if k not in skip],
            f"{msg}: the list of known entries changed")
    c.check([k for k in before[2] if k not in skip] ==
            [k for k in now[2] if k not in skip],
            f"{msg}: the custom entries changed")
    c.check(sofa.protected is protected,
            f"{msg}: the object is not protected" if protected else
            f"{msg}: the object is protected")


def make(c):
    sofa = c.sf.Sofa(CONV)
    sofa.add_variable("Foo", [1.0, 2.0], "double", "IP")
    sofa.add_attribute("Foo_Units", "metre")
    sofa.add_attribute("GLOBAL_Bar", "text")
    return sofa


def value(c, kind):
    if kind == "text":
        return c.text("value", (0, 2))
    if kind == "array":
        return c.array("value", (c.size("n"), 3))
    if kind == "number":
        return c.real("value")
    return [c.real("value"), 2]


KINDS = ("text", "array", "number", "list")


def assign_unknown(prefix, lengths):
    def assign(c):
        sofa = make(c)
        known = keys_of(sofa) + dir(c.sf.Sofa)
        name = prefix + c.text("name", lengths, IDENT,
                               first=None if prefix else ALNUM)
        c.assume(c.neg(c.disj(*[c.same_text(name, k) for k in known
                                if len(k) == len(name)])))
        if c.flag("deleted"):
            name = c.choice("which", ("SourceUp", "GLOBAL_History"))
            sofa.delete(name)
        before = state(c, sofa)
        o = c.attempt(setattr, sofa, name, value(c, c.choice("kind", KINDS)))
        c.check(o.raised(TypeError), "an unknown name was assigned"
                if o.ok else f"wrong error {o.kind}")
        check_state(c, before, sofa, "failed assignment")
    assign.__doc__ = f"Unknown names '{prefix}' and {lengths} characters"
    return assign


def assign(c):
    """Every entry, every kind of value"""
    sofa = make(c)
    key = c.choice("key", tuple(keys_of(sofa)))
    before = state(c, sofa)
    v = value(c, c.choice("kind", KINDS))
    o = c.attempt(setattr, sofa, key, v)
    if "r" in flags_of(key):
        c.check(o.raised(TypeError), f"read only {key} was assigned")
        check_state(c, before, sofa, "failed assignment")
    else:
        c.check(o.ok, f"{key} can not be assigned: {o.kind}")
        check_state(c, before, sofa, f"assignment of {key}", (key,))
        now = sofa.__dict__[key]
        if isinstance(v, (int, float, str)) or ndim(v):
            c.check(c.eq(now, v), f"{key} has another value")
    c.reach("assigned" if o.ok else "rejected")


def delete(c):
    """Every entry, by del and by delete"""
    sofa = make(c)
    key = c.choice("key", tuple(keys_of(sofa)))
    before = state(c, sofa)
    if c.flag("method"):
        o = c.attempt(sofa.delete, key)
    else:
        o = c.attempt(delattr, sofa, key)
    if "m" in flags_of(key):
        c.check(o.raised(TypeError), f"mandatory {key} was deleted")
        check_state(c, before, sofa, "failed deletion")
    else:
        c.check(o.ok, f"{key} can not be deleted: {o.kind}")
        c.check(key not in sofa.__dict__, f"{key} is still there")
        check_state(c, before, sofa, f"deletion of {key}", (key,))
    c.reach("deleted" if o.ok else "rejected")


def delete_unknown(c):
    """Unknown names"""
    sofa = make(c)
    known = keys_of(sofa) + dir(c.sf.Sofa)
    name = c.choice("prefix", ("", "GLOBAL_", "Data_", "SourceU")) + \
        c.text("name", (1, 2), ALNUM)
    c.assume(c.neg(c.disj(*[c.same_text(name, k) for k in known
                            if len(k) == len(name)])))
    if c.flag("twice"):
        name = c.choice("which", ("SourceUp", "Foo", "GLOBAL_Bar"))
        sofa.delete(name)
    before = state(c, sofa)
    o = c.attempt(sofa.delete if c.flag("method") else
                  lambda n: delattr(sofa, n), name)
    c.check(not o.ok, "an unknown name was deleted")
    check_state(c, before, sofa, "failed deletion")


def flags(c):
    """Symbolic flags in the table"""
    f = c.text("flags", (0, 1, 2), ((109, 109), (114, 114)))
    none = c.flag("no flags")
    t = dict(fixture.TABLES[CONV + "_1.0"][1])
    key = c.choice("key", ("SourceUp", "GLOBAL:History", "Data.Delay"))
    t[key] = {**t[key], "flags": None if none else f}
    c.write_conventions(conv={CONV + "_1.0": (False, t)})
    sofa = c.sf.Sofa(CONV)
    key = key.replace(":", "_").replace(".", "_")
    has = {x: (not none) and c.disj(*[c.same_text(y, x) for y in f])
           for x in "rm"}
    c.check(key in sofa.__dict__, "missing entry")
    before = state(c, sofa)
    v = sofa.__dict__[key]
    o = c.attempt(setattr, sofa, key, v)
    c.check(o.ok or o.raised(TypeError), f"{o.kind} upon assignment")
    c.check(c.iff(o.ok, c.neg(has["r"])), "read only entry was assigned"
            if o.ok else "entry can not be assigned")
    check_state(c, before, sofa, "assignment")
    o = c.attempt(delattr, sofa, key)
    c.check(o.ok or o.raised(TypeError), f"{o.kind} upon deletion")
    c.check(c.iff(o.ok, c.neg(has["m"])), "mandatory entry was deleted"
            if o.ok else "entry can not be deleted")
    check_state(c, before, sofa, "deletion", (key,) if o.ok else ())


def toggle(c):
    """The flag itself"""
    sofa = make(c)
    before = state(c, sofa)
    for bad in (None, 1, 0, "False", [], c.np.float64(1)):
        o = c.attempt(setattr, sofa, "protected", bad)
        c.check(o.raised(ValueError), "only True and False are allowed")
        check_state(c, before, sofa, "failed setting of protected")
    saved = sofa.protected
    c.check(saved is True, "new objects are not protected")
    c.must(setattr, sofa, "protected", False)
    c.check(sofa.protected is False, "protected is not stored")
    r = c.choice("read only", ("GLOBAL_DataType", "GLOBAL_Version"))
    t = c.text("value", (1, 2))
    c.must(setattr, sofa, r, t)
    c.check(c.same_text(sofa.__dict__[r], t), "value not stored")
    m = c.choice("mandatory", ("Data_IR", "GLOBAL_Title"))
    c.must(delattr, sofa, m)
    c.check(m not in sofa.__dict__, "entry not deleted")
    if c.flag("new"):
        c.must(setattr, sofa, "NewName", 1.0)
        c.must(delattr, sofa, "NewName")
    c.must(setattr, sofa, "protected", saved)
    check_state(c, before, sofa, "restoring", (r, m))
    for f, a in ((setattr, (sofa, r, "x")), (setattr, (sofa, m, 1.0)),
                 (setattr, (sofa, "NewName", 1.0)),
                 (delattr, (sofa, "Data_Delay"))):
        c.check(c.attempt(f, *a).raised(TypeError), "not protected again")


METHODS = ("verify", "verify print", "verify return", "verify ignore",
           "verify read", "inspect", "list_dimensions", "get_dimension",
           "get_dimension bad", "info", "add_missing", "add_missing none",
           "add_variable", "add_variable bad", "add_variable ragged",
           "add_variable exists", "add_attribute", "add_attribute bad",
           "delete", "delete bad", "upgrade", "copy", "write", "equals",
           "repr", "read", "upgrade bad")


def call(c, sofa, what):
    name, _, arg = what.partition(" ")
    if name == "verify":
        return c.attempt(sofa.verify, **(
            {"mode": "read"} if arg == "read" else
            {"issue_handling": arg} if arg else {}))
    if name == "list_dimensions":
        return c.attempt(getattr, sofa, name)
    if name == "get_dimension":
        return c.attempt(sofa.get_dimension, "Q" if arg else "M")
    if name == "add_missing":
        return c.attempt(sofa.add_missing, not arg, not arg)
    if name == "add_variable":
        return c.attempt(sofa.add_variable, *{
            "": ("New", 1.0, "double", "I"),
            "bad": ("New_er", 1.0, "double", "I"),
            "ragged": ("New", [[1, 2], [3]], "double", "MR"),
            "exists": ("Data_IR", 1.0, "double", "I")}[arg])
    if name == "add_attribute":
        return c.attempt(sofa.add_attribute,
                         "Nowhere_New" if arg else "GLOBAL_New", "text")
    if name == "delete":
        return c.attempt(sofa.delete, "Data_IR" if arg else "SourceUp")
    if name == "upgrade":
        return c.attempt(sofa.upgrade_convention, *(["Foo_1.0"] if arg
                                                    else []))
    if name == "write":
        return c.attempt(c.sf.write_sofa, c.path("x.sofa"), sofa)
    if name == "equals":
        return c.attempt(c.sf.equals, sofa, sofa.copy())
    if name == "repr":
        return c.attempt(repr, sofa)
    if name == "read":
        f = c.path("y.sofa")
        c.must(c.sf.write_sofa, f, c.sf.Sofa(CONV))
        o = c.must(c.sf.read_sofa, f, verbose=False)
        c.check(o.value.protected is True, "objects that are read are not "
                "protected")
        o = c.must(c.sf.read_sofa_as_netcdf, f)
        c.check(o.value.protected is True, "objects that are read as netcdf "
                "are not protected")
        return o
    if name == "copy":
        o = c.attempt(sofa.copy)
        c.check(o.value.protected is True, "copies are not protected")
        return o
    return c.attempt(getattr(sofa, name))


def method(name):
    def run(c):
        what = c.choice("state", ("good", "missing", "type", "shape", "name",
                                  "unit", "custom missing"))
        sofa = make(c)
        sofa.protected = False
        if what == "missing":
            del sofa.ListenerPosition_Units
        elif what == "type":
            sofa.GLOBAL_Title = 1.0
        elif what == "shape":
            M, R = c.size("M"), c.size("R")
            sofa.Data_Delay = c.array("delay", (M, R))
        elif what == "name":
            del sofa.Foo
        elif what == "unit":
            sofa.ListenerPosition_Units = c.text("unit", (5,))
            c.know("metre")
        elif what == "custom missing":
            del sofa.GLOBAL_Bar
        sofa.protected = True
        o = call(c, sofa, name)
        c.check(sofa.protected is True, f"{name} ({o.kind}) leaves the "
                "object unprotected")
        for f, a in ((setattr, (sofa, "Another", 1.0)),
                     (setattr, (sofa, "GLOBAL_DataType", "FIR")),
                     (delattr, (sofa, "Data_IR"))):
            c.check(c.attempt(f, *a).raised(TypeError), f"{name}: the "
                    "object can be changed in forbidden ways afterwards")
        # and the permitted ones still work
        c.must(setattr, sofa, "GLOBAL_Title", "title")
        c.check("Another" not in sofa.__dict__ and "Data_IR" in
                sofa.__dict__, "changed by a forbidden action")
        c.reach(o.kind)
    run.__doc__ = f"The object after '{name}'"
    return run


def upgraded(c):
    """Objects of deprecated conventions after an upgrade"""
    name, v, target = c.choice("from", (
        ("SimpleFreeFieldHRIR", "0.4", "SimpleFreeFieldHRIR_1.0"),
        ("SimpleFreeFieldTF", "1.0", "SimpleFreeFieldHRTF_1.0"),
        ("MultiSpeakerBRIR", "0.3", "SingleRoomMIMOSRIR_1.0")))
    sofa = c.attempt(c.sf.Sofa, name, version=v, verify=False).value
    c.check(sofa.protected is True, "new objects are not protected")
    t = c.choice("target", (target, None, "Foo_1.0"))
    c.must(sofa.upgrade_convention, t)
    c.check(sofa.protected is True, "not protected after the upgrade")
    for f, a in ((setattr, (sofa, "Another", 1.0)),
                 (setattr, (sofa, "GLOBAL_DataType", "FIR")),
                 (delattr, (sofa, "Data_Real" if "TF" in name
                            else "Data_IR"))):
        c.check(c.attempt(f, *a).raised(TypeError), "the object can be "
                "changed in forbidden ways after the upgrade")
    c.must(setattr, sofa, "GLOBAL_Title", "title")


def none(c):
    """Objects without convention read as netCDF"""
    f = c.path("x.sofa")
    ds = c.nc.Dataset(f, "w")
    ds.setncattr("Title", c.text("title", (2,)))
    ds.createDimension("I", 1)
    ds.createVariable("Foo", "f8", ("I",))[:] = 1.0
    ds.close()
    o = c.must(c.sf.read_sofa_as_netcdf, f)
    sofa = o.value
    c.check(sofa.protected is True, "not protected")
    c.check(c.attempt(setattr, sofa, "Bar", 1.0).raised(TypeError),
            "unknown names can be assigned")
    c.must(setattr, sofa, "Foo", 2.0)
    c.check(c.eq(sofa.Foo, 2.0), "value not stored")


def forbidden(c, sofa, key, msg):
    before = state(c, sofa)
    o = c.attempt(setattr, sofa, key, "new")
    c.check(o.raised(TypeError), f"{msg}: read only {key} was assigned")
    o = c.attempt(setattr, sofa, "Another", 1.0)
    c.check(o.raised(TypeError), f"{msg}: an unknown name was assigned")
    check_state(c, before, sofa, msg)


def read_only(c):
    """Entries that are read only in the convention an object has after it
    was read as netCDF or upgraded"""
    if c.flag("netcdf"):
        f = c.path("x.sofa")
        c.must(c.sf.write_sofa, f, c.sf.Sofa(CONV))
        sofa = c.must(c.sf.read_sofa_as_netcdf, f).value
        c.must(sofa.verify)
        key = c.choice("key", ("GLOBAL_DataType", "GLOBAL_Version",
                               "GLOBAL_Conventions", "GLOBAL_APIName"))
        forbidden(c, sofa, key, "after reading and verifying")
        return
    key = c.choice("key", ("GLOBAL_Title", "GLOBAL_RoomType",
                           "Data_SamplingRate_Units"))
    name = key.replace("GLOBAL_", "GLOBAL:").replace("Rate_", "Rate:") \
        .replace("Data_", "Data.")
    conv = dict(fixture.conventions())
    dep, t = conv[CONV + "_1.0"]
    t = dict(t)
    f = c.choice("flags", ("r", "rm"))
    t[name] = {**t[name], "flags": f}
    conv[CONV + "_1.0"] = (dep, t)
    c.write_conventions(conv=conv)
    sofa = c.attempt(c.sf.Sofa, CONV, version="0.4", verify=False).value
    c.must(setattr, sofa, key, "text")
    c.must(sofa.upgrade_convention, CONV + "_1.0", verify=False)
    c.must(sofa.verify, issue_handling="ignore")
    forbidden(c, sofa, key, "after the upgrade")


def again(c):
    """Entries of the convention that were deleted and are added again"""
    sofa = make(c)
    key = c.choice("key", ("SourceUp", "GLOBAL_History", "Foo",
                           "GLOBAL_Bar"))
    sofa.delete(key)
    if key.startswith("GLOBAL_"):
        c.must(sofa.add_attribute, key, "text")
    else:
        c.must(sofa.add_variable, key, [1.0, 2.0, 3.0], "double", "IC")
    c.check(sofa.protected is True, "not protected")
    forbidden(c, sofa, "GLOBAL_DataType", "after adding an entry again")
    c.must(sofa.delete, key)


@also_after("upgraded", "toggle")
def cases(tier):
    n = (1, 2, 3, 4) if tier == "thorough" else (1, 2)
    out = [Case("unknown" + p, assign_unknown(p, n))
           for p in ("", "GLOBAL_", "Data_", "SourceU", "Foo_Uni")]
    out += [Case("assign", assign), Case("delete", delete),
            Case("delete_unknown", delete_unknown), Case("flags", flags),
            Case("toggle", toggle), Case("upgraded", upgraded),
            Case("netcdf", none), Case("read_only", read_only),
            Case("again", again)]
    out += [Case("method_" + m.replace(" ", "_"), method(m))
            for m in METHODS]
    return out
