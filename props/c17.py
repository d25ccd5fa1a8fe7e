"""C17: upgrading conventions."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, IDENT, ALNUM
from props.common import *
from props.c12 import state, check_state
from props.c15 import default_eq, is_mandatory, table, remove

ASSUMPTIONS = [
    "upgrade rules name, or the target convention contains, all entries of "
    "the old convention that an object contains (the rules of the "
    "conventions repository do); no two moves have the same target",
    "the tables are as in sx/fixture.py, with rules as given per case",
]

HRIR4 = ("SimpleFreeFieldHRIR", "0.4", "SimpleFreeFieldHRIR_1.0")
HRTF = ("SimpleFreeFieldTF", "1.0", "SimpleFreeFieldHRTF_1.0")
BRIR = ("MultiSpeakerBRIR", "0.3", "SingleRoomMIMOSRIR_1.0")
CHANGED = ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion",
           "GLOBAL_Version", "GLOBAL_DataType")


def san(k):
    return k.replace(":", "_").replace(".", "_")


def fill(c, sofa, name):
    """Symbolic values for some entries, custom entries"""
    M, R, N = c.size("M"), c.size("R"), c.size("N")
    sofa.GLOBAL_Title = c.text("title", (0, 2))
    sofa.GLOBAL_History = " a  history\n"
    sofa.SourcePosition = c.array("Source", (M, 3))
    sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    if hasattr(sofa, "Data_Real"):
        sofa.Data_Real = c.array("Real", (M, R, N))
        sofa.Data_Imag = c.array("Imag", (M, R, N))
        sofa.N = c.array("frequencies", (N,))
    elif name == "MultiSpeakerBRIR":
        E = c.size("E")
        sofa.EmitterPosition = c.array("Emitter", (E, 3))
        sofa.Data_IR = c.array("IR", (M, R, E, N))
        sofa.Data_Delay = c.array("Delay", (M, R, E))
    else:
        sofa.Data_IR = c.array("IR", (M, R, N))
        sofa.Data_Delay = c.array("Delay", (M, R))
    if c.flag("custom entries"):
        sofa.add_variable("Foo", c.array("foo", (M, 2)), "double", "MP")
        sofa.add_attribute("Foo_Units", "metre")
        sofa.add_attribute("GLOBAL_Bar", c.text("bar", (1,)))


def listing(c):
    """No or invalid targets and conventions that are up to date"""
    name, version, target = c.choice("convention", (
        HRIR4, HRTF, BRIR, ("SimpleFreeFieldHRIR", "1.0", None),
        ("GeneralTF", "1.0", None), ("SingleRoomDRIR", "0.3", None)))
    sofa = c.sf.Sofa(name, version=version, verify=False)
    fill(c, sofa, name)
    before = state(c, sofa)
    kind = c.choice("target", ("none", "text", "near", "suffix", "known"))
    if kind == "none":
        asked = None
    elif kind == "text":
        asked = c.text("text", (0, 1, 3))
    elif kind == "suffix":
        asked = (target or "SimpleFreeFieldHRIR_1.0") + \
            c.text("suffix", (1, 2))
    elif kind == "near":
        # one character differs
        t = target or "SimpleFreeFieldHRTF_1.0"
        k = c.choice("position", (0, 6, len(t) - 4, len(t) - 3, len(t) - 1))
        x = c.text("character", (1,))
        c.assume(c.neg(c.same_text(x, t[k])))
        asked = t[:k] + x + t[k + 1:]
    else:
        asked = c.choice("known", ("GeneralTF_2.0", "SimpleFreeFieldHRIR_0.4",
                                   "SimpleFreeFieldHRIR", "1.0"))
    a = c.choice("verify", ("auto", True, False))
    o = c.must(sofa.upgrade_convention, asked, a)
    check_state(c, before, sofa, "upgrade without a valid target")
    txt = c.plain(o.text)
    if target is None:
        c.check(o.value is None, "targets for an up to date convention")
        c.check(f"{name} v{version} is up to date" in txt, "no message")
    else:
        c.check(list(o.value) == [target], "wrong list of targets")
        n, v = target.split("_")
        c.check(f"{name} v{version} can be upgraded to:\n- {n} v{v}\n" in
                txt, "list of targets not printed")
        c.check((" is invalid." in txt) == (asked is not None),
                "invalid target not reported")
    c.check("Upgrading" not in txt, "upgraded")


def check_upgraded(c, sofa, before, target, moved, removed, t=None):
    """All but the moved and removed data are the same"""
    t = table(target) if t is None else t
    now = entries(sofa)
    for k in CHANGED:
        c.check(c.same_text(now[k], t[k]["default"]),
                f"{k} is not the one of the target")
    had = before[0]
    skip = set(CHANGED) | set(moved) | set(removed)
    want = {k: v for k, v in had.items() if k not in skip}
    for k, v in moved.items():
        want[v[0]] = v[1]
    for k in t:
        if is_mandatory(t[k]) and k not in want and k not in CHANGED:
            c.check(k in now, f"mandatory {k} is not added")
            default_eq(c, now[k], t[k]["default"], k)
            want[k] = now[k]
    check_same(c, want, now, "upgrade", CHANGED)
    c.check(sofa.protected is True, "not protected")
    c.check(list(getattr(sofa, "_custom", {})) == list(before[2]),
            "custom entries changed")
    c.check([k for k in sofa._convention if k not in before[2]] == list(t),
            "entries known after the upgrade")


def plain_upgrade(c):
    """Nothing to be moved"""
    name, version, target = c.choice("convention", (HRIR4, HRTF))
    sofa = c.sf.Sofa(name, version=version, verify=False)
    fill(c, sofa, name)
    remove(c, sofa, ("GLOBAL_History",
                     "Data_IR" if name != HRTF[0] else "N_LongName",
                     "GLOBAL_ApplicationName"))
    before = state(c, sofa)
    # the default of missing data might have other dimensions
    lost = "Data_IR" not in before[0] and name != HRTF[0]
    o = c.must(sofa.upgrade_convention, target, False if lost else
               c.choice("verify", ("auto", True, False)))
    c.check(o.value is None, "a value is returned")
    check_upgraded(c, sofa, before, target, {}, ())
    txt = c.plain(o.text)
    c.check("- No data to move\n" in txt and "- No data to remove\n" in txt,
            "message")
    # nothing left to do
    after = state(c, sofa)
    o = c.must(sofa.upgrade_convention, target)
    c.check(o.value is None, "upgrade of upgraded data")
    check_state(c, after, sofa, "second upgrade")
    if not lost:
        c.must(sofa.verify)
        check_state(c, after, sofa, "verification after the upgrade")


def axes_moved(c, a, source, target):
    while ndim(a) < max(source, target) + 1:
        a = a.reshape(tuple(a.shape) + (1,))
    order = [k for k in range(ndim(a)) if k != source]
    order.insert(target, source)
    return a.transpose(order)


def multi_speaker(c):
    """Data with an axis to be moved and data to be removed"""
    name, version, target = BRIR
    sofa = c.sf.Sofa(name, version=version, verify=False)
    fill(c, sofa, name)
    kind = c.choice("shape of IR", ("4-D", "3-D", "2-D", "text removed"))
    if kind == "3-D":
        sofa.Data_IR = c.array("IR3", (c.size("M3"), 2, 4))
    elif kind == "2-D":
        sofa.Data_IR = c.array("IR2", (c.size("M2"), 2))
    if c.flag("no location"):
        sofa.delete("GLOBAL_RoomLocation")
    elif kind == "text removed":
        sofa.GLOBAL_RoomLocation = c.text("location", (1,))
    before = state(c, sofa)
    moved = {
        "Data_IR": ("Data_IR", axes_moved(c, before[0]["Data_IR"], 3, 2)),
        "Data_Delay": ("Data_Delay", before[0]["Data_Delay"])}
    o = c.must(sofa.upgrade_convention, target, False)
    check_upgraded(c, sofa, before, target, moved, ("GLOBAL_RoomLocation",))
    txt = c.plain(o.text)
    c.check("- Moving Data_IR to Data_IR. Moving axis 3 to 2.\n" in txt and
            "- Moving Data_Delay to Data_Delay." in txt and
            "Dimensions E are now deprecated" in txt, "messages")
    if kind == "4-D":
        c.must(sofa.verify, msg="the upgraded data is not valid")


def with_rules(c, rule, targets=("GeneralTF_2.0",), versions=("1.0",),
               extra=None, new=None, more=(), depr=None):
    """Tables with rules for SimpleFreeFieldHRIR 0.4 -> 1.0"""
    conv = fixture.conventions()
    old = dict(conv["SimpleFreeFieldHRIR_0.4"][1])
    old.update(extra or {})
    tab = dict(conv["SimpleFreeFieldHRIR_1.0"][1])
    tab.update(new or {})
    conv["SimpleFreeFieldHRIR_0.4"] = (True, old)
    conv["SimpleFreeFieldHRIR_1.0"] = (False, tab)
    up = fixture.upgrade()
    up["SimpleFreeFieldHRIR"] = {
        "from_to": [[["0.4"], ["SimpleFreeFieldHRIR_1.0"], "rule"]],
        "rule": rule}
    c.write_conventions(conv=conv, upgr=up)
    return {san(k): v for k, v in tab.items()}


def axes(c):
    """Every source and destination axis"""
    n = c.choice("dimensions", (2, 3, 4) if c.thorough else (2, 3))
    s = c.choice("source", tuple(range(4)))
    d = c.choice("destination", tuple(range(4)))
    other = c.flag("other name")
    k = "Data.Old" if other else "Data.New"
    t = with_rules(c, {
        "move": {k: {"target": "Data.New", "moveaxis": [s, d],
                     "deprecated_dimensions": None}},
        "remove": [], "message": None},
        extra={k: fixture.dbl([0, 0], "mrn", None)},
        new={"Data.New": fixture.dbl([0, 0], "mrn", None)})
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR", version="0.4", verify=False)
    shape = tuple(c.size(f"n{x}") for x in range(n))
    setattr(sofa, san(k), c.array("data", shape))
    before = state(c, sofa)
    moved = {san(k): ("Data_New", axes_moved(c, before[0][san(k)], s, d))}
    o = c.must(sofa.upgrade_convention, "SimpleFreeFieldHRIR_1.0", False)
    check_upgraded(c, sofa, before, "", moved, (), t)
    c.check(f"- Moving {san(k)} to Data_New. Moving axis {s} to {d}.\n" in
            c.plain(o.text), "message")


def moves(c):
    """Several moves and removals, present and missing data"""
    move = {}
    for k, (to, unit) in {
            "Old": ("New", None), "GLOBAL:OldText": ("GLOBAL:Text", None),
            "Old:Units": ("New:Units", None)}.items():
        if c.flag("move " + k):
            move[k] = {"target": to, "moveaxis": None,
                       "deprecated_dimensions":
                           c.choice("deprecated " + k, (None, ["R", "E"]))
                           if k == "Old" else None}
    rem = [k for k in ("Old", "Old:Units", "GLOBAL:OldText", "SourceUp")
           if k not in move and
           (k != "SourceUp" or c.flag("remove " + k))]
    msg = c.choice("message", (None, "see the documentation"))
    t = with_rules(c, {"move": move, "remove": rem, "message": msg},
                   extra={"Old": fixture.dbl(0, "IC, MC", None),
                          "Old:Units": fixture.attr("metre", None),
                          "GLOBAL:OldText": fixture.attr("", None),
                          "SourceUp": fixture.dbl([0, 0, 1], "IC, MC",
                                                  None)},
                   new={"New": fixture.dbl([1, 2, 3], "IC, MC",
                                           c.choice("flags", (None, "m"))),
                        "New:Units": fixture.attr("metre", None),
                        "GLOBAL:Text": fixture.attr("new", "m")})
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR", version="0.4", verify=False)
    sofa.Old = c.array("old", (c.size("M"), 3))
    sofa.GLOBAL_OldText = c.text("text", (0, 2))
    sofa.Old_Units = c.text("units", (1,))
    remove(c, sofa, ("Old", "GLOBAL_OldText"))
    before = state(c, sofa)
    moved = {san(k): (san(v["target"]), before[0][san(k)])
             for k, v in move.items() if san(k) in before[0]}
    o = c.must(sofa.upgrade_convention, "SimpleFreeFieldHRIR_1.0", False,
               msg="upgrade failed")
    check_upgraded(c, sofa, before, "", moved, [san(k) for k in rem], t)
    txt = c.plain(o.text)
    for k in move:
        line = f"- Moving {san(k)} to {san(move[k]['target'])}."
        c.check((line in txt) == (san(k) in before[0]), f"{k}: move printed")
    for k in rem:
        c.check((f"- Deleting {san(k)}.\n" in txt) == (san(k) in before[0]),
                f"{k}: deletion printed")
    c.check(("- No data to move" in txt) == (not move), "message")
    c.check(msg is None or msg in txt, "message is not shown")


def selection(c):
    """The rule for the version and the list of targets"""
    conv = fixture.conventions()
    tab = conv["SimpleFreeFieldHRIR_0.4"][1]

    def at(v, extra):
        t = dict(tab)
        t["GLOBAL:SOFAConventionsVersion"] = {
            **t["GLOBAL:SOFAConventionsVersion"], "default": v}
        return {**t, **extra}
    old = {"A": fixture.dbl(0, "I", None), "B": fixture.dbl(0, "I", None)}
    for v in ("0.1", "0.2", "0.3", "1.4"):
        conv["SimpleFreeFieldHRIR_" + v] = (v != "1.4", at(v, old))
    new = {"C": fixture.dbl(0, "I", None), "D": fixture.dbl(0, "I", None)}
    for k in ("SimpleFreeFieldHRIR_1.0", "SimpleFreeFieldHRIR_0.4"):
        conv[k] = (conv[k][0], {**conv[k][1], **old, **new})
    groups = c.choice("groups", (
        ((("0.1", "0.2"), 1), (("0.3",), 2)),
        ((("0.1",), 1), (("0.3", "0.2"), 2)),
        ((("0.3",), 1), (("0.2",), 2), (("0.1",), 1))))
    to = {1: ["SimpleFreeFieldHRIR_1.0", "SimpleFreeFieldHRIR_0.4"],
          2: ["SimpleFreeFieldHRIR_0.4", "SimpleFreeFieldHRTF_1.0"]}
    mv = {1: ("A", "C"), 2: ("B", "D")}
    up = {"SimpleFreeFieldHRIR": {
        "from_to": [[list(v), to[n], f"upgrade_{n}"] for v, n in groups]}}
    for n in mv:
        up["SimpleFreeFieldHRIR"][f"upgrade_{n}"] = {
            "move": {mv[n][0]: {"target": mv[n][1], "moveaxis": None,
                                "deprecated_dimensions": None}},
            "remove": [], "message": f"rule number {n}"}
    c.write_conventions(conv=conv, upgr=up)
    v = c.choice("version", ("0.1", "0.2", "0.3", "1.4"))
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR", version=v, verify=False)
    sofa.A, sofa.B = c.real("A"), c.real("B")
    before = state(c, sofa)
    n = [n for g, n in groups if v in g]
    if not n:
        o = c.must(sofa.upgrade_convention,
                   c.choice("target", (None, "SimpleFreeFieldHRIR_1.0")))
        c.check(o.value is None, "targets for an up to date version")
        check_state(c, before, sofa, "up to date")
        return
    n = n[0]
    o = c.must(sofa.upgrade_convention)
    c.check(list(o.value) == to[n], "list of targets")
    check_state(c, before, sofa, "list of targets")
    target = c.choice("target", (
        "SimpleFreeFieldHRIR_1.0", "SimpleFreeFieldHRIR_0.4"))
    o = c.must(sofa.upgrade_convention, target, False)
    if target not in to[n]:
        check_state(c, before, sofa, "invalid target")
        return
    c.check(o.value is None, "returned a list")
    c.check(f"rule number {n}" in c.plain(o.text), "other rule")
    check_upgraded(c, sofa, before, "",
                   {mv[n][0]: (mv[n][1], before[0][mv[n][0]])}, (),
                   {san(k): x for k, x in conv[target][1].items()})


def no_rules(c):
    """Deprecated conventions without rules"""
    up = fixture.upgrade()
    del up["SimpleFreeFieldTF"]
    c.write_conventions(upgr=up)
    sofa = c.sf.Sofa("SimpleFreeFieldTF", version="1.0", verify=False)
    fill(c, sofa, "SimpleFreeFieldTF")
    before = state(c, sofa)
    o = c.must(sofa.upgrade_convention, c.choice(
        "target", (None, "SimpleFreeFieldHRTF_1.0", "")))
    c.check(o.value is None, "targets without rules")
    c.check("is missing upgrade rules" in c.plain(o.text), "message")
    check_state(c, before, sofa, "no rules")


def read_only(c):
    """After the upgrade the object behaves like one of the target"""
    f = c.text("flags", (1,), ((109, 109), (114, 114)))
    old = {"New": fixture.dbl(0, "I", c.choice("old flags", (
        None, "r", "m")))}
    with_rules(c, {"move": {}, "remove": [], "message": None},
               extra=old, new={"New": fixture.dbl(0, "I", f)})
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR", version="0.4", verify=False)
    c.must(sofa.upgrade_convention, "SimpleFreeFieldHRIR_1.0", False)
    ref = c.sf.Sofa("SimpleFreeFieldHRIR", version="1.0", verify=False)
    v = c.real("value")
    a = c.attempt(setattr, sofa, "New", v)
    b = c.attempt(setattr, ref, "New", v)
    c.check(a.ok == b.ok, "assignment after the upgrade depends on the "
            "previous convention")
    c.check(c.iff(a.ok, c.same_text(f, "m")), "read only")
    a = c.attempt(sofa.delete, "New")
    c.check(c.iff(a.ok, c.neg(c.same_text(f, "m"))), "deletion of data")
    for k in ("GLOBAL_SOFAConventions", "GLOBAL_DataType"):
        o = c.attempt(setattr, sofa, k, c.text("value " + k, (1,)))
        c.check(not o.ok, f"{k} can be changed after the upgrade")


def verification(c):
    """The upgraded object is verified if requested"""
    name, version, target = HRIR4
    sofa = c.sf.Sofa(name, version=version, verify=False)
    fill(c, sofa, name)
    wrong = c.flag("wrong shape")
    if wrong:
        sofa.SourcePosition = c.array("wrong", (2, 2))
    before = state(c, sofa)
    v = c.choice("verify", ("auto", True, False))
    o = c.attempt(sofa.upgrade_convention, target, v)
    c.check(o.ok == (not wrong or v is False),
            "upgrade of invalid data" if wrong else f"{o.kind} raised")
    check_upgraded(c, sofa, before, target, {}, ())
    if wrong:
        c.check(not c.attempt(sofa.verify).ok, "invalid data")


@also_after("multi_speaker", "verification")
def cases(tier):
    return [Case("listing", listing), Case("plain", plain_upgrade),
            Case("multi_speaker", multi_speaker), Case("axes", axes),
            Case("moves", moves), Case("selection", selection),
            Case("no_rules", no_rules), Case("read_only", read_only),
            Case("verification", verification)]
