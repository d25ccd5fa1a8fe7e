"""C08: restricted values and dependencies."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII
from props.common import *

ASSUMPTIONS = [
    "rules are written like the official ones: allowed values are lower case "
    "except for the data type and the name of the convention, rules with a "
    "list of values or with specific dependencies are for attributes, and "
    "dimensions in rules are dimensions the convention defines",
    "all other entries of the object are valid (names, types, shapes, units)",
    "letters are ASCII",
]

CONV = "SimpleFreeFieldHRIR"
CASED = ("GLOBAL_DataType", "GLOBAL_SOFAConventions")


def setup(c, rules, extra=None, aliases=None):
    """Object of a table with optional entries A, B, C and rules."""
    dep, t = fixture.conventions()[CONV + "_1.0"]
    t = dict(t)
    for k in ("A", "B", "Data.C"):
        t[k] = fixture.dbl(1, "I", None)
        t[k + ":Type"] = fixture.attr("ab", None)
        t[k + ":Units"] = fixture.attr("metre", None)
    t["Plain"] = fixture.dbl(1, "I", None)
    if extra:
        t.update(extra)
    c.write_conventions(conv={CONV + "_1.0": (dep, t)}, rule=rules,
                        aliases=aliases,
                        depr={"GLOBAL:SOFAConventions": {}})
    return c.sf.Sofa(CONV, verify=False)


def sofar(key):
    return key.replace(".", "_").replace(":", "_")


def put(sofa, key, value):
    sofa.protected = False
    setattr(sofa, key, value)
    sofa.protected = True


def drop(sofa, key):
    sofa.protected = False
    delattr(sofa, key)
    sofa.protected = True


def value_ok(c, key, value, allowed, unit_ok=None):
    """Value of an attribute against the allowed values (None: any)."""
    if allowed is None:
        return True
    v = value if key in CASED else value.lower()
    ok = [c.same_text(v, a) for a in allowed]
    if unit_ok is not None and key.endswith("Units"):
        ok.append(unit_ok(v))
    return c.disj(*ok)


def violations(c, rules, sofa, dims, unit_ok=None):
    """[(condition, entry that is named)] for the rules."""
    out = []
    for key, rule in rules.items():
        k = sofar(key)
        if k not in sofa.__dict__:
            continue
        v = sofa.__dict__[k]
        if rule["value"] is not None:
            out.append((c.neg(value_ok(c, k, v, rule["value"], unit_ok)),
                        f"- {k} is "))
        for d in rule.get("general", ()):
            if sofar(d) not in sofa.__dict__:
                out.append((True, f"- {sofar(d)} must be given if {k} is in"))
        for test, deps in rule.get("specific", {}).items():
            w = v if k in CASED else v.lower()
            on = c.same_text(w, test)
            for d, ref in deps.items():
                if d == "_dimensions":
                    for n, x in ref.items():
                        out.append((c.conj(on, c.neg(c.disj(*[
                            c.eq(dims[n], a) for a in x["value"]]))),
                            f"- Dimension {n} is of size "))
                elif sofar(d) not in sofa.__dict__:
                    out.append((on, f"- {sofar(d)} must be given if {k}"
                                " is "))
                elif ref is not None:
                    out.append((c.conj(on, c.neg(value_ok(
                        c, sofar(d), sofa.__dict__[sofar(d)], ref,
                        unit_ok))), f"- {sofar(d)} is "))
    return out


def check_rules(c, rules, sofa, dims=None, unit_ok=None):
    mode = c.choice("mode", ("read", "write"))
    before = snapshot(c, sofa)
    o = c.must(sofa.verify, issue_handling="return", mode=mode)
    issues = "" if o.value is None else c.plain(o.value)
    vs = violations(c, rules, sofa, dims, unit_ok)
    if mode == "write":
        vs += [(c.neg(c.same_text(v, v.lower())), f"- {k} is ")
               for k, v in before.items() if k.endswith("Units")]
    bad = c.disj(*[v for v, _ in vs])
    found = "violations of the SOFA convention" in issues
    c.check(c.iff(found, bad), "a violation is reported where there is none: "
            + issues if found else "a violation is not reported")
    c.check(found or not issues, "something else is reported: " + issues)
    lines = issues.split("\n")
    named = {}
    for v, line in vs:
        named[line] = c.disj(named.get(line, False), v)
    for line, v in named.items():
        c.check(c.iff(v, any(x.startswith(line) for x in lines)),
                f"'{line}': reported without reason or not reported")
    for x in lines:
        if x.startswith("- "):
            c.check(any(x.startswith(n) for n in named), "an entry is "
                    "reported that no rule is about: " + x)
    check_same(c, before, entries(sofa), "verify")
    c.reach("bad" if found else "good")


def value_case(key, allowed, lengths):
    def value(c):
        rules = {key: {"value": list(allowed)}}
        if key == "GLOBAL:DataType":
            rules[key]["specific"] = {}
        sofa = setup(c, rules)
        c.know(*allowed)
        put(sofa, sofar(key), c.text("value", lengths))
        check_rules(c, rules, sofa)
    value.__doc__ = f"{key} with allowed values {allowed} and every text " \
        f"of lengths {lengths}"
    return value


def convention_name(c):
    """The name of the convention is not among the allowed ones or is so
    with other letter case"""
    allowed = [CONV if c.flag("listed") else CONV.upper()
               if c.flag("upper") else CONV.lower()]
    deps = {"GLOBAL:DataType": ["FIR", "TF"]}
    rules = {"GLOBAL:SOFAConventions": {"value": allowed, "specific": {
        CONV: deps, CONV.lower(): {"A": None, "GLOBAL:XY": None}}}}
    sofa = setup(c, rules)
    put(sofa, "GLOBAL_DataType", c.text("type", (2, 3)))
    check_rules(c, rules, sofa)


def general(c):
    """General dependencies of entries that may be missing"""
    dep = c.choice("dependencies", (
        ("A:Type",), ("A:Type", "A:Units"), ("B", "Data.C:Type"),
        ("GLOBAL:History", "Data.C"), ()))
    key = c.choice("key", ("A", "A:Units", "Data.C:Units", "GLOBAL:Title"))
    rules = {key: {"value": None, "general": list(dep)}}
    back = c.flag("back")
    if back and dep:
        rules[dep[0]] = {"value": None, "general": [key]}
    sofa = setup(c, rules)
    for k in sorted((set(dep) | {key}) - {"GLOBAL:Title"}):
        if c.flag("no " + k):
            for n in (k,) if ":" in k else (k, k + ":Type", k + ":Units"):
                if sofar(n) in sofa.__dict__:
                    drop(sofa, sofar(n))
    check_rules(c, rules, sofa)


def specific_case(key):
    def specific(c):
        rules = {key: {"value": None, "specific": {
            "ab": {"B": None, "B:Type": ["x", "yz"]},
            "cd e": {"Data.C:Type": None, "GLOBAL:Title": ["x"]},
            "ef": {}}}}
        sofa = setup(c, rules)
        c.know("ab", "cd e", "ef")
        put(sofa, sofar(key), c.text("value", (2, 4)))
        for k in ("B", "Data_C_Type", "GLOBAL_Title"):
            if c.flag("no " + k):
                drop(sofa, k)
                if k == "GLOBAL_Title":     # mandatory in the table
                    put(sofa, k, "X")
        if "B" not in sofa.__dict__:
            for k in ("B_Type", "B_Units"):
                drop(sofa, k)
        else:
            if c.flag("no type"):
                drop(sofa, "B_Type")
            else:
                put(sofa, "B_Type", c.text("dependent", (1, 2)))
        check_rules(c, rules, sofa)
    specific.__doc__ = f"Dependencies of the value of {key}"
    return specific


def data_type(c):
    """Dependencies of the data type (case sensitive)"""
    rules = {"GLOBAL:DataType": {"value": ["AB", "CD"], "specific": {
        "AB": {"A": None}, "CD": {"B": None, "GLOBAL:Title": ["x"]},
        "ab": {"Data.C": None}}}}
    sofa = setup(c, rules)
    c.know("AB", "CD", "ab")
    put(sofa, "GLOBAL_DataType", c.text("type", (2,)))
    for k in ("A", "B", "Data_C"):
        if c.flag("no " + k):
            for n in (k, k + "_Type", k + "_Units"):
                drop(sofa, n)
    put(sofa, "GLOBAL_Title", c.text("title", (1,)))
    check_rules(c, rules, sofa)


def dimensions(c):
    """Values that demand dimensions of certain sizes"""
    one = c.choice("dimension", ("M", "R", "N", "E"))
    both = c.flag("two dimensions")
    rules = {"A:Type": {"value": ["ab", "cd"], "specific": {
        "ab": {"_dimensions": {one: {"value": [1, 3], "value_str": "odd"}}},
        "cd": {"_dimensions": {one: {"value": [2], "value_str": "2"}}}}}}
    if both:
        rules["A:Type"]["specific"]["ab"]["_dimensions"]["R"] = {
            "value": [2, 4], "value_str": "even"}
    sofa = setup(c, rules, {
        "EmitterPosition": fixture.dbl([0, 0, 0], "eCI, eCM", "m")})
    c.know("ab", "cd")
    M, R, N, E = (c.size(k) for k in "MRNE")
    sofa.Data_IR = c.array("IR", (M, R, N))
    sofa.Data_Delay = c.array("Delay", (1, R))
    sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    sofa.EmitterPosition = c.array("Emitter", (E, 3))
    sofa.SourcePosition = c.array("Source", (M, 3))
    put(sofa, "A_Type", c.text("type", (2,)))
    check_rules(c, rules, sofa, {"M": M, "R": R, "N": N, "E": E})


def chain(c):
    """Several rules about the same entries"""
    rules = {
        "A:Type": {"value": ["a", "b"], "general": ["A:Units"],
                   "specific": {"a": {"B:Type": ["c"]},
                                "b": {"B:Type": ["c", "d"]}}},
        "B:Type": {"value": ["c", "d", "e"], "general": ["B:Units", "A"],
                   "specific": {"c": {"Data.C": None},
                                "d": {"A:Type": ["b"]}}},
        "A:Units": {"value": None, "general": ["Data.C:Units"]},
    }
    sofa = setup(c, rules)
    for k in ("a", "b", "c", "d", "e"):
        c.know(k)
    put(sofa, "A_Type", c.text("A", (1,)))
    put(sofa, "B_Type", c.text("B", (1,)))
    if c.flag("no A_Units"):
        drop(sofa, "A_Units")
    if c.flag("no C"):
        for k in ("Data_C", "Data_C_Type", "Data_C_Units"):
            drop(sofa, k)
    check_rules(c, rules, sofa)


def rule_text(c):
    """Symbolic texts in the rules themselves"""
    low = ((97, 99),)
    a = c.text("allowed 1", (2,), low)
    b = c.text("allowed 2", (1, 2), low)
    t = c.text("test", (2,), low)
    rules = {"A:Type": {"value": [a, b], "specific": {t: {"B": None}}}}
    sofa = setup(c, rules)
    put(sofa, "A_Type", c.text("value", (1, 2), ((65, 68), (97, 100))))
    if c.flag("no B"):
        for k in ("B", "B_Type", "B_Units"):
            drop(sofa, k)
    check_rules(c, rules, sofa)


def units(c):
    """Dependencies on units, for which aliases are accepted"""
    rules = {"A:Type": {"value": ["ab", "cd"], "general": ["A:Units"],
                        "specific": {"ab": {"A:Units": ["m"]},
                                     "cd": {"A:Units": ["d, m"]}}}}
    aliases = {"m": "m", "k": "m", "d": "d", "e": "d"}
    sofa = setup(c, rules, aliases=aliases)
    c.know("ab", "cd", "m", "k", "d", "e")
    put(sofa, "A_Type", c.text("type", (2,)))
    put(sofa, "A_Units", c.text("units", (1, 3)))
    kind = {"m": ("m", "k"), "d": ("d", "e")}

    def one(v):
        return lambda ref: c.disj(*[c.same_text(v, x) for x in kind[ref]])

    def single(v):
        return one(v)("m") if len(v) == 1 else False

    def pair(v):
        # 'd,m' (the variant with a space is longer)
        return len(v) == 3 and c.conj(one(v[0])("d"), c.same_text(v[1], ","),
                                      one(v[2])("m"))
    t = sofa.A_Type.lower()
    u = sofa.A_Units.lower()
    bad = c.disj(
        c.neg(c.disj(c.same_text(t, "ab"), c.same_text(t, "cd"))),
        c.conj(c.same_text(t, "ab"), c.neg(single(u))),
        c.conj(c.same_text(t, "cd"), c.neg(pair(u))))
    o = c.must(sofa.verify, issue_handling="return", mode="read")
    c.check(c.iff(o.value is not None, bad), "a violation is reported where "
            "there is none" if o.value is not None else
            "a violation is not reported")
    c.reach("good" if o.value is None else "bad")


def official(c):
    """Rules in the form of the official ones"""
    rules = fixture.rules()
    sofa = setup(c, rules)
    c.know("cartesian", "spherical", "spherical harmonics", "metre",
           "degree, degree, metre", "meter")
    R = c.size("R")
    sofa.Data_IR = c.array("IR", (1, R, 2))
    sofa.Data_Delay = c.array("Delay", (1, R))
    sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    t = c.choice("type", ("cartesian", "Cartesian", "spherical", "sphericaL",
                          "spherical harmonics", "SPHERICAL HARMONICS",
                          "spherical harmonic", ""))
    u = c.choice("units", ("metre", "meter", "degree, degree, metre",
                           "degrees,degree,meters", "degree, metre", "m"))
    put(sofa, "ReceiverPosition_Type", t)
    put(sofa, "ReceiverPosition_Units", u)
    room = c.text("room", (3,))
    put(sofa, "GLOBAL_RoomType", room)
    want = {"cartesian": ("metre", "meter")}.get(
        t.lower(), ("degree, degree, metre", "degrees,degree,meters"))
    ok = t.lower() in ("cartesian", "spherical", "spherical harmonics") and \
        u in want
    if t.lower() == "spherical harmonics":
        ok = c.conj(ok, c.disj(*[c.eq(R, (k + 1)**2) for k in range(20)]))
    # 'dae' demands an entry that is not there
    ok = False
    o = c.must(sofa.verify, issue_handling="return", mode="read")
    c.check(c.iff(o.value is None, ok), "rules are not enforced")
    txt = c.plain(o.value)
    c.check(c.iff("- GLOBAL_RoomGeometry must be given" in txt,
                  c.same_text(room.lower(), "dae")), "dependency of the room")
    c.check(("- ReceiverPosition_Units is" in txt) ==
            (t.lower() in ("cartesian", "spherical", "spherical harmonics")
             and u not in want), "units of the receivers")
    c.check(c.iff("- Dimension R" in txt, c.conj(
        t.lower() == "spherical harmonics",
        c.neg(c.disj(*[c.eq(R, (k + 1)**2) for k in range(20)])))),
        "size of R for spherical harmonics")


@also_after("official")
def cases(tier):
    deep = tier == "thorough"
    out = [
        Case("value_type", value_case("A:Type", ["ab", "b", "abc"],
                                      (0, 1, 2, 3))),
        Case("value_room", value_case("GLOBAL:RoomType",
                                      ["free field", "a b"], (3, 10))),
        Case("value_case", value_case("GLOBAL:DataType", ["AB", "cD", "E"],
                                      (1, 2, 3))),
        Case("value_data", value_case("Data.C:Type", ["ab", "a1"],
                                      (0, 2, 4))),
        Case("convention", convention_name), Case("general", general),
        Case("specific", specific_case("A:Type")),
        Case("specific_global", specific_case("GLOBAL:History")),
        Case("data_type", data_type), Case("dimensions", dimensions),
        Case("chain", chain), Case("rule_text", rule_text),
        Case("units", units), Case("official", official),
    ]
    return out
