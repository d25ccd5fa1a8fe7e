"""C11: ways of issue handling."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, ALPHA
from props.common import *

ASSUMPTIONS = [
    "name and version of the convention are those of an existing convention",
    "missing mandatory data are an error for 'raise' and are otherwise added "
    "with a warning (documented), so the comparison is made with the object "
    "to which they were added",
    "the order of the printed parts and the line breaks around them are "
    "arbitrary",
]

CONV = "SimpleFreeFieldHRIR"
HANDLING = ("raise", "print", "return", "ignore")


def table(version="1.0", bad_type=False):
    t = {**fixture.head(CONV, version, "FIR"), **fixture.geometry(),
         **fixture.fir(),
         "A": fixture.dbl(1, "I", None),
         "A:Units": fixture.attr("m", None),
         "A:Type": fixture.attr("t", None),
         "Texts": fixture.strg([""], "MS", None)}
    if bad_type:
        t["Wrong"] = {**fixture.dbl(1, "I", None), "type": "float"}
    return t


ALIASES = {"m": "m", "k": "m"}
RULES = {"A:Units": {"value": ["m"]},
         "A:Type": {"value": ["t", "u"], "general": ["A:Units"],
                    "specific": {"u": {"GLOBAL:Nowhere": None,
                                       "_dimensions": {"R": {
                                           "value": [3], "value_str": "3"}}}}}}


def apply(c, sofa, what, n):
    sofa.protected = False
    if what == "shape":
        a = c.size(f"a{n}", 1, 3)
        b = c.size(f"b{n}", 1, 3)
        sofa.Data_Delay = c.array(f"delay{n}", (a, b))
    elif what == "unit":
        sofa.A_Units = c.text(f"unit{n}", (1,))
    elif what == "type":
        sofa.A_Type = c.text(f"type{n}", (1,))
    elif what == "wrong type":
        sofa.GLOBAL_Title = 1.0
    elif what == "wrong types":
        sofa.ListenerPosition = ["a"]
        sofa.Texts = 1
    elif what == "missing":
        for k in ("GLOBAL_RoomType", "ListenerPosition"):
            if hasattr(sofa, k):
                delattr(sofa, k)
    elif what == "missing attribute":
        if hasattr(sofa, "SourcePosition_Units"):
            del sofa.SourcePosition_Units
    elif what == "orphan":
        if hasattr(sofa, "A"):
            del sofa.A
    elif what == "dependency":
        if hasattr(sofa, "A_Units"):
            del sofa.A_Units
    elif what == "strings":
        sofa.Texts = c.texts(f"texts{n}", (c.size(f"t{n}", 1, 3), 1), (1,))
    sofa.protected = True


WHAT = ("none", "shape", "unit", "type", "wrong type", "wrong types",
        "missing", "missing attribute", "orphan", "dependency", "strings")
HEAD_E, HEAD_W = "\nERRORS\n------\n", "\nWARNINGS\n--------\n"


def agree(c, sofa, mode):
    had = snapshot(c, sofa)
    missing = [k for k in ("GLOBAL_RoomType", "ListenerPosition",
                           "SourcePosition_Units") if k not in had]
    out, objs = {}, {}
    for h in HANDLING:
        objs[h] = sofa.copy()
        out[h] = c.attempt(objs[h].verify, issue_handling=h, mode=mode)
    default = c.attempt(sofa.copy().verify, mode=mode)
    r = out["raise"]
    # -- silent ones
    for h in ("print", "return", "ignore"):
        c.check(out[h].ok, f"'{h}' raises {out[h].kind}: "
                f"{c.plain(out[h].message)[:200]}")
        c.check(not out[h].warnings, f"'{h}' warns: {c.plain(out[h].warned)[:300]}")
    for h in ("raise", "print", "ignore"):
        if out[h].ok:
            c.check(out[h].value is None, f"'{h}' returns something")
    for h in ("raise", "return", "ignore"):
        c.check(len(out[h].text) == 0, f"'{h}' prints")
    c.check(r.ok or r.raised(ValueError), f"'raise' raises {r.kind}")
    c.check(default.kind == r.kind and default.value is None and
            c.conj(c.same_text(default.message, r.message),
                   c.same_text(default.warned, r.warned)),
            "'raise' is not the default")
    # -- 'raise' is the reference
    if missing:
        c.check(not r.ok, "'raise' does not raise for missing data")
        msg = c.plain(r.message)
        c.check("missing mandatory" in msg, "missing data are not named")
        for k in missing:
            c.check(f"- {k}\n" in msg, f"{k} is not named")
            c.check(k not in objs["raise"].__dict__, f"'raise' adds {k}")
            for h in HANDLING[1:]:
                c.check(k in objs[h].__dict__, f"'{h}' does not add {k}")
        got = c.plain(out["return"].value or "")
        c.check("WARNINGS" in got and all(f"- {k}\n" in got for k in missing),
                "added data are not reported")
        # the remaining issues are those of the completed object
        full = objs["return"].copy()
        r = c.attempt(full.verify, mode=mode)
        add = "Added mandatory data with default values:\n" + \
            "".join(f"- {k}\n" for k in full._convention if k in missing)
        W = (r.warned if r.warnings else HEAD_W) + ""
        W = HEAD_W + add + W[len(HEAD_W):]
    else:
        for h in HANDLING:
            check_same(c, had, entries(objs[h]), f"'{h}'")
        W = r.warned if r.warnings else None
    E = None if r.ok else r.message
    ret = out["return"].value
    if E is None and W is None:
        c.check(ret is None, "'return' reports issues where there are none")
        c.check(len(out["print"].text) == 0, "'print' prints without issues")
        c.reach("no issues")
        return
    c.check(ret is not None, "'return' misses the issues")
    shown = out["print"].text
    for x, name in ((E, "errors"), (W, "warnings")):
        if x is None:
            continue
        c.check(c.plain(x).strip() in c.plain(ret), f"'return' misses {name}")
        c.check(c.plain(x).strip() in c.plain(shown), f"'print' misses {name}")
    for got, name in ((ret, "return"), (shown, "print")):
        c.check(c.disj(*[c.same_text(clean(a), clean(got)) for a in
                         ([E or W] if E is None or W is None else
                          [E + "\n" + W, W + "\n" + E])]),
                f"'{name}': not exactly the messages")
    c.reach(f"errors {E is not None} warnings {W is not None}")


def clean(s):
    """Without line breaks (they are never symbolic in these cases)."""
    return "".join([x for x in s if not (isinstance(x, str) and x == "\n")])


def pairs(first):
    def pair(c):
        mode = c.choice("mode", ("write", "read"))
        how = c.flag("deprecated")
        v = c.choice("version", ("1.0", "0.9"))
        c.write_conventions(
            conv={f"{CONV}_{v}": (how, table(v)),
                  "Other_1.0": (False, table())},
            aliases=ALIASES, rule=RULES,
            depr={"GLOBAL:SOFAConventions": {CONV: "Other"} if how else {}})
        o = c.attempt(c.sf.Sofa, CONV, version=v, verify=False)
        sofa = o.value
        sofa.A_Type = "t"
        c.know("t", "u", "m", "k")
        apply(c, sofa, first, 1)
        apply(c, sofa, c.choice("second", WHAT), 2)
        agree(c, sofa, mode)
    pair.__doc__ = f"Objects with problem '{first}' and any other problem"
    return pair


def names(c):
    """Illegal names and types of tables"""
    k = c.choice("name", ("A_B", "Data_A_B", "PRIVATEA", "GLOBALA", "OK"))
    t = table(bad_type=c.flag("bad type"))
    t[k] = fixture.dbl(1, "I", None)
    c.write_conventions(conv={CONV + "_1.0": (False, t)}, aliases=ALIASES,
                        rule=RULES, depr={"GLOBAL:SOFAConventions": {}})
    sofa = c.sf.Sofa(CONV, verify=False)
    sofa.A_Type = "t"
    apply(c, sofa, c.choice("second", ("none", "shape", "unit", "missing")),
          1)
    agree(c, sofa, "write")


def inspects(c):
    """Sofa.inspect hands the issues over like verify"""
    v = c.choice("version", ("1.0", "0.9"))
    c.write_conventions(
        conv={f"{CONV}_{v}": (False, table(v))}, aliases=ALIASES,
        rule=RULES, depr={"GLOBAL:SOFAConventions": {}})
    sofa = c.attempt(c.sf.Sofa, CONV, version=v, verify=False).value
    sofa.A_Type = "t"
    c.know("t", "u", "m", "k")
    apply(c, sofa, c.choice("problem", (
        "none", "shape", "unit", "wrong type", "missing")), 1)
    h = c.choice("handling", HANDLING + ("default",))
    kw = {} if h == "default" else {"issue_handling": h}
    h = "print" if h == "default" else h
    a = c.attempt(sofa.copy().verify, issue_handling=h)
    b = c.attempt(sofa.copy().inspect, **kw)
    c.check(a.kind == b.kind, f"'{h}': inspect raises {b.kind} and verify "
            f"raises {a.kind} {c.plain(b.message)[:200]}")
    c.check(c.conj(c.same_text(a.message, b.message),
                   c.same_text(a.warned, b.warned)),
            f"'{h}': inspect and verify report different issues")
    if b.ok:
        c.check(b.value is None, "inspect returns something")
        n = len(a.text)
        c.check(c.same_text(b.text[:n], a.text), f"'{h}': inspect and verify "
                "print different issues")
        txt = c.plain(b.text[n:])
        c.check(txt.startswith(f"{CONV} {v} (SOFA version"),
                "the summary is not printed")
        c.check(("ERRORS" in c.plain(b.text)) ==
                (h == "print" and "ERRORS" in c.plain(a.text)),
                "issues are printed twice")


def many(c):
    """Many issues of different kinds at once"""
    how = c.flag("deprecated")
    c.write_conventions(
        conv={CONV + "_1.0": (how, table()), "Other_1.0": (False, table())},
        aliases=ALIASES, rule=RULES,
        depr={"GLOBAL:SOFAConventions": {CONV: "Other"} if how else {}})
    sofa = c.attempt(c.sf.Sofa, CONV, version="1.0", verify=False).value
    kinds = c.choice("kinds", ("shape", "type", "both", "missing"))
    n = c.size("n")
    for i in range(150):
        sofa.add_variable(
            f"PRIVATE{i}", c.array("V", (n, 3)) if i == 149 else 1.0,
            "double", "IC" if kinds in ("shape", "both") else "I")
    if kinds == "type":
        for i in range(150):
            sofa.__dict__[f"PRIVATE{i}"] = "text"
    elif kinds == "both":
        sofa.protected = False
        sofa.GLOBAL_Title = 1.0
        sofa.A_Units = c.text("unit", (1,))
        del sofa.GLOBAL_RoomType
        sofa.protected = True
    elif kinds == "missing":
        sofa.protected = False
        for k in ("GLOBAL_RoomType", "ListenerPosition",
                  "SourcePosition_Units"):
            delattr(sofa, k)
        sofa.protected = True
    agree(c, sofa, c.choice("mode", ("write", "read")))


def unknown(c):
    """Symbolic names of entries of wrong type and missing entries"""
    k = c.text("title", (1, 2), ALPHA)
    t = table()
    t["GLOBAL:" + k] = fixture.attr("x", "m")
    c.assume(c.neg(c.disj(*[c.same_text("GLOBAL_" + k, n.replace(":", "_"))
                            for n in table()])))
    c.write_conventions(conv={CONV + "_1.0": (False, t)}, aliases=ALIASES,
                        rule=RULES, depr={"GLOBAL:SOFAConventions": {}})
    sofa = c.sf.Sofa(CONV, verify=False)
    sofa.A_Type = "t"
    if c.flag("wrong"):
        setattr(sofa, "GLOBAL_" + k, 1.0)
    agree(c, sofa, "write")


def cases(tier):
    return [Case("pair_" + w.replace(" ", "_"), pairs(w)) for w in WHAT] + \
        [Case("names", names), Case("inspect", inspects),
         Case("many", many),
         Case("symbolic_name", unknown)]
