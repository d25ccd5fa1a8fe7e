"""C26: information about conventions."""
from functools import partial
from sx import fixture
from sx.run import Case
from sx.env import ALPHA
from props.common import *
from props.c23 import Lines

ASSUMPTIONS = [
    "comments of tables contain no line breaks",
]

PRINT = ((32, 126),)
KINDS = ("all", "mandatory", "optional", "read only", "data")
SETS = (None, "m", "r", "rm", "mr", "")


def table(c, flags=True):
    """Convention with entries of any kind, flags and comments"""
    t = fixture.head("Ab", "1.0", "FIR")
    t.update(fixture.geometry())
    t.update(fixture.fir())
    t["Extra"] = fixture.dbl(
        0, "I, M" if flags else c.choice("dimensions", ("I, M", "IC, MC")),
        c.choice("flags", SETS) if flags else None)
    t["Extra:Note"] = fixture.attr("", c.choice("flags of attribute", SETS)
                                   if flags else None)
    t["Text"] = fixture.strg([""], "MS", c.choice(
        "flags of text", (None, "rm")) if flags else "m")
    if t["Extra"]["dimensions"] == "IC, MC":
        t["Extra"]["default"] = [[0, 0, 0]]
    t["Extra"]["comment"] = c.text("comment of Extra", (2,), PRINT) \
        + c.choice("long", ("", " abcdefghi" * 40 + "j")) \
        if flags else c.text("comment of Extra", (0, 1, 4), PRINT)
    t["Extra:Note"]["comment"] = "x (y), z" if flags else \
        c.text("comment of Extra:Note", (0, 1, 4), PRINT)
    return t


def new(c, flags=True):
    t = table(c, flags)
    c.write_conventions(conv={"Ab_1.0": (False, t)}, rule={})
    sofa = c.sf.Sofa("Ab", verify=False)
    d = {k.replace(":", "_").replace(".", "_"): v for k, v in t.items()}
    if flags:
        return sofa, d
    if c.flag("custom"):
        sofa.add_variable("Foo", 1.0, "double", "MI")
        d["Foo"] = {"type": "double", "dimensions": "MI", "flags": None,
                    "comment": "", "default": None}
    if c.flag("custom attribute"):
        sofa.add_attribute("SourcePosition_Foo", "text")
        d["SourcePosition_Foo"] = {
            "type": "attribute", "dimensions": None, "flags": None,
            "comment": "", "default": None}
    if c.flag("deleted"):
        sofa.delete("Extra_Note")
        del d["Extra_Note"]
    if c.flag("verified"):
        # (the actual dimensions are known)
        c.must(sofa.verify, issue_handling="ignore")
    return sofa, d


def call(c, sofa, *a):
    before = snapshot(c, sofa)
    p = sofa.protected
    o = c.attempt(sofa.info, *a)
    check_same(c, before, entries(sofa), "info")
    c.check(sofa.protected == p, "protection changed")
    return o


def flag(d, x):
    return d["flags"] is not None and x in d["flags"]


def header(c, lines, sofa):
    first = (f"{sofa.GLOBAL_SOFAConventions} "
             f"{sofa.GLOBAL_SOFAConventionsVersion} "
             f"(SOFA version {sofa.GLOBAL_Version})")
    lines.expect(first, "header")
    lines.expect("-" * (len(first) + 1), "line below the header")


def lists(c, flags):
    """All, mandatory, optional, read only entries and data"""
    sofa, d = new(c, flags)
    kind = c.choice("kind", KINDS + ("default",))
    o = call(c, sofa, *(() if kind == "default" else (kind,)))
    kind = "all" if kind == "default" else kind
    c.check(o.ok, f"info fails ({o.kind}: {c.plain(o.message)[:200]})")
    lines = Lines(c, o.text)
    header(c, lines, sofa)
    lines.expect(f"showing {kind} entries : type (shape), flags", "title")
    lines.expect("", "empty line")
    wanted = [k for k in keys_of(sofa) if {
        "all": True, "mandatory": flag(d[k], "m"),
        "optional": not flag(d[k], "m"), "read only": flag(d[k], "r"),
        "data": d[k]["type"] != "attribute"}[kind]]
    c.check(sorted(d) == sorted(keys_of(sofa)), "entries")
    for k in wanted:
        e = d[k]
        x = f"{k} : {e['type']}"
        if e["dimensions"]:
            x += f" ({e['dimensions'].upper()})"
        x += ", mandatory" if flag(e, "m") else ", optional"
        x += ", read only" if flag(e, "r") else ""
        lines.expect(x, f"type, shape and flags of {k}")
        if e["comment"]:
            lines.expect("    " + e["comment"], f"comment of {k}")
    lines.end()
    c.reach(kind)


def one(c, flags):
    """Information about a single entry"""
    sofa, d = new(c, flags)
    keys = keys_of(sofa)
    name = c.choice("name", ("Extra", "Extra_Note", "Text", "GLOBAL_Version",
                             "SourcePosition", "Data_IR", "Foo",
                             "SourcePosition_Foo", "_convention", "Position",
                             "", "Mandatory", "protected", "verify"))
    o = call(c, sofa, name)
    if name not in keys:
        c.check(o.raised(ValueError), "no error for an unknown name")
        c.check(o.text.strip() == "", "text for an unknown name")
        c.reach("unknown")
        return
    c.check(o.ok, f"info fails ({o.kind}: {c.plain(o.message)[:200]})")
    lines = Lines(c, o.text)
    header(c, lines, sofa)
    for k in keys:
        if name not in k:
            continue
        e = d[k]
        lines.expect(k, "name of the entry")
        lines.expect(f"    type: {e['type']}", f"type of {k}")
        lines.expect(f"    mandatory: {flag(e, 'm')}", f"flags of {k}")
        lines.expect(f"    read only: {flag(e, 'r')}", f"flags of {k}")
        lines.expect(f"    default: {e['default']}", f"default of {k}")
        lines.expect(f"    shape: {str(e['dimensions']).upper()}",
                     f"shape of {k}")
        lines.expect("    comment: " + e["comment"], f"comment of {k}")
    lines.end()
    c.reach("known")


def names(c):
    """Any text that is not the name of an entry"""
    sofa = c.sf.Sofa(HRIR)
    name = c.text("name", (0, 1, 4, 7), ALPHA)
    o = call(c, sofa, name)
    known = c.disj(*[c.same_text(name, k)
                     for k in list(keys_of(sofa)) + list(KINDS)])
    c.check(c.iff(known, o.ok), "unknown names are accepted or known ones "
            "are not")
    if not o.ok:
        c.check(o.raised(ValueError), "other error")


def cases(tier):
    return [Case(name, partial(f, flags=flags), bounds=f.__doc__ + (
        ": symbolic flags" if flags else ": symbolic comments, dimensions, "
        "custom and deleted entries")) for name, f, flags in (
        ("lists_flags", lists, True), ("lists_custom", lists, False),
        ("one_flags", one, True), ("one_custom", one, False))] + \
        [Case("names", names)]
