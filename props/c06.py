"""C06: missing mandatory data."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII
from props.common import *

ASSUMPTIONS = [
    "name and version of the convention are there (without them verify "
    "raises an error that names the missing entry)",
]

FIXED = ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion")


def sofar_name(key):
    return key.replace(":", "_").replace(".", "_")


def newest(name):
    return fixture.TABLES[name + ("_2.0" if name == "GeneralTF" else
                                  "_1.0")][1]


def mandatory(table):
    return [sofar_name(k) for k, v in table.items()
            if v["flags"] and "m" in v["flags"]
            and sofar_name(k) not in FIXED]


def listed(c, text, header):
    """Entries listed below a header."""
    out, on = [], False
    for line in c.plain(text).splitlines():
        if header in line:
            on = True
        elif on and line.startswith("- "):
            out.append(line[2:])
        elif on:
            break
    return out


def same_default(c, value, default):
    if isinstance(default, str):
        return isinstance(value, str) and c.same_text(value, default)
    return c.eq(c.np.squeeze(c.np.asarray(value)).astype("f8"),
                c.np.squeeze(c.np.asarray(default)).astype("f8"))


def check_missing(c, sofa, removed, table, how):
    table = {sofar_name(k): v for k, v in table.items()}
    sofa.protected = False
    for k in removed:
        delattr(sofa, k)
    sofa.protected = True
    before = snapshot(c, sofa)
    o = c.attempt(sofa.verify, issue_handling=how,
                  mode=c.choice("mode", ("read", "write")))
    after = entries(sofa)
    if how == "raise":
        if removed:
            c.check(o.raised(ValueError), "missing data raises no error")
            c.check(sorted(listed(c, o.message, "missing mandatory data"))
                    == sorted(removed), "the error names other entries than "
                    f"the missing ones {sorted(removed)}")
            check_same(c, before, after, "verify changes the object")
            c.reach("raised")
        else:
            c.check(o.ok, "complete objects are rejected: " +
                    c.plain(o.message)[:200])
            check_same(c, before, after, "verify changes the object")
            c.reach("complete")
    else:
        c.check(o.ok, "verify fails: " + c.plain(o.message)[:200])
        text = {"return": o.value, "print": o.text, "ignore": ""}[how]
        text = "" if text is None else text
        c.check(how != "ignore" or (o.value is None and not o.text),
                "something is reported although issues are ignored")
        if how != "ignore":
            c.check(sorted(listed(c, text, "Added mandatory data")) ==
                    sorted(removed), "other entries than the added ones "
                    f"{sorted(removed)} are reported")
        check_same(c, before, {k: v for k, v in after.items()
                               if k not in removed},
                   "verify changes the object")
        for k in removed:
            c.check(k in after, f"{k} is not added")
            c.check(same_default(c, after[k], table[k]["default"]),
                    f"{k} is added with another value than the default")
        c.reach("repaired" if removed else "complete")
    c.check(sofa.protected is True, "the object is not protected")


HOW = ("raise", "return", "print", "ignore")


def subset_case(name, part, parts):
    def subset(c):
        sofa = c.sf.Sofa(name, mandatory=c.flag("mandatory"))
        if "HRIR" in name and hasattr(sofa, "Data_IR"):
            M, R, N = c.size("M"), 2, c.size("N")
            sofa.Data_IR = c.array("IR", (M, R, N))
        sofa.GLOBAL_Title = c.text("title", (2,))
        table = newest(name)
        names = mandatory(table)
        mine = names[part::parts]
        removed = [k for k in mine if c.flag("no " + k)]
        check_missing(c, sofa, removed, table, c.choice("how", HOW))
    subset.__doc__ = f"{name}: all subsets of mandatory entries no. {part} " \
        f"+ k*{parts} removed, all values of issue_handling"
    return subset


def most(c):
    """All but one or two mandatory entries removed, and all"""
    name = c.choice("name", ("SimpleFreeFieldHRIR", "GeneralTF",
                             "SimpleHeadphoneIR"))
    sofa = c.sf.Sofa(name)
    table = newest(name)
    names = mandatory(table)
    i = c.choice("i", range(len(names) + 1))
    j = c.choice("j", range(0, 3))
    keep = {i, i + j}
    removed = [k for n, k in enumerate(names) if n not in keep]
    check_missing(c, sofa, removed, table, c.choice("how", HOW))


def flags(c):
    """Mandatory are exactly the entries with 'm' in the flags; optional
    entries may be missing"""
    dep, t = fixture.conventions()["SimpleFreeFieldHRIR_1.0"]
    t = dict(t)
    t["Foo"] = fixture.dbl([[1, 2, 3]], "IC", None)
    t["Foo:Units"] = fixture.attr("metre")
    fl = [c.choice(f"flags{i}", (None, "m", "r", "rm", "mr", ""))
          for i in range(2)]
    t["Foo"]["flags"], t["Foo:Units"]["flags"] = fl
    c.write_conventions(conv={"SimpleFreeFieldHRIR_1.0": (dep, t)})
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR", verify=False)
    sofa.protected = False
    gone = [k for k in ("Foo", "Foo_Units") if c.flag("no " + k)]
    optional = [k for i, k in enumerate(("Foo", "Foo_Units"))
                if k in gone and not (fl[i] and "m" in fl[i])]
    # attributes need their variable
    c.assume(not ("Foo" in gone and "Foo_Units" not in gone))
    for k in optional:
        delattr(sofa, k)
    c.assume(not ("Foo" in optional and "Foo_Units" in gone and
                  "Foo_Units" not in optional))
    sofa.protected = True
    check_missing(c, sofa, [k for k in gone if k not in optional], t,
                  c.choice("how", HOW))


def defaults(c):
    """Missing entries are added with the default in the table, whatever
    it is"""
    dep, t = fixture.conventions()["SimpleFreeFieldHRIR_1.0"]
    t = dict(t)
    kind = c.choice("kind", ("number", "list", "nested", "text", "string"))
    if kind == "text":
        t["Foo"] = fixture.dbl(1, "I", "m")
        t["Foo:Comment"] = fixture.attr(c.text("default", (0, 2)), "m")
        removed = ["Foo_Comment"]
    elif kind == "string":
        t["Foo"] = fixture.strg(c.text("default", (0, 2)), "IS", "m")
        removed = ["Foo"]
    else:
        x, y, z = (c.real(n) for n in "xyz")
        t["Foo"] = {"number": fixture.dbl(x, "I", "m"),
                    "list": fixture.dbl([x, y, z], "IC", "m"),
                    "nested": fixture.dbl([[x, y, z], [z, y, 1]], "RC",
                                          "m")}[kind]
        removed = ["Foo"]
    c.write_conventions(conv={"SimpleFreeFieldHRIR_1.0": (dep, t)})
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR", verify=False)
    check_missing(c, sofa, removed, t, c.choice("how", HOW))


def cases(tier):
    out = [Case("most", most), Case("flags", flags),
           Case("defaults", defaults)]
    parts = 5 if tier == "thorough" else 6
    for name in ("SimpleFreeFieldHRIR", "GeneralTF") + ((
            "SimpleFreeFieldHRSOS", "SingleRoomMIMOSRIR")
            if tier == "thorough" else ()):
        for p in range(parts):
            out.append(Case(f"subset_{name}_{p}",
                            subset_case(name, p, parts)))
    return out
