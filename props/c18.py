"""C18: conventions and versions."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, IDENT, ALNUM, ALPHA
from props.common import *

ASSUMPTIONS = [
    "names of conventions consist of letters, versions are numbers with one "
    "or two digits before and one digit after the point, without leading "
    "zeros (like all versions of the conventions repository)",
    "no table exists twice",
]

DIGIT = ((48, 57),)
NONZERO = ((49, 57),)


def version(c, name, major=(1,)):
    n = c.choice(name + " digits", major) if len(major) > 1 else major[0]
    a = c.text(name + " major", (n,), DIGIT,
               first=NONZERO if n > 1 else None)
    return a + "." + c.text(name + " minor", (1,), DIGIT)


def make_table(name, v, mark):
    return {**fixture.head("X", "1.0", "FIR"), **fixture.geometry(),
            **fixture.fir(),
            "GLOBAL:SOFAConventions": {**fixture.attr("X", "rm"),
                                       "default": name},
            "GLOBAL:SOFAConventionsVersion": {**fixture.attr("X", "rm"),
                                              "default": v},
            "GLOBAL:Title": fixture.attr(mark, "m")}


def install(c, tables, order=None):
    """tables: list of (name, version, deprecated)"""
    keys = [n + "_" + v for n, v, _ in tables]
    for i in range(len(keys)):
        for k in range(i):
            if len(keys[i]) == len(keys[k]):
                c.assume(c.neg(c.same_text(keys[i], keys[k])))
    c.write_conventions(conv={
        k: (d, make_table(n, v, f"table {i}"))
        for i, (k, (n, v, d)) in enumerate(zip(keys, tables))})

    def arrange(paths):
        # independent of the names: first in order of the list above
        out = []
        for k in keys:
            for p in paths:
                base = p[p.rindex("/") + 1:]
                if c.same_text(base, k + ".json") is True:
                    out.append(p)
        if order == "reversed":
            out = out[::-1]
        elif order == "rotated":
            out = out[1:] + out[:1]
        return out
    c.listing(arrange)


def marked(sofa):
    return int(sofa.GLOBAL_Title[6:])


ORDERS = ("given", "reversed", "rotated")


def number(c, v):
    """Versions as numbers, independent of float()"""
    major, minor = v[:-2], v[-1:]
    n = 0
    for x in major:
        n = 10 * n + int(x)
    return 10 * n + int(minor)


def latest(c):
    """The highest version is used"""
    n = c.choice("number of versions", (1, 2, 3))
    order = c.choice("order", ORDERS)
    vs = [version(c, f"version {k}",
                  (1, 2) if k < 1 or c.thorough else (1,))
          for k in range(n)]
    tables = [("Ab", v, c.flag(f"deprecated {k}")
               if k < (2 if c.thorough else 1) else False)
              for k, v in enumerate(vs)]
    more = c.choice("other", ("none", "longer name", "shorter name"))
    if more != "none":
        tables.insert(c.choice("position", (0, 1)), (
            "Abc" if more == "longer name" else "A", "99.9", False))
    install(c, tables, order)
    if c.flag("default"):
        o = c.must(c.sf.Sofa, "Ab", verify=False)
    else:
        o = c.must(c.sf.Sofa, "Ab", version="latest", verify=False)
    i = marked(o.value)
    c.check(tables[i][0] == "Ab", "table of another convention")
    mine = number(c, tables[i][1])
    for k, t in enumerate(tables):
        if t[0] == "Ab" and k != i:
            c.check(number(c, t[1]) < mine, "there is a higher version")
    c.check(c.same_text(o.value.GLOBAL_SOFAConventionsVersion,
                        tables[i][1]), "version")


def exact(c):
    """Names and versions match exactly"""
    order = c.choice("order", ORDERS)
    a = c.text("name 1", (1, 2), ALPHA)
    b = c.text("name 2", (2,), ALPHA)
    tables = [(a, version(c, "version 1"), False),
              (b, version(c, "version 2"), c.flag("deprecated")),
              (a, version(c, "version 3"), False)]
    install(c, tables, order)
    name = c.text("requested", (1, 2, 3), ASCII)
    kind = c.choice("version", ("number", "text", "latest"))
    if kind == "number":
        v = version(c, "requested version")
    elif kind == "text":
        v = c.text("requested text", (0, 1, 2, 4))
    else:
        v = "latest"
    o = c.attempt(c.sf.Sofa, name, version=v, verify=False)
    named = [len(n) == len(name) and c.same_text(n, name)
             for n, _, _ in tables]
    if kind == "latest":
        c.check(c.iff(o.ok, c.disj(*named)), "existence of the name")
    else:
        match = [c.conj(x, len(t[1]) == len(v) and c.same_text(t[1], v))
                 for x, t in zip(named, tables)]
        c.check(c.iff(o.ok, c.disj(*match)), "existence of the version"
                if not o.ok else "another version is used")
    if not o.ok:
        c.check(o.raised(ValueError), f"{o.kind} raised")
        c.reach("not found")
        return
    c.reach("found")
    i = marked(o.value)
    c.check(named[i], "table of another convention")
    if kind != "latest":
        c.check(match[i], "table of another version")
    c.check(c.same_text(o.value.GLOBAL_SOFAConventions, name), "name")


def listed(c):
    """Printed list"""
    order = c.choice("order", ORDERS)
    n = c.choice("number", (0, 1, 3))
    tables = []
    for k in range(n):
        tables.append((c.text(f"name {k}", (1, 2), ALPHA),
                       version(c, f"version {k}"), c.flag(f"dep {k}")))
    install(c, tables, order)
    o = c.must(c.sf.list_conventions)
    c.check(o.value is None, "a value is returned")
    lines = o.text.splitlines()
    c.check(len([x for x in lines if x.strip()]) == n + 1,
            "number of listed conventions")
    for name, v, _ in tables:
        line = name + " (Version " + v + ")"
        m = [c.same_text(x, line) for x in lines if len(x) == len(line)]
        c.check(c.disj(*m), "a convention is not listed")
    for x in lines[1:]:
        if x.strip():
            c.check(c.disj(*[c.same_text(x, n + " (Version " + v + ")")
                             for n, v, _ in tables
                             if len(n) + len(v) + 11 == len(x)]),
                    "something else is listed")


def wrong_types(c):
    """Names and versions that are no text"""
    install(c, [("Ab", "1.0", False), ("Ab", "2.0", False)])
    what = c.choice("what", ("number", "list", "empty", "version", "path",
                             "both", "prefix", "version only"))
    name, v = {
        "number": (1, "latest"), "list": (["Ab"], "latest"),
        "empty": ("", "latest"), "version": ("Ab", 3.0),
        "path": ("deprecated/Ab", "1.0"), "both": ("Ab_1.0", "1.0"),
        "prefix": ("A", "latest"), "version only": ("1.0", "1.0")}[what]
    o = c.attempt(c.sf.Sofa, name, version=v, verify=False)
    c.check(not o.ok, "created")
    c.check(o.raised(TypeError if what in ("number", "list")
                     else ValueError), f"{o.kind} raised")


def existing(c):
    """Files and changed objects"""
    order = c.choice("order", ORDERS[:3 if c.thorough else 1])
    tables = [("Ab", version(c, "version 1"), False),
              ("Abc", version(c, "version 2"), True),
              ("Ab", version(c, "version 3"), c.flag("deprecated"))]
    install(c, tables, order)
    name = c.choice("name", ("Ab", "Abc"))
    sofa = c.sf.Sofa(name, verify=False)
    other = c.choice("other", ("Ab", "Abc", "A", "Abcd"))
    v = version(c, "other version")
    sofa.protected = False
    sofa.GLOBAL_SOFAConventions = other
    sofa.GLOBAL_SOFAConventionsVersion = v
    sofa.protected = True
    match = [other == t[0] and c.same_text(v, t[1]) for t in tables]
    exists = c.disj(*match)
    how = c.choice("how", ("missing", "read"))
    if how == "missing":
        o = c.attempt(sofa.add_missing, False, False, False)
    else:
        f = c.path("x.sofa")
        ds = c.nc.Dataset(f, "w", format="NETCDF4")
        for k, val in entries(sofa).items():
            if k.startswith("GLOBAL_"):
                setattr(ds, k[7:], val)
        for d in "MRNECI":
            ds.createDimension(d, 3 if d == "C" else 1)
        ds.close()
        o = c.attempt(c.sf.read_sofa, f, verify=False, verbose=False)
    c.check(c.iff(o.ok, exists), "existence of the version")
    if not o.ok:
        c.check(o.raised(ValueError), f"{o.kind} raised")
        c.reach("not found")
    elif how == "read":
        c.check(c.same_text(o.value.GLOBAL_SOFAConventionsVersion, v),
                "version")


def cases(tier):
    return [Case("latest", latest), Case("exact", exact),
            Case("listed", listed), Case("wrong_types", wrong_types),
            Case("existing", existing)]
