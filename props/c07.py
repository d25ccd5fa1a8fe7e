"""C07: naming rules."""
from sx import fixture
from sx.run import Case
from sx.env import IDENT, ALNUM, ALPHA
from props.common import *

ASSUMPTIONS = [
    "names consist of ASCII letters, digits and underscores and do not "
    "start with an underscore",
]

CONV = "SimpleFreeFieldHRIR"


def plain_names():
    """Names of the convention without the prefix GLOBAL_"""
    out = []
    for k in fixture.TABLES[CONV + "_1.0"][1]:
        k = k.replace(":", "_").replace(".", "_")
        out.append(k[7:] if k.startswith("GLOBAL_") else k)
    return out


def has_underscore(c, name):
    return c.disj(*[c.same_text(x, "_") for x in name]) if len(name) else \
        False


def starts(c, name, prefix):
    return len(name) >= len(prefix) and \
        c.same_text(name[:len(prefix)], prefix)


def is_one_of(c, name, names):
    return c.disj(*[c.same_text(name, n) for n in names
                    if len(n) == len(name)])


def variable_ok(c, name):
    data = starts(c, name, "Data_")
    rest = c.disj(c.conj(data, c.neg(has_underscore(c, name[5:]))),
                  c.conj(c.neg(data), c.neg(has_underscore(c, name))))
    return c.conj(rest, c.neg(starts(c, name, "PRIVATE")),
                  c.neg(starts(c, name, "API")),
                  c.neg(starts(c, name, "GLOBAL")),
                  c.neg(is_one_of(c, name, plain_names())))


def base_file(c):
    f = c.path("a.sofa")
    sofa = c.sf.Sofa(CONV)
    sofa.add_variable("Foo", 1.0, "double", "I")
    c.must(c.sf.write_sofa, f, sofa)
    return f, keys_of(sofa)


def variable(ds, name):
    v = ds.createVariable(name, "f8", ("I",))
    v[:] = 1.0
    return v


def check_names(c, sofa, good, name):
    o = c.must(sofa.verify, issue_handling="return", mode="read")
    issues = "" if o.value is None else c.plain(o.value)
    bad = "ERRORS" in issues
    c.check(c.iff(bad, c.neg(good)), "a legal name is rejected: " + issues
            if bad else "an illegal name is accepted")
    if bad:
        # other violations are not reported
        for h in ("wrong type", "wrong shape", "violations of the SOFA"):
            c.check(h not in issues, "something else is reported")
        o = c.attempt(sofa.verify, mode="read")
        c.check(o.raised(ValueError), "illegal names raise no error")
    c.reach("illegal" if bad else "legal")


def fresh(c, key, names):
    """The name is not that of an entry of the file or of the class."""
    c.assume(c.neg(is_one_of(c, key, list(names) + dir(c.sf.Sofa))))


def variable_case(prefix, lengths):
    def var(c):
        f, names = base_file(c)
        t = c.text("name", lengths, IDENT, first=None if prefix else ALNUM)
        name = prefix + t
        key = name.replace(".", "_")
        fresh(c, key, names)
        ds = c.nc.Dataset(f, "a")
        variable(ds, name)
        ds.close()
        sofa = c.must(c.sf.read_sofa, f, False, False).value
        check_names(c, sofa, variable_ok(c, key), key)
    var.__doc__ = f"Variables named '{prefix}' and up to {max(lengths)} " \
        "characters"
    return var


def attribute_case(var, prefix, lengths):
    def attr(c):
        f, names = base_file(c)
        t = c.text("name", lengths, IDENT, first=None if prefix else ALNUM)
        name = prefix + t
        ds = c.nc.Dataset(f, "a")
        key = var.replace(".", "_") + "_" + name
        fresh(c, key, names)
        ds[var].setncattr(name, "text")
        ds.close()
        sofa = c.must(c.sf.read_sofa, f, False, False).value
        good = c.conj(c.neg(has_underscore(c, name)),
                      c.neg(is_one_of(c, key, plain_names())))
        check_names(c, sofa, good, key)
    attr.__doc__ = f"Attributes of {var} named '{prefix}' and up to " \
        f"{max(lengths)} characters"
    return attr


def global_case(prefix, lengths):
    def glob(c):
        f, names = base_file(c)
        t = c.text("name", lengths, IDENT, first=None if prefix else ALPHA)
        name = prefix + t
        fresh(c, "GLOBAL_" + name, names)
        ds = c.nc.Dataset(f, "a")
        ds.setncattr(name, "text")
        ds.close()
        sofa = c.must(c.sf.read_sofa, f, False, False).value
        good = c.neg(is_one_of(c, name, plain_names()))
        check_names(c, sofa, good, "GLOBAL_" + name)
    glob.__doc__ = f"Global attributes named '{prefix}' and up to " \
        f"{max(lengths)} characters"
    return glob


def orphans(c):
    """Attributes whose variable is missing, optional or custom"""
    dep, t = fixture.conventions()[CONV + "_1.0"]
    t = dict(t)
    t["Foo"] = fixture.dbl(1, "I", None)
    t["Foo:Comment"] = fixture.attr("text", None)
    t["Data.Foo"] = fixture.dbl(1, "I", None)
    t["Data.Foo:Comment"] = fixture.attr("text", None)
    c.write_conventions(conv={CONV + "_1.0": (dep, t)})
    sofa = c.sf.Sofa(CONV)
    sofa.add_variable("Bar", 1.0, "double", "I")
    sofa.add_attribute("Bar_Comment", "text")
    good = True
    for v in ("Foo", "Data_Foo", "Bar"):
        if c.flag("no " + v):
            sofa.delete(v)
            if c.flag("keep " + v):
                good = False
            else:
                sofa.delete(v + "_Comment")
    o = c.must(sofa.verify, issue_handling="return", mode="read")
    c.check((o.value is None) == good, "attributes without variable are "
            "accepted" if o.value is None else "legal attributes are "
            "rejected")
    c.reach("legal" if good else "illegal")


def two(c):
    """Attributes with the names of attributes of the same variable"""
    f, names = base_file(c)
    ds = c.nc.Dataset(f, "a")
    ds["Foo"].setncattr("a", "text")
    t = c.text("name", (1, 2, 3), ((97, 98), (95, 95)), first=((97, 98),))
    c.assume(c.neg(c.same_text(t, "a")))
    ds["Foo"].setncattr(t, "text")
    ds.close()
    sofa = c.must(c.sf.read_sofa, f, False, False).value
    check_names(c, sofa, c.neg(has_underscore(c, t)), t)


def table_names(c):
    """Tables with illegal names"""
    name, good = c.choice("name", (
        ("Foo", True), ("PRIVATEFoo", False), ("APIFoo", False),
        ("GLOBALFoo", False), ("Data.Foo", True), ("Data.A.B", False),
        ("A.B", False), ("PrivateFoo", True), ("Api", True),
        ("FooData.X", False), ("Data.Data.X", False), ("FooGLOBAL", True)))
    dep, t = fixture.conventions()[CONV + "_1.0"]
    t = dict(t)
    t[name] = fixture.dbl(1, "I", None)
    if c.flag("units"):
        t[name + ":Comment"] = fixture.attr("text", None)
    c.write_conventions(conv={CONV + "_1.0": (dep, t)})
    sofa = c.sf.Sofa(CONV, verify=False)
    o = c.must(sofa.verify, issue_handling="return", mode="read")
    c.check((o.value is None) == good, "an illegal name is accepted"
            if o.value is None else "a legal name is rejected")


def reuse(c):
    """Custom entries with names of the convention (the table has changed
    since they were added)"""
    dep, t = fixture.conventions()[CONV + "_1.0"]
    full = dict(t)
    names = ("SourceUp", "GLOBAL_History")
    c.write_conventions(conv={CONV + "_1.0": (dep, full)})
    sofa = c.sf.Sofa(CONV)
    k = c.choice("key", names)
    sofa.delete(k)
    if k == "SourceUp":
        sofa.add_variable(k, [1, 2, 3], "double", "IC")
    else:
        sofa.add_attribute(k, "text")
    o = c.must(sofa.verify, issue_handling="return", mode="read")
    c.check(o.value is None, "entries of the convention that were added "
            "again are rejected")


@also_after("two", "attr_units")
def cases(tier):
    deep = tier == "thorough"
    n = (0, 1, 2, 3) if deep else (0, 1, 2)
    out = []
    for p in ("Bar", "Data.", "Data_", "Dat", "GLOBAL", "GLOBAL_", "GLOBA",
              "PRIVATE", "PRIVAT", "API", "AP", "FooData_", "Data.Data_",
              "Titl", "SourceU", "DataTyp", "Source", "X"):
        out.append(Case("var_" + p, variable_case(p, n)))
    out.append(Case("var", variable_case("", n[1:])))
    for v in ("Foo", "SourceUp", "Data.IR"):
        out.append(Case("attr_" + v, attribute_case(v, "", n[1:])))
        for p in ("API", "GLOBAL", "Data_", "PRIVATE"):
            out.append(Case(f"attr_{v}_{p}", attribute_case(v, p, n[:2])))
    out.append(Case("attr_units", attribute_case("SourcePosition", "Unit",
                                                 (1, 2))))
    for p in ("", "API", "SourceU", "Titl", "ReceiverPosition_Unit", "Data_I",
              "PRIVATE", "GLOBAL_", "Data_"):
        out.append(Case("global_" + p, global_case(p, n if p else n[1:])))
    out += [Case("orphans", orphans), Case("two", two),
            Case("table_names", table_names), Case("reuse", reuse)]
    return out
