"""C14: custom entries."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, IDENT, ALPHA, ALNUM
from props.common import *
from props.c12 import state, check_state

ASSUMPTIONS = [
    "names consist of letters, digits and underscores and do not start with "
    "an underscore; names of attributes have characters after the underscore",
    "names that are reserved (C07: beginning with API, PRIVATE or GLOBAL, or "
    "names of the convention without or with the prefix GLOBAL_) may be "
    "added but are rejected by verification",
    "values for attributes are texts, values for variables match the "
    "dimensions, and custom dimensions are given by one variable",
]

CONV = "SimpleFreeFieldHRIR"


def is_one_of(c, name, names):
    return c.disj(*[c.same_text(name, n) for n in names
                    if len(n) == len(name)])


def count(c, name, char="_"):
    """The number of underscores, as list of conditions per position"""
    n = 0
    for x in name:
        if c.same_text(x, char):        # (a fork)
            n += 1
    return n


def make(c):
    sofa = c.sf.Sofa(CONV)
    sofa.add_variable("Foo", [1.0, 2.0, 3.0], "double", "IC")
    sofa.add_attribute("Foo_Units", "metre")
    sofa.add_attribute("GLOBAL_Bar", "text")
    return sofa


def variables_of(sofa):
    return [k for k in keys_of(sofa)
            if sofa._convention[k]["type"] != "attribute"]


def reserved(c, name):
    for p in ("API", "PRIVATE"):
        if name[:len(p)] == p:
            return True
    if name[:6] == "GLOBAL" and not name[:7] == "GLOBAL_":
        return True
    short = [k.replace(":", "_").replace(".", "_").replace("GLOBAL_", "")
             for k in fixture.TABLES[CONV + "_1.0"][1]]
    rest = name[7:] if name[:7] == "GLOBAL_" else name
    return bool(is_one_of(c, rest, short)) if len(rest) else False


def rejected(c, sofa, before, o):
    c.check(o.raised(ValueError, TypeError), f"wrong error {o.kind}")
    check_state(c, before, sofa, "rejected entry")
    c.reach("rejected")


def accepted(c, sofa, before, name, value, dtype, dims):
    """The entry is part of the object, of copies and of files"""
    c.check(c.eq(sofa.__dict__[name], value), "another value is stored")
    check_state(c, before, sofa, "added entry", (name,))
    c.check(len(keys_of(sofa)) == len(before[0]) + 1, "more than one entry")
    now = c.must(sofa.copy).value
    c.check(c.eq(now.__dict__[name], value), "not contained in the copy")
    if reserved(c, name):
        c.reach("reserved")
        return
    for s in (sofa, now):
        c.must(s.verify, msg="verification rejects the new entry")
        c.check(c.eq(s.__dict__[name], value), "verification changes it")
    f = c.path("x.sofa")
    c.must(c.sf.write_sofa, f, sofa)
    view = c.file_view(f)
    if dtype != "attribute":
        c.check(is_in(c, name, view.vars), "the variable is not in the file")
    elif name[:7] == "GLOBAL_":
        c.check(is_in(c, name[7:], view.attrs), "not in the file")
    back = c.must(c.sf.read_sofa, f, verbose=False).value
    c.check(c.eq(back.__dict__[name], value), "not contained after reading")
    c.reach("accepted")


def is_in(c, name, names):
    return any(bool(c.same_text(name, n)) for n in names
               if len(n) == len(name))


def variable_case(prefix, lengths):
    def var(c):
        sofa = make(c)
        name = prefix + c.text("name", lengths, IDENT,
                               first=None if prefix else ALNUM)
        kind = c.choice("kind", ("double", "string"))
        if kind == "double":
            v, dims = c.real("value"), "I"
        else:
            v, dims = "text", "IS"
        before = state(c, sofa)
        taken = is_one_of(c, name, keys_of(sofa) + dir(c.sf.Sofa))
        good = c.conj(c.neg(taken), count(c, name) == 0)
        o = c.attempt(sofa.add_variable, name, v, kind, dims)
        c.check(c.iff(o.ok, good), "an illegal name is accepted" if o.ok
                else f"a legal name is rejected: {c.plain(o.message)}")
        if not o.ok:
            rejected(c, sofa, before, o)
        else:
            accepted(c, sofa, before, name, v, kind, dims)
    var.__doc__ = f"Variables '{prefix}' and {lengths} characters"
    return var


def attribute_case(prefix, lengths):
    def attr(c):
        sofa = make(c)
        name = prefix + c.text("name", lengths, IDENT,
                               first=None if prefix else ALNUM)
        if c.flag("no GLOBAL_Bar"):
            sofa.delete("GLOBAL_Bar")
        if c.flag("no SourceUp"):
            sofa.delete("SourceUp")
        v = c.text("value", (0, 2))
        before = state(c, sofa)
        c.assume(c.neg(c.same_text(name[-1], "_")))
        taken = is_one_of(c, name, keys_of(sofa) + dir(c.sf.Sofa))
        n = count(c, name)
        good = n == 1
        if good:
            at = [i for i in range(len(name))
                  if bool(c.same_text(name[i], "_"))][0]
            good = c.disj(c.same_text(name[:at], "GLOBAL"),
                          is_one_of(c, name[:at], variables_of(sofa)))
        good = c.conj(c.neg(taken), good)
        o = c.attempt(sofa.add_attribute, name, v)
        c.check(c.iff(o.ok, good), "an illegal name is accepted" if o.ok
                else f"a legal name is rejected: {c.plain(o.message)}")
        if not o.ok:
            rejected(c, sofa, before, o)
        else:
            accepted(c, sofa, before, name, v, "attribute", None)
    attr.__doc__ = f"Attributes '{prefix}' and {lengths} characters"
    return attr


def dtypes(c):
    """Every dtype, with and without dimensions"""
    sofa = make(c)
    t = c.text("dtype", (6, 7, 9))
    c.know("double", "string", "attribute")
    dims = c.choice("dims", (None, "I", "IS"))
    name = "NewName"
    v = c.choice("value", ("text", 1.0))
    before = state(c, sofa)
    ok = [c.same_text(t, "double"), c.same_text(t, "string")]
    o = c.attempt(sofa.add_variable, name, v, t, dims)
    # (dtype 'attribute' needs an underscore in the name)
    c.check(c.iff(o.ok, c.conj(c.disj(*ok), dims is not None)),
            "illegal type or dimensions are accepted" if o.ok else
            "legal type and dimensions are rejected")
    if not o.ok:
        rejected(c, sofa, before, o)
        return
    c.check(c.eq(sofa.NewName, v), "another value is stored")
    check_state(c, before, sofa, "added entry", (name,))
    if (v == 1.0) != (dims == "I"):
        return      # numbers with dimension S or texts without
    right = c.disj(c.conj(ok[0], v == 1.0, dims == "I"),
                   c.conj(ok[1], v == "text", dims == "IS"))
    o = c.must(sofa.verify, issue_handling="return")
    c.check(c.iff(o.value is None, right), "verification of the new "
            "variable")


def dims_case(ndim_):
    def dims(c):
        """Dimensions, in upper and lower case, standard and custom"""
        sofa = make(c)
        M, R, N = c.size("M"), c.size("R"), c.size("N")
        sofa.Data_IR = c.array("IR", (M, R, N))
        sofa.Data_Delay = c.array("Delay", (1, R))
        sofa.ReceiverPosition = c.array("Receiver", (R, 3))
        size = {"M": M, "R": R, "N": N, "C": 3, "I": 1, "E": 1}
        for k in "CEIMNRPmp":
            c.know(k)
        letters = c.text("dims", (ndim_,), ((67, 67), (69, 69), (73, 73),
                                            (77, 78), (82, 82), (80, 80),
                                            (109, 109), (112, 112)))
        low = []
        for x in letters:
            low.append([k for k in "CEIMNRPmp" if c.same_text(x, k)][0])
        c.assume(sum(k in "pP" for k in low) < 2)
        shape = []
        for i, k in enumerate(low):
            if k in "pP":
                shape.append(c.size("P"))
            else:
                shape.append(c.size(f"n{i}"))
        fits = c.conj(*[c.eq(n, size[k.upper()]) for n, k in
                        zip(shape, low) if k not in "pP"])
        v = c.array("value", tuple(shape))
        before = state(c, sofa)
        o = c.attempt(sofa.add_variable, "NewName", v, "double", letters)
        c.check(o.ok, "legal dimensions are rejected")
        c.check(bool(o.warned) == any(k in "pP" for k in low),
                "warning about custom dimensions")
        c.check(c.eq(sofa.NewName, v), "another value is stored")
        check_state(c, before, sofa, "added entry", ("NewName",))
        o = c.must(sofa.verify, issue_handling="return")
        c.check(c.iff(o.value is None, fits), "verification with the new "
                "variable")
        if o.value is not None:
            return
        if any(k in "pP" for k in low):
            n = c.must(sofa.get_dimension, "P").value
            at = [i for i, k in enumerate(low) if k in "pP"][0]
            c.check(c.eq(n, shape[at]), "size of the custom dimension")
        f = c.path("x.sofa")
        c.must(c.sf.write_sofa, f, sofa)
        x = c.file_view(f).vars["NewName"]
        c.check(list(x.dims) == [k.upper() for k in low],
                "dimensions in the file")
        c.check(c.eq(x.data, v), "values in the file")
        c.reach("written")
    return dims


def deep_dims(c):
    """Custom variables of five and six dimensions with any sizes"""
    sofa = make(c)
    M, R, N = c.size("M"), c.size("R"), c.size("N")
    sofa.Data_IR = c.array("IR", (M, R, N))
    sofa.Data_Delay = c.array("Delay", (1, R))
    sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    dims = c.choice("dims", DEEP)
    sizes = {"M": M, "R": R, "N": N, "C": 3, "I": 1}
    at = c.choice("changed axis", range(len(dims)))
    v = deep_variable(c, dict(sizes), dims)
    shape = list(v.shape) + [1] * (len(dims) - len(v.shape))
    shape[at] = c.size("other")
    v = c.array("W", tuple(shape))
    before = state(c, sofa)
    c.must(sofa.add_variable, "NewName", v, "double", dims)
    c.check(c.eq(sofa.NewName, v), "another value is stored")
    check_state(c, before, sofa, "added entry", ("NewName",))
    fits = dims[at] not in sizes or c.eq(shape[at], sizes[dims[at]])
    o = c.must(sofa.verify, issue_handling="return")
    c.check(c.iff(o.value is None, fits), "verification with the new "
            "variable")
    if o.value is not None:
        c.reach("wrong")
        return
    for k, n in zip(dims, shape):
        c.check(c.eq(c.must(sofa.get_dimension, k).value, n),
                f"size of dimension {k}")
    f = c.path("x.sofa")
    c.must(c.sf.write_sofa, f, sofa)
    x = c.file_view(f).vars["NewName"]
    c.check(list(x.dims) == list(dims), "dimensions in the file")
    c.check(c.eq(x.data, v), "values in the file")
    back = c.must(c.sf.read_sofa, f, verbose=False).value
    c.check(c.eq(c.np.squeeze(back.NewName), c.np.squeeze(v)),
            "values after reading")
    c.reach("written")


def long_names(c):
    """Long names, texts, and names that differ at the end only"""
    sofa = make(c)
    n = c.choice("length", (31, 64, 200))
    name = "Ab" * (n // 2) + c.text("end", (1, 2), ((97, 100),))
    other = "Ab" * (n // 2) + "d"
    c.know(other)
    same = c.same_text(name, other)
    c.must(sofa.add_variable, other, 1.0, "double", "I")
    o = c.attempt(sofa.add_variable, name, 2.0, "double", "I")
    c.check(c.iff(o.ok, c.neg(same)), "names are compared wrongly")
    c.check(c.eq(sofa.__dict__[other], 1.0), "the other value changes")
    t = "Cd" * (n // 2)
    c.must(sofa.add_attribute, other + "_" + t, "text 1")
    c.must(sofa.add_attribute, "GLOBAL_" + other, t * 20 + "text 2")
    s = c.must(sofa.copy).value
    f = c.path("x.sofa")
    c.must(c.sf.write_sofa, f, sofa)
    back = c.must(c.sf.read_sofa, f, verbose=False).value
    for x in (sofa, s, back):
        if o.ok:
            c.check(c.eq(x.__dict__[name], 2.0), "another value")
        c.check(c.eq(x.__dict__[other], 1.0), "another value")
        c.check(x.__dict__[other + "_" + t] == "text 1", "another text")
        c.check(x.__dict__["GLOBAL_" + other] == t * 20 + "text 2",
                "another text")
    c.reach("end")


def letter(c):
    """A warning is given exactly for dimensions that are not standard"""
    sofa = make(c)
    d = c.text("dims", (1,), ALPHA)
    c.know(*"CEIMNRScmenir")
    standard = c.disj(*[c.same_text(d.upper(), x) for x in "CEIMNRS"])
    o = c.must(sofa.add_variable, "NewName", 1.0, "double", d)
    c.check(c.iff(bool(o.warned), c.neg(standard)),
            "warning about custom dimensions")
    if not o.warned:
        c.reach("standard")
        return
    n = c.must(sofa.get_dimension, d.upper()).value
    c.check(c.eq(n, 1), "size of the custom dimension")
    c.reach("custom")


def strings(c):
    """String variables"""
    sofa = make(c)
    M = c.size("M", 1, 3)
    sofa.Data_IR = c.array("IR", (M, 2, 2))
    n = c.size("n", 1, 3)
    v = c.texts("value", (n, 1), (0, 1, 2))
    before = state(c, sofa)
    d = c.choice("dims", ("MS", "ms", "IS", "QS"))
    if d[0] in "qQ":
        n_ok = True
    else:
        n_ok = c.eq(n, M) if d[0] in "mM" else c.eq(n, 1)
    c.must(sofa.add_variable, "Texts", v, "string", d)
    c.check(c.eq(sofa.Texts, v), "another value is stored")
    check_state(c, before, sofa, "added entry", ("Texts",))
    o = c.must(sofa.verify, issue_handling="return")
    c.check(c.iff(o.value is None, n_ok), "verification of the new texts: " +
            c.plain(o.value or ""))
    if o.value is not None:
        return
    c.must(sofa.add_attribute, "Texts_Language", "English")
    f = c.path("x.sofa")
    c.must(c.sf.write_sofa, f, sofa)
    back = c.must(c.sf.read_sofa, f, verbose=False).value
    c.check(c.eq(back.Texts_Language, "English"), "attribute of the texts")
    got = back.Texts
    want = [v[i, 0] for i in range(c.concrete(n))]
    got = [got] if isinstance(got, str) else list(got.flatten())
    c.check(len(got) == len(want) and c.conj(*[
        c.same_text(a, b) for a, b in zip(got, want)]),
        "the texts after reading")


def values(c):
    """Values that can not be stored"""
    sofa = make(c)
    before = state(c, sofa)
    bad = c.choice("value", ([[1, 2], [3]], [[1], [2, 3]], [[[1]], [2, 3]]))
    o = c.attempt(sofa.add_variable, "NewName", bad, "double",
                  c.choice("dims", ("MR", "pq", "IC")))
    c.check(not o.ok, "accepted")
    check_state(c, before, sofa, "rejected entry")
    c.check("NewName" not in sofa.__dict__, "rejected entry is stored")
    v = c.real("value 2")
    c.must(sofa.add_variable, "NewName", v, "double", "I",
           msg="the name can not be used after a rejected call")
    c.check(c.eq(sofa.NewName, v), "another value is stored")
    c.must(sofa.verify)


def sequence(c):
    """Sequences of additions"""
    sofa = c.sf.Sofa(CONV)
    have = set(keys_of(sofa))
    names = (("A", 1), ("B", 1), ("A_x", 0), ("B_x", 0), ("GLOBAL_A", 0),
             ("Data_IR_x", 0), ("Data_A", 1))
    for k in range(3):
        n, var = c.choice(f"name {k}", names)
        before = state(c, sofa)
        if var:
            good = "_" not in n and n not in have
            o = c.attempt(sofa.add_variable, n, float(k), "double", "I")
        else:
            v = n[:n.rindex("_")]
            good = n not in have and n.count("_") == 1 and \
                (v == "GLOBAL" or v in have)
            o = c.attempt(sofa.add_attribute, n, str(k))
        c.check(o.ok == good, f"{n}: accepted" if o.ok else f"{n}: rejected")
        if o.ok:
            have.add(n)
            c.check(c.eq(sofa.__dict__[n], float(k) if var else str(k)),
                    "another value")
            check_state(c, before, sofa, "added", (n,))
        else:
            rejected(c, sofa, before, o)
    c.check(set(keys_of(sofa)) == have, "entries")
    c.must(sofa.verify)
    f = c.path("x.sofa")
    c.must(c.sf.write_sofa, f, sofa)
    back = c.must(c.sf.read_sofa, f, verbose=False).value
    c.check(set(keys_of(back)) == have, "entries after reading")
    for n in have:
        if n in ("A", "B", "A_x", "B_x", "GLOBAL_A"):
            c.check(c.eq(back.__dict__[n], sofa.__dict__[n]), "values")


def cases(tier):
    deep = tier == "thorough"
    n = (0, 1, 2, 3) if deep else (0, 1, 2)
    out = [Case("var_" + p, variable_case(p, n))
           for p in ("Data_", "SourceU", "Fo", "Foo", "API", "GLOBAL",
                     "Titl", "cop")]
    out.append(Case("var", variable_case("", n[1:])))
    # at least one character after the underscore
    out += [Case("attr_" + p, attribute_case(p, n[1:] if p.endswith("_")
                                             else n))
            for p in ("GLOBAL_", "GLOBAL", "GLOBAL_Ba", "SourcePosition_Unit",
                      "SourcePosition_", "SourceUp_", "SourcePosition", "Foo",
                      "Foo_", "Fo", "Data_IR_", "Data_", "Nowhere_",
                      "Nowhere", "Foo_Units_", "GLOBALX_", "GLOBALFoo_")]
    out.append(Case("attr", attribute_case("", n[1:])))
    out += [Case("dtypes", dtypes), Case("letter", letter),
            Case("deep", deep_dims), Case("long_names", long_names), Case("strings", strings),
            Case("values", values), Case("sequence", sequence)]
    out += [Case(f"dims_{k}", dims_case(k)) for k in
            ((1, 2, 3) if deep else (1, 2))]
    return out
