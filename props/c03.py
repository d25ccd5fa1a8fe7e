"""C03: reading returns what is in the file."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, WIDE, ALPHA, ALNUM
from props.common import *

ASSUMPTIONS = [
    "texts contain no NUL characters (the file format pads with them)",
    "values are not equal to the fill value unless they are missing",
    "names in files do not collide with names of methods of Sofa objects, "
    "and two variables do not get the same name in the object",
]


class Builder:
    """Writes a file and keeps what read_sofa has to return."""

    def __init__(self, c, name="a.sofa"):
        self.c, self.path = c, c.path(name)
        self.f = c.nc.Dataset(self.path, "w", format="NETCDF4")
        self.entries, self.dims = {}, {}

    def attr(self, name, value):
        self.f.setncattr(name, value)
        self.entries["GLOBAL_" + name] = value

    def dim(self, **kw):
        for k, v in kw.items():
            self.f.createDimension(k, v)
            self.dims[k] = v

    def var(self, name, value, dims, dtype="f8", more=(), **attrs):
        v = self.f.createVariable(name, dtype, tuple(dims))
        v[:] = value
        key = name.replace(".", "_")
        self.entries[key] = value
        for a, b in list(attrs.items()) + list(more):
            v.setncattr(a, b)
            self.entries[key + "_" + a] = b

    def string(self, name, texts, dims, width, encoding=None, **attrs):
        """texts: nested list of rows of texts with at most width chars"""
        c = self.c
        a = c.np.array(texts, dtype=f"S{width}")
        v = self.f.createVariable(name, "S1", tuple(dims))
        v[:] = c.nc.stringtochar(a, encoding="ascii")
        if encoding is not None:
            # (of netCDF, no attribute of the data)
            v.setncattr("_Encoding", encoding)
        self.entries[name] = c.np.array(texts)
        for k, b in attrs.items():
            v.setncattr(k, b)
            self.entries[name + "_" + k] = b

    def close(self):
        self.f.close()


def head(b, name, version, datatype):
    for k, v in (("Conventions", "SOFA"), ("Version", "2.1"),
                 ("SOFAConventions", name),
                 ("SOFAConventionsVersion", version),
                 ("APIName", "other API"), ("APIVersion", "1"),
                 ("AuthorContact", "me"), ("DataType", datatype),
                 ("RoomType", "free field"), ("DateCreated", "then"),
                 ("DateModified", "later"), ("Title", "")):
        b.attr(k, v)


def geometry(b, c, M, R, E, skip=()):
    for name, letters in (("ListenerPosition", "IC"), ("ReceiverPosition",
                          "RCI"), ("SourcePosition", "MC"),
                          ("EmitterPosition", "ECI")):
        if name in skip:
            continue
        b.var(name, c.array(name, tuple(b.dims[d] for d in letters)),
              letters, Type="cartesian", Units="metre")


def hrir_file(c, M=None, R=None, N=None, E=None, ir=None, close=True,
              version="1.0", name="a.sofa", extra=None):
    b = Builder(c, name)
    M, R, N, E = (c.size(d) if v is None else v
                  for d, v in zip("MRNE", (M, R, N, E)))
    head(b, "SimpleFreeFieldHRIR", version, "FIR")
    b.dim(M=M, R=R, N=N, E=E, C=3, I=1)
    geometry(b, c, M, R, E)
    b.var("Data.IR", c.array("IR", (M, R, N)) if ir is None else ir, "MRN")
    b.var("Data.SamplingRate", c.array("Fs", (1,)), "I", Units="hertz")
    b.var("Data.Delay", c.array("Delay", (1, R)), "IR")
    if extra:
        extra(b)
    if close:
        b.close()
    return b


def same_value(c, stored, got):
    """Equal but for singleton dimensions; text stays text."""
    if isinstance(stored, str):
        return isinstance(got, str) and c.same_text(stored, got)
    if isinstance(got, str):
        return stored.size == 1 and c.same_text(got, stored.reshape(1)[0])
    return c.eq(c.np.squeeze(c.np.asarray(stored)),
                c.np.squeeze(c.np.asarray(got)))


def check_read(c, b, sofa, skip=()):
    found = [k for k in keys_of(sofa) if k not in skip]
    for k in b.entries:
        c.check(k in found, f"{k} is not in the object")
    for k in found:
        c.check(k in b.entries, f"{k} is in the object but not in the file")
    for k in found:
        c.check(same_value(c, b.entries[k], getattr(sofa, k)),
                f"value of {k} differs")


def read_case(how):
    def read(c, b, verify="auto", **kw):
        if how == "netcdf":
            o = c.must(c.sf.read_sofa_as_netcdf, b.path)
            c.check(len(o.text) == 0, "something is printed")
            return o.value
        return c.must(c.sf.read_sofa, b.path, verify=verify,
                      verbose=c.flag("verbose")).value
    return read


def both(fn):
    """Two harnesses: read_sofa and read_sofa_as_netcdf."""
    def sofa(c):
        fn(c, read_case("sofa"))

    def netcdf(c):
        fn(c, read_case("netcdf"))
    sofa.__doc__ = (fn.__doc__ or "") + " (read_sofa)"
    netcdf.__doc__ = (fn.__doc__ or "") + " (read_sofa_as_netcdf)"
    return [Case(fn.__name__, sofa), Case(fn.__name__ + "_netcdf", netcdf)]


def numeric(c, read):
    """Files with data of any size, optional entries present or not"""
    def extra(b):
        if c.flag("SourceUp"):
            b.var("SourceUp", c.array("Up", (1, 3)), "IC")
        if c.flag("History"):
            b.attr("History", c.text("history", (0, 2), WIDE))
    b = hrir_file(c, extra=extra)
    sofa = read(c, b)
    check_read(c, b, sofa)
    c.check(sofa.protected is True, "the object is not protected")
    c.reach("end")


def texts(c, read):
    """Any text in global attributes and attributes of variables"""
    def extra(b):
        b.attr("History", c.text("history", (0, 1, 3), WIDE))
        b.var("SourceUp", c.array("Up", (1, 3)), "IC",
              Comment=c.text("comment", (0, 3), WIDE))
    b = hrir_file(c, 1, 2, 3, 1, extra=extra)
    check_read(c, b, read(c, b))
    c.reach("end")


def unknown(c, read):
    """Unknown attributes, variables, dimensions, and attributes of
    unknown variables"""
    names = c.choice("names", (("Foo", "Bar"), ("SourceUpX", "SourceU"),
                               ("Data.Foo", "DataFoo"), ("X", "x")))

    def extra(b):
        X = c.size("X")
        b.dim(**{c.choice("dim", ("X", "x")): X})
        d = list(b.dims)[-1]
        b.attr(names[0].replace(".", ""), c.text("g", (0, 2)))
        b.var(names[0], c.array("V", (X, 3)), d + "C",
              Units=c.text("u", (1,), ALPHA), more=(
                  ("name", "n"), ("size", "s"), ("description", "d"),
                  (c.text("attribute", (1, 2, 5, 11) if c.thorough else
                          (5, 11), ALPHA, first=((65, 72),)), "v")))
        b.var(names[1], c.array("W", (X,)), d)
    b = hrir_file(c, None, 2, 3, 1, extra=extra)
    v = c.choice("verify", (True, False, "auto")) \
        if names[0] == "Foo" else False
    sofa = read(c, b, v)
    check_read(c, b, sofa)
    for n in names:
        c.check(n.replace(".", "_") in sofa._custom, f"{n} is not custom")
    c.reach("end")


def many(c, read):
    """Many variables and attributes, long texts, many dimensions"""
    n = 130

    def extra(b):
        b.dim(X=2, Y=c.size("Y"))
        for i in range(n):
            b.attr(f"Attr{i}", f"text {i}")
            b.var(f"Var{i}", c.np.array([i, i + 1.]), "X")
        b.attr("Last", long_text(c, "last", 9000))
        b.var("LastVar", deep_variable(c, dict(b.dims), "IXCRYX"), "IXCRYX",
              Units=long_text(c, "units", 2000),
              **{f"Attr{i}": f"of {i}" for i in range(n)})
    b = hrir_file(c, 1, 2, 3, 1, extra=extra)
    o = read(c, b, False)
    check_read(c, b, o)
    c.reach("end")


def missing_entries(c, read):
    """Entries missing in the file do not appear in the object"""
    b = Builder(c)
    N = c.size("N")
    head(b, "SimpleFreeFieldHRIR", "1.0", "FIR")
    b.dim(M=1, R=1, N=N, E=1, C=3, I=1)
    skip = [k for k in ("ListenerPosition", "SourcePosition")
            if c.flag("no " + k)]
    geometry(b, c, 1, 1, 1, skip)
    if c.flag("no IR"):
        b.var("Data.IR", c.array("IR", (1, 1, N)), "MRN")
    b.var("Data.Delay", c.array("Delay", (1, 1)), "IR")
    b.close()
    sofa = read(c, b, False)
    check_read(c, b, sofa)
    c.reach("end")


def lacking(c, read):
    """Entries of the convention with any names, which the file lacks"""
    name, version = "Ab", "1.0"
    t = {**fixture.head(name, version, "FIR"), **fixture.geometry(),
         **fixture.fir()}
    known = {k.replace(":", "_").replace(".", "_") for k in t}
    n = c.text("lacking", (2, 6, 12), ALPHA, first=((81, 90),))
    kind = c.choice("kind", ("GLOBAL_", "", "SourcePosition_", "Data_"))
    t[{"GLOBAL_": "GLOBAL:", "": "", "SourcePosition_": "SourcePosition:",
       "Data_": "Data."}[kind] + n] = \
        fixture.attr("text") if kind in ("GLOBAL_", "SourcePosition_") \
        else fixture.dbl(1.0, "I")
    for k in known:
        if len(k) == len(kind + n):
            c.assume(c.neg(c.same_text(k, kind + n)))
    if kind == "":
        for k in dir(c.sf.Sofa):
            if len(k) == len(n):
                c.assume(c.neg(c.same_text(k, n)))
    c.write_conventions(conv={"Ab_1.0": (False, t)})
    b = Builder(c)
    head(b, name, version, "FIR")
    b.dim(M=1, R=1, N=2, E=1, C=3, I=1)
    geometry(b, c, 1, 1, 1)
    b.var("Data.IR", c.array("IR", (1, 1, 2)), "MRN")
    b.close()
    check_read(c, b, read(c, b, False))
    c.reach("end")


def types(c, read):
    """Variables stored as integers and single precision, numeric
    attributes"""
    t = c.choice("type", ("i4", "i2", "i8", "u1"))

    def extra(b):
        if t != "u1" and c.flag("large"):
            # (more digits than single precision has)
            top = {"i4": 2**30 - 1, "i2": 2**14 - 1, "i8": 2**52 - 1}[t]
            x = [2 * c.int(f"i{k}", top - 9, top) + 1 for k in range(3)]
        else:
            x = [c.int(f"i{k}", 0, 100) for k in range(3)]
        b.var("SourceUp", c.np.array([x]), "IC", t)
        b.attr("History", 3.5)
        b.var("Count", c.np.array([5]), "I", t, Number=2.0)
    b = hrir_file(c, 1, 2, 3, 1, extra=extra)
    check_read(c, b, read(c, b, False))
    c.reach("end")


def special(c, read):
    """Values that are no numbers, very large or very small"""
    def extra(b):
        b.var(c.choice("name", ("Foo", "Data.Foo", "SourceUp")),
              special_array(c, (1, 3)), "IC")
    ir = special_array(c, (1, 2, 3)) if c.flag("ir") else None
    b = hrir_file(c, 1, 2, 3, 1, ir, extra=None if ir is not None else extra)
    check_read(c, b, read(c, b, c.choice("verify", (False, "auto"))))
    c.reach("end")


def scalar(c, read):
    """Variables without dimensions, or only single dimensions"""
    dims = c.choice("dims", ("", "I", "II", "III"))
    t = c.choice("type", ("f8", "i4"))
    x = c.real("x") if t == "f8" else c.int("x", -99, 99)

    def extra(b):
        b.var(c.choice("name", ("Foo", "Data.Foo")),
              c.np.array(x).reshape((1,) * len(dims)), dims, t, Units="m")
        b.attr("Bar", "y")
    b = hrir_file(c, 1, 2, 3, 1, extra=extra)
    check_read(c, b, read(c, b, c.choice("verify", (False, "auto"))))
    c.reach("end")


def masked(c, read):
    """Missing values: masked arrays and a warning exactly if a value is
    missing"""
    M, R, N = (c.size(d) for d in "MRN")
    which = c.choice("which", ("IR", "custom"))
    if which == "IR":
        ir = c.masked("IR", (M, R, N))
        b = hrir_file(c, M, R, N, 1, ir)
    else:
        ir = c.masked("Foo", (M,))
        b = hrir_file(c, M, R, N, 1,
                      extra=lambda b: b.var("Foo", ir, "M"))
    o = c.attempt(c.sf.read_sofa, b.path, False, False) \
        if read == "sofa" else c.attempt(c.sf.read_sofa_as_netcdf, b.path)
    c.check(o.ok, "reading fails")
    sofa = o.value
    miss = bool(c.np.ma.is_masked(ir))
    c.check(("missing data" in c.plain(o.warned)) == miss,
            "warning about missing data is wrong")
    c.check(sorted(keys_of(sofa)) == sorted(b.entries), "entries differ")
    got = sofa.Data_IR if which == "IR" else sofa.Foo
    if miss:
        c.check(c.np.ma.isMaskedArray(got), "no masked array is returned")
        c.check(c.eq(c.np.squeeze(got), c.np.squeeze(ir)),
                f"value of {which} differs")
        c.reach("missing")
    else:
        c.check(not c.np.ma.isMaskedArray(got), "a masked array is returned")
        c.check(c.eq(c.np.squeeze(c.np.asarray(got)),
                     c.np.squeeze(c.np.asarray(ir.data))),
                f"value of {which} differs")
        c.reach("complete")


def masked_sofa(c):
    """Missing values with read_sofa"""
    masked(c, "sofa")


def masked_netcdf(c):
    """Missing values with read_sofa_as_netcdf"""
    masked(c, "netcdf")


def strings(c, read):
    """String variables with up to 2 x 2 texts, empty texts included"""
    b = Builder(c)
    M = c.concrete(c.int("M", 1, 2))
    width = c.choice("width", (1, 3))
    head(b, "SimpleHeadphoneIR", "1.0", "FIR")
    b.dim(M=M, R=2, N=4, E=1, C=3, I=1, S=width)
    geometry(b, c, M, 2, 1)
    b.var("Data.IR", c.array("IR", (M, 2, 4)), "MRN")
    b.var("Data.SamplingRate", c.array("Fs", (1,)), "I", Units="hertz")
    b.var("Data.Delay", c.array("Delay", (1, 2)), "IR")
    for k in ("SourceModel", "SourceManufacturer"):
        b.string(k, [c.text(f"{k}{i}", (0, width)) for i in range(M)],
                 "MS", width, c.choice("encoding", (None, "ascii"))
                 if k == "SourceModel" and M == 1 and width > 1 else None)
    b.string("ReceiverDescriptions", ["x"] * M, "MS", width, Comment="foo")
    if c.flag("custom"):
        n = c.choice("rows", (1, 2))
        b.dim(X=n)
        b.string("Words", [[c.text(f"w{i}{j}", (0, width))
                            for j in range(2)] for i in range(n)],
                 "XRS", width)
    b.close()
    sofa = read(c, b, False)
    check_read(c, b, sofa)
    if "Words" in b.entries:
        c.check(sofa._custom["Words"]["type"] == "string",
                "custom string variable has another type")
    c.reach("end")


def violating(c):
    """Files that violate the convention: read_sofa_as_netcdf works for
    any names of convention and version, or none at all"""
    b = Builder(c)
    if c.flag("with_name"):
        b.attr("SOFAConventions", c.text("name", (0, 3)))
    if c.flag("with_version"):
        b.attr("SOFAConventionsVersion", c.text("version", (0, 3)))
    X = c.size("X")
    b.dim(X=X)
    name = c.choice("var", ("Data.IR", "Data.Foo.Bar", "GLOBAL", "a_b_c"))
    b.var(name, c.array("V", (X,)), "X", **{
        c.choice("attr", ("Units", "a_b", "x")): c.text("u", (0, 2))})
    b.close()
    sofa = c.must(c.sf.read_sofa_as_netcdf, b.path).value
    check_read(c, b, sofa)
    c.reach("end")


def not_there(c):
    """Unknown conventions, versions, and files raise errors"""
    what = c.choice("what", ("convention", "version", "file"))
    if what == "file":
        o = c.attempt(c.sf.read_sofa, c.path("b.sofa"))
        c.check(o.raised(ValueError), "a missing file raises no error")
        o = c.attempt(c.sf.read_sofa_as_netcdf, c.path("b.sofa"))
        c.check(o.raised(ValueError), "a missing file raises no error")
        return
    b = Builder(c)
    name, version = "GeneralTF", "1.0"
    if what == "convention":
        name = c.text("name", (0, 9, 10))
        c.assume(c.neg(c.same_text(name, "GeneralTF")))
    else:
        version = c.text("version", (1, 3))
        c.assume(c.neg(c.disj(c.same_text(version, "1.0"),
                              c.same_text(version, "2.0"))))
    head(b, name, version, "TF")
    b.close()
    o = c.attempt(c.sf.read_sofa, b.path, verbose=False)
    c.check(o.raised(), f"an unknown {what} is read")
    c.reach("end")


def notice(c):
    """The notice about custom entries names exactly these, and only if
    asked for"""
    def extra(b):
        if c.flag("attr"):
            b.attr("Foo", "bar")
            custom.append("GLOBAL_Foo")
        if c.flag("var"):
            b.dim(X=2)
            n = c.choice("name", ("Bar", "Data.Bar", "B.a.r"))
            b.var(n, c.array("V", (2,)), "X", Units="u")
            n = n.replace(".", "_")
            custom.extend([n, n + "_Units"])
        if c.flag("many"):
            for i in range(40):
                b.attr(f"Foo{i}", "bar")
                custom.append(f"GLOBAL_Foo{i}")
    custom = []
    b = hrir_file(c, 1, 2, 3, 1, extra=extra)
    verbose = c.flag("verbose")
    o = c.must(c.sf.read_sofa, b.path, False, verbose)
    out = c.plain(o.text)
    if custom and verbose:
        c.check(sorted(out.strip().split("\n")[-1].split(", ")) ==
                sorted(custom),
                "the notice about custom entries is wrong")
    else:
        c.check(out == "", "something is printed")
    c.reach("end")


def versions(c, read):
    """The definitions of the version of the file are used"""
    name, here = "Ab", c.choice("version", ("0.4", "1.0", "1.1"))
    tables = {}
    for v in ("0.4", "1.0", "1.1"):
        t = {**fixture.head(name, v, "FIR"), **fixture.geometry(),
             **fixture.fir()}
        if v != "1.1":
            t["Old"] = fixture.dbl([[1, 1, 1]], "IC", None)
        if v != "0.4":
            t["New"] = fixture.dbl(1, "I", None)
            t["New:Units"] = fixture.attr("metre", None)
        t["GLOBAL:Tag" + v[0] + v[2]] = fixture.attr("x", None)
        tables[f"{name}_{v}"] = (v == "1.1", t)
    c.write_conventions(conv=tables, rule={}, depr={
        "GLOBAL:SOFAConventions": {}})
    mine = {k.replace(":", "_").replace(".", "_")
            for k in tables[f"{name}_{here}"][1]}
    b = Builder(c)
    tag = c.choice("tag", ("Tag04", "Tag10", "Tag11"))
    first = c.flag("tag first")
    if first:
        b.attr(tag, "y")
    head(b, name, here, "FIR")
    M = c.size("M")
    b.dim(M=M, R=2, N=3, E=1, C=3, I=1)
    geometry(b, c, M, 2, 1)
    b.var("Data.IR", c.array("IR", (M, 2, 3)), "MRN")
    b.var("Data.SamplingRate", c.array("Fs", (1,)), "I", Units="hertz")
    b.var("Data.Delay", c.array("Delay", (1, 2)), "IR")
    if c.flag("with Old"):
        b.var("Old", c.array("Old", (1, 3)), "IC")
    if c.flag("with New"):
        b.var("New", c.array("New", (1,)), "I",
              **({"Units": "metre"} if c.flag("with Units") else {}))
    if not first:
        b.attr(tag, "y")
    b.close()
    if read is None:
        o = c.must(c.sf.read_sofa_as_netcdf, b.path)
    else:
        o = c.must(c.sf.read_sofa, b.path, verify=c.choice(
            "verify", (True, False, "auto")))
        custom = [k for k in b.entries if k not in mine]
        out = c.plain(o.text).strip()
        c.check(sorted((out.split("\n")[-1] if out else "").split(", ")) ==
                sorted(custom or [""]),
                f"the notice about custom entries is wrong: {out}, {custom}")
        r = c.attempt(o.value.verify, mode="read")
        c.check(r.ok, f"can not be verified ({c.plain(r.message)[:200]})")
        c.check(sorted(keys_of(o.value)) == sorted(b.entries),
                "verify changes the entries")
    check_read(c, b, o.value)
    c.reach("end")


def versions_sofa(c):
    """The definitions of the version of the file are used"""
    versions(c, "sofa")


def versions_netcdf(c):
    """Conventions do not matter for read_sofa_as_netcdf"""
    versions(c, None)


def cases(tier):
    out = []
    for fn in (numeric, texts, unknown, missing_entries, lacking, types,
               scalar, special, strings, many):
        out += both(fn)
    out += [Case("masked", masked_sofa), Case("masked_netcdf", masked_netcdf),
            Case("violating", violating), Case("not_there", not_there),
            Case("versions", versions_sofa),
            Case("versions_netcdf", versions_netcdf),
            Case("notice", notice)]
    return out
