"""C21: SofaStream."""
from sx.run import Case
from sx.env import ASCII, WIDE, ALPHA, ALNUM, IDENT
from props.common import *
from props.c03 import Builder, head, geometry, hrir_file, same_value

ASSUMPTIONS = [
    "texts contain no NUL characters, values are not equal to the fill value "
    "unless they are missing, no two entries of a file have the same name in "
    "sofar, names do not collide with methods of SofaStream and do not start "
    "with an underscore, names of variables do not start with GLOBAL_",
    "for list_dimensions: files contain GLOBAL_DataType, ReceiverPosition and "
    "EmitterPosition",
]


def var_value(c, v):
    """Values of a netCDF variable, texts as texts"""
    x = v[:]
    if x.dtype.kind == "S" and v.dimensions[-1:] != () and \
            x.dtype.itemsize == 1:
        return c.nc.chartostring(x, encoding="utf-8")
    return x


def check_stream(c, b, stream, sofa=None):
    """Every entry of the file, the object returned by read_sofa"""
    for k, want in b.entries.items():
        o = c.attempt(getattr, stream, k)
        c.check(o.ok, f"{k} is not returned ({o.kind}: "
                f"{c.plain(o.message)[:200]})")
        got = o.value
        if isinstance(got, c.nc.Variable):
            c.check(not isinstance(want, str), f"{k} is no text")
            c.check(got.name.replace(".", "_") == k, f"{k}: other variable")
            got = var_value(c, got)
            c.check(same_value(c, want, got), f"{k}: other values")
        else:
            c.check(isinstance(want, str) == isinstance(got, str),
                    f"{k}: no variable")
            c.check(same_value(c, want, got), f"{k}: other text")
        # again
        o = c.attempt(getattr, stream, k)
        c.check(o.ok, f"{k} is not returned again")
        if isinstance(got, str):
            c.check(isinstance(o.value, str) and c.same_text(o.value, got),
                    f"{k} differs when it is returned again")
        else:
            c.check(isinstance(o.value, c.nc.Variable) and
                    o.value.name.replace(".", "_") == k or
                    same_value(c, o.value, got),
                    f"{k} differs when it is returned again")
        if sofa is not None:
            c.check(k in sofa.__dict__, f"{k} is not read by read_sofa")
            c.check(same_value(c, got, sofa.__dict__[k]),
                    f"{k}: stream and read_sofa differ")
    if sofa is not None:
        for k in keys_of(sofa):
            c.check(k in b.entries, f"{k} is only read by read_sofa")
    for d, n in b.dims.items():
        o = c.attempt(stream.get_dimension, d)
        c.check(o.ok, f"dimension {d} is not found")
        c.check(c.eq(o.value, n), f"size of dimension {d}")


def check_file(c, b, read=True):
    """Stream, and read_sofa before"""
    sofa = c.must(c.sf.read_sofa, b.path, verify=False,
                  verbose=False).value if read else None
    with c.sf.SofaStream(b.path) as s:
        check_stream(c, b, s, sofa)
        # repeated, in another order
        for k in list(b.entries)[::-3]:
            c.check(c.attempt(getattr, s, k).ok, f"{k} is not returned again")
    c.check(c.open_count() == 0, "the file is not closed")
    c.reach("end")


def numeric(c):
    """Files with data of any size, optional entries present or not"""
    def extra(b):
        if c.flag("SourceUp"):
            b.var("SourceUp", c.array("Up", (1, 3)), "IC",
                  Type="cartesian", Units="metre")
            b.var("Foo", c.np.array(c.real("scalar")), "", Units="metre")
        if c.flag("History"):
            b.attr("History", c.text("history", (0, 2), WIDE))
    check_file(c, hrir_file(c, extra=extra))


def texts(c):
    """Any text in attributes"""
    def extra(b):
        b.attr("History", c.text("history", (0, 1, 3), WIDE))
        b.var("SourceUp", c.array("Up", (1, 3)), "IC",
              Comment=c.text("comment", (0, 3), WIDE))
    check_file(c, hrir_file(c, 1, 2, 3, 1, extra=extra))


def many(c):
    """Many variables and attributes, long texts, many dimensions"""
    n = 40

    def extra(b):
        b.dim(X=2, Y=c.size("Y"))
        for i in range(n):
            b.attr(f"Attr{i}", f"text {i}")
            b.var(f"Var{i}", c.np.array([i, i + 1.]), "X")
        b.attr("Last", long_text(c, "last", 9000))
        b.var("LastVar", deep_variable(c, dict(b.dims), "IXCRYX"), "IXCRYX",
              Units=long_text(c, "units", 2000),
              **{f"Attr{i}": f"of {i}" for i in range(n)})
    check_file(c, hrir_file(c, 1, 2, 3, 1, extra=extra))


def names(c):
    """Names which are parts of other names"""
    group = c.choice("names", (
        ("SourceUp", "SourceUp_X", "Source"), ("A", "A_B", "A_B_C"),
        ("Data.IR2", "Data.IRX", "Data"), ("a", "A", "aa"),
        ("X", "X_GLOBAL", "GLOBALX"), ("x.y.z", "x", "x.y")))
    order = c.choice("order", ((0, 1, 2), (2, 1, 0), (1, 2, 0)))
    attr = c.choice("attribute", ("Units", "Z_B", "Z", "D_Z"))

    def extra(b):
        X = c.size("X")
        b.dim(Q=X)
        for k in order:
            n = group[k]
            more = {attr: c.text("a" + n, (1,), ALPHA)} \
                if c.flag("attribute of " + n) else {}
            b.var(n, c.array("V" + n, (X,)), "Q", **more)
        b.attr("X", c.text("g", (1,)))
        b.attr("A_B", c.text("h", (1,)))
        b.attr("GLOBAL_Z", "i")
    check_file(c, hrir_file(c, 1, 2, 3, 1, extra=extra))


def missing(c):
    """Names which are not in the file"""
    def extra(b):
        b.attr("Foo", "f")
        b.dim(X=2)
        b.var("Bar", c.array("V", (2,)), "X", Units="m")
        b.var("Ba.z", c.array("W", (2,)), "X", q="m")
    pre = c.choice("prefix", ("", "GLOBAL_", "Data_IR", "Data_IR_", "Bar_",
                              "GLOBAL_Data", "Ba_", "Bar_Unit"))
    name = pre + c.text("name", (1, 2, 3, 4) if c.thorough else (1, 3), IDENT,
                        first=((65, 90), (97, 122)) if not pre else None)
    b = hrir_file(c, 1, 2, 3, 1, extra=extra)
    with c.sf.SofaStream(b.path) as s:
        o = c.attempt(getattr, s, name)
        there = [k for k in b.entries if len(k) == len(name) and
                 bool(c.same_text(k, name))]
        if there:
            c.check(o.ok, "entry is not found")
            c.reach("found")
        else:
            c.check(not o.ok, "something is returned for a name that is not "
                    "in the file")
            c.check(o.raised(AttributeError), "error is no AttributeError: "
                    + o.kind)
            c.reach("missing")
    c.check(c.open_count() == 0, "the file is not closed")


def strings(c):
    """String variables, empty texts included"""
    b = Builder(c)
    M = c.concrete(c.int("M", 1, 2))
    width = c.choice("width", (1, 3))
    head(b, "SimpleHeadphoneIR", "1.0", "FIR")
    b.dim(M=M, R=2, N=4, E=1, C=3, I=1, S=width)
    geometry(b, c, M, 2, 1)
    b.var("Data.IR", c.array("IR", (M, 2, 4)), "MRN")
    b.var("Data.SamplingRate", c.array("Fs", (1,)), "I", Units="hertz")
    b.var("Data.Delay", c.array("Delay", (1, 2)), "IR")
    b.string("SourceModel", [c.text(f"m{i}", (0, width)) for i in range(M)],
             "MS", width, c.choice("encoding", (None, "ascii")), Comment=c.text("comment", (1,)))
    n = c.choice("rows", (1, 2))
    b.dim(X=n)
    b.string("Words", [[c.text(f"w{i}{j}", (0, width)) for j in range(2)]
                       for i in range(n)], "XRS", width)
    b.close()
    check_file(c, b)


def masked(c):
    """Missing values"""
    M, R, N = (c.size(d) for d in "MRN")
    ir = c.masked("IR", (M, R, N))
    b = hrir_file(c, M, R, N, 1, ir)
    with c.sf.SofaStream(b.path) as s:
        o = c.attempt(getattr, s, "Data_IR")
        c.check(o.ok, "entry is not found")
        got = o.value[:]
        if bool(c.np.ma.is_masked(ir)):
            c.check(c.eq(got, ir), "missing values differ")
            c.reach("missing")
        else:
            c.check(c.eq(c.np.asarray(got.data), c.np.asarray(ir.data)),
                    "values differ")
            c.reach("complete")
    c.check(c.open_count() == 0, "the file is not closed")


def special(c):
    """Values that are no numbers, very large or very small"""
    b = hrir_file(c, 1, 2, 3, 1, special_array(c, (1, 2, 3)))
    check_file(c, b)


def parts(c):
    """Parts of variables"""
    M, R = c.concrete(c.int("M", 1, 3)), c.concrete(c.int("R", 1, 2))
    ir = c.array("IR", (M, R, 3))
    b = hrir_file(c, M, R, 3, 1, ir)
    m = c.concrete(c.int("m", 0, M - 1))
    r = c.concrete(c.int("r", 0, R - 1))
    how = c.choice("slice", ("m", "mr", "r", "range", "step", "last"))
    key = {"m": m, "mr": (m, r), "r": (slice(None), r),
           "range": (slice(m, None), r), "last": (Ellipsis, r, slice(None)),
           "step": slice(0, None, 2)}[how]
    with c.sf.SofaStream(b.path) as s:
        v = c.must(getattr, s, "Data_IR").value
        c.check(c.eq(v.shape[0], M) and v.dimensions == ("M", "R", "N"),
                "dimensions of the variable")
        c.check(c.eq(c.np.asarray(v[key]), c.np.asarray(ir[key])),
                "other values")
    c.reach("end")


def unlimited(c):
    """Unlimited dimensions"""
    M, N = c.size("M"), c.size("N")
    b = Builder(c)
    head(b, "SimpleFreeFieldHRIR", "1.0", "FIR")
    empty = c.choice("empty", ("E", "Q", "q"))
    b.dim(M=None, R=2, N=N, C=3, I=1)
    b.dim(**{d: None if d == empty else 1 for d in "EQq"})
    b.dims["M"], b.dims[empty] = M, 0
    geometry(b, c, M, 2, 1, ("EmitterPosition",) if empty == "E" else ())
    b.var("Data.IR", c.array("IR", (M, 2, N)), "MRN")
    b.var("Data.SamplingRate", c.array("Fs", (1,)), "I", Units="hertz")
    b.var("Data.Delay", c.array("Delay", (1, 2)), "IR")
    b.close()
    check_file(c, b)


VERBOSE = {"FIR": "samples", "FIR-E": "samples", "TF": "frequencies",
           "TF-E": "frequencies", "SOS": "SOS", "FIRE": "samples"}


def dimensions(c):
    """Sizes and printed list of dimensions"""
    b = Builder(c)
    M, R, N, E, X = (c.size(d) for d in "MRNEX")
    kind = c.choice("data type", ("FIR", "FIR-E", "TF", "TF-E", "SOS",
                                  "Audio", "text"))
    typ = kind if kind != "text" else c.text("type", (0, 3))
    head(b, "SimpleFreeFieldHRIR", "1.0", typ)
    order = c.choice("order", ("MRNECI", "ICNERM"))
    sizes = dict(M=M, R=R, N=N, E=E, C=3, I=1)
    b.dim(**{d: sizes[d] for d in order})
    other = c.choice("other", ("no", "X", "m", "XY"))
    if other != "no":
        b.dim(**{other: X})
    if c.flag("S"):
        b.dim(S=5)
    harmonic = [c.flag("harmonics " + d) for d in "RE"]
    for name, letters, h in (("ReceiverPosition", "RCI", harmonic[0]),
                             ("EmitterPosition", "ECI", harmonic[1])):
        b.var(name, c.array(name, tuple(b.dims[d] for d in letters)), letters,
              Type="spherical harmonics" if h else
              c.choice("type of " + name, ("cartesian", "spherical")),
              Units="degree, degree, metre")
    b.close()
    with c.sf.SofaStream(b.path) as s:
        for d, n in b.dims.items():
            o = c.attempt(s.get_dimension, d)
            c.check(o.ok and c.eq(o.value, n), f"size of dimension {d}")
        o = c.attempt(s.get_dimension, "Q")
        c.check(o.raised(ValueError), "dimension that is not in the file")
        o = c.attempt(lambda: s.list_dimensions)
        c.check(o.ok, f"listing dimensions fails ({o.kind}: "
                f"{c.plain(o.message)[:200]})")
        found = []
        for line in o.text.splitlines():
            w = line.split(" ")
            if len(w) < 4 or w[1] != "=":
                c.check(len(line.strip()) == 0, "line without dimension")
                continue
            d = c.plain(w[0])
            c.check(d in b.dims, f"{d} is not in the file")
            c.check(c.same_text(w[2], f"{b.dims[d]}"), f"size of {d}")
            found.append(d)
            rest = c.plain(" ".join(w[3:]))
            if d == "N" and kind in VERBOSE:
                c.check(VERBOSE[kind] in rest, "meaning of N")
                for word in VERBOSE.values():
                    c.check(word == VERBOSE[kind] or word not in rest,
                            "meaning of N")
            if d in "RE":
                c.check(("spherical harmonics" in rest) ==
                        harmonic["RE".index(d)], f"meaning of {d}")
                c.check(("receiver" if d == "R" else "emitter") in rest,
                        f"meaning of {d}")
            if d == other:
                c.check("custom" in rest, "custom dimension")
        c.check(sorted(found) == sorted(b.dims), "dimensions in the list")
    c.check(c.open_count() == 0, "the file is not closed")
    c.reach("end")


def closing(c):
    """The file is closed when the block is left"""
    b = hrir_file(c, c.size("M"), 2, 3, 1)
    how = c.choice("end", ("end", "error", "missing", "return", "twice",
                           "nested"))

    class Stop(Exception):
        pass

    def block():
        with c.sf.SofaStream(b.path) as s:
            c.check(s.GLOBAL_SOFAConventions == "SimpleFreeFieldHRIR",
                    "other text")
            if how == "error":
                raise Stop()
            if how == "missing":
                return s.Foo
            if how == "return":
                return 1
            if how == "nested":
                with c.sf.SofaStream(b.path) as t:
                    c.check(t.GLOBAL_DataType == "FIR", "other text")
                c.check(s.GLOBAL_DataType == "FIR", "other text")
    o = c.attempt(block)
    c.check(o.kind == {"error": "Stop", "missing": "AttributeError"}.get(
        how, "ok"), "errors of the block are not passed on")
    c.check(c.open_count() == 0, "the file is not closed")
    if how == "twice":
        s = c.sf.SofaStream(b.path)
        for _ in range(2):
            with s as t:
                c.check(t.GLOBAL_DataType == "FIR", "other text")
            c.check(c.open_count() == 0, "the file is not closed")

    def absent():
        with c.sf.SofaStream(c.path("absent.sofa")):
            pass
    c.check(not c.attempt(absent).ok, "a missing file is opened")
    c.reach("end")


def untouched(c):
    """Streams do not change the file"""
    def extra(b):
        b.attr("History", c.text("history", (1,)))
    b = hrir_file(c, 2, 2, 3, 1, extra=extra)
    before = c.file_view(b.path)
    with c.sf.SofaStream(b.path) as s:
        check_stream(c, b, s)
        c.attempt(lambda: s.list_dimensions)
        c.attempt(s.inspect)
        x = s.Data_IR
        if c.flag("write"):
            def write():
                x[:] = 1.
            c.check(not c.attempt(write).ok, "the file can be written")
    after = c.file_view(b.path)
    c.check(sorted(before.attrs) == sorted(after.attrs), "attributes")
    for k in before.attrs:
        c.check(c.same_text(before.attrs[k], after.attrs[k]), k)
    for k, v in before.vars.items():
        c.check(c.eq(v.data, after.vars[k].data), k)
    c.reach("end")


@also_after("parts", "texts")
def cases(tier):
    return [Case(f.__name__, f) for f in (
        numeric, texts, many, names, missing, strings, masked, special, parts,
        unlimited,
        dimensions, closing, untouched)]
