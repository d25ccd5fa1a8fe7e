"""C02: layout of written files."""
from sx.run import Case
from sx.env import ASCII, WIDE, ALPHA
from props.common import *

ASSUMPTIONS = ["names of custom entries are Python identifiers"]


def padded(c, v, n):
    """Shape of the data with n axes as the standard wants it."""
    s = tuple(v.shape) if hasattr(v, "shape") else ()
    if len(s) == 1 and n > 1:
        s = (1,) + s
    return s + (1,) * (n - len(s))


def expected_dims(c, value, allowed, sizes):
    """First of the allowed dimensions whose sizes are those of the data."""
    for dims in allowed.upper().split(", "):
        letters = [d for d in dims if d != "S"]
        ref = [sizes[d] for d in letters]
        if isinstance(value, str):
            act = (1,) * len(ref)
        elif len(dims) == 1:
            act = tuple(d for d in getattr(value, "shape", ()) if d != 1)
            act += (1,) * (1 - len(act))
        else:
            act = padded(c, value, max(len(ref), 1))
        extra = act[len(ref):]
        if all(d == 1 for d in extra) and \
                all(a == b for a, b in zip(act, ref)):
            return dims
    return None


def check_layout(c, sofa, f, sizes, extra=()):
    """sizes: the size of every dimension (but S)"""
    v = c.file_view(f)
    conv = dict(sofa._convention)
    names = keys_of(sofa)
    # dimensions
    for d in sizes:
        c.check(d in v.dims, f"dimension {d} is not in the file")
        c.check(v.dims[d][0] == sizes[d], f"dimension {d} has another size")
    for d in v.dims:
        c.check(d in sizes or d == "S", f"dimension {d} is in the file")
    # global attributes
    want = [k for k in names if k.startswith("GLOBAL_")]
    c.check(sorted(v.attrs) == sorted(k[7:] for k in want),
            "global attributes differ from the object's")
    for k in want:
        c.check(c.same_text(v.attrs[k[7:]], getattr(sofa, k)),
                f"global attribute {k} has another text")
    # variables
    vs = [k for k in names if conv[k]["type"] != "attribute"]
    file_name = {k: "Data." + k[5:] if k.startswith("Data_") else k
                 for k in vs}
    c.check(sorted(v.vars) == sorted(file_name.values()),
            "variables differ from the object's")
    longest = 0
    for k in vs:
        w, value = v.vars[file_name[k]], getattr(sofa, k)
        dims = expected_dims(c, value, conv[k]["dimensions"], sizes)
        c.check("".join(w.dims) == dims,
                f"variable {k} is stored with dimensions {w.dims}")
        if conv[k]["type"] == "double":
            c.check(str(w.dtype) == "float64",
                    f"variable {k} is stored as {w.dtype}")
            c.check(c.eq(c.np.squeeze(c.np.asarray(w.data)),
                         c.np.squeeze(c.np.asarray(value))),
                    f"variable {k} is stored with other values")
        else:
            c.check(w.dtype.kind == "S", f"variable {k} has no characters")
        # attributes of the variable
        mine = [a for a in names if conv[a]["type"] == "attribute" and
                a.rpartition("_")[0] == k]
        c.check(sorted(a for a in w.attrs if not a.startswith("_")) ==
                sorted(a.rpartition("_")[2] for a in mine),
                f"attributes of variable {k} differ from the object's")
        for a in mine:
            c.check(c.same_text(w.attrs[a.rpartition("_")[2]],
                                getattr(sofa, a)),
                    f"attribute {a} has another text")


def write(c, sofa, name="a.sofa", **kw):
    f = c.path(name)
    c.must(c.sf.write_sofa, f, sofa, **kw)
    return f


def numeric(c):
    """Impulse responses of any size (M, R, N, E, values symbolic)"""
    E = c.size("E")
    sofa = hrir(c, E=E)
    M, R, N = sofa.Data_IR.shape
    check_layout(c, sofa, write(c, sofa),
                 dict(M=M, R=R, N=N, E=E, C=3, I=1))
    c.reach("end")


def reported(c):
    """Sizes in the file are those reported by the object (S included)"""
    sofa = c.sf.Sofa("SimpleHeadphoneIR")
    N = c.size("N")
    sofa.Data_IR = c.array("IR", (1, 2, N))
    sofa.SourceModel = c.text("model", (0, 1, 3))
    sofa.SourceManufacturer = c.texts("man", (1, 1), (0, 2))
    f = write(c, sofa)
    v = c.file_view(f)
    longest = 0
    for k in ("SourceModel", "SourceManufacturer"):
        t = getattr(sofa, k)
        t = t if isinstance(t, str) else t[0, 0]
        longest = max(longest, len(t))
    c.check(sofa.get_dimension("S") == longest, "reported S is wrong")
    for d in v.dims:
        if d != "S" or longest:
            c.check(v.dims[d][0] == sofa.get_dimension(d),
                    f"size of {d} is not the reported one")
    for k in ("SourceModel", "SourceManufacturer", "ReceiverDescriptions"):
        t = getattr(sofa, k)
        t = t if isinstance(t, str) else t[0, 0]
        w = v.vars[k]
        c.check("".join(w.dims) == "MS", f"{k} has dimensions {w.dims}")
        c.check(c.same_text(c.np.squeeze(w.data).astype("U").item(), t),
                f"{k} has another text in the file")
    check_layout(c, sofa, f, dict(M=1, R=2, N=N, E=1, C=3, I=1))
    c.reach("end")


def rows(c):
    """String variables with several texts of different length: all of them
    are stored, in the dimension of the longest"""
    sofa = c.sf.Sofa("SimpleHeadphoneIR")
    M = c.concrete(c.int("M", 1, 2))
    sofa.Data_IR = c.array("IR", (M, 2, 3))
    sofa.Data_Delay = c.array("Delay", (M, 2))
    texts = {}
    for k in ("SourceModel", "SourceManufacturer"):
        texts[k] = [[c.text(f"{k}{i}", (0, 2))] for i in range(M)]
        setattr(sofa, k, c.np.array(texts[k]))
    sofa.ReceiverDescriptions = [["x"]] * M
    n = c.choice("rows", (1, 2))
    texts["Words"] = [[c.text(f"w{i}{j}", (0, 3)) for j in range(2)]
                      for i in range(n)]
    sofa.add_variable("Words", c.np.array(texts["Words"]), "string", "XRS")
    f = write(c, sofa)
    longest = max(len(t) for v in texts.values() for r in v for t in r)
    longest = max(longest, 1)
    v = c.file_view(f)
    c.check(v.dims["S"][0] == longest, "size of S is not the longest text")
    for k, want in texts.items():
        got = v.vars[k].data.astype("U")
        dims = "XRS" if k == "Words" else "MS"
        c.check("".join(v.vars[k].dims) == dims, f"dimensions of {k}")
        flat = got.reshape(got.size)
        for i, t in enumerate([t for r in want for t in r]):
            c.check(c.same_text(flat[i], t), f"{k} has another text")
    sizes = dict(M=M, R=2, N=3, E=1, C=3, I=1, X=n)
    check_layout(c, sofa, f, sizes)
    c.reach("end")


def general(c):
    """Four-dimensional data; optional, custom, and per measurement data"""
    sofa = c.sf.Sofa("SingleRoomMIMOSRIR")
    M, R, N, E = (c.size(d) for d in "MRNE")
    sofa.Data_IR = c.array("IR", (M, R, N, E))
    sofa.Data_Delay = c.array("Delay", (M, R, E))
    sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    sofa.EmitterPosition = c.array("Emitter", (E, 3, M))
    sofa.Data_SamplingRate = c.array("Fs", (M,))
    check_layout(c, sofa, write(c, sofa),
                 dict(M=M, R=R, N=N, E=E, C=3, I=1))
    c.reach("end")


def custom(c):
    """Custom variables, dimensions and attributes; names that contain
    each other"""
    sofa = hrir(c)
    M, R, N = sofa.Data_IR.shape
    X = c.size("X")
    a, b = c.choice("names", (("SourceUpFoo", "SourceUpF"), ("Data", "DataX"),
                              ("Room", "Rooms")))
    sofa.add_variable(a, c.array("V", (M, X)), "double", "MX")
    sofa.add_attribute(a + "_Units", c.text("u", (2,), ALPHA[1:]))
    sofa.add_variable(b, c.array("W", (X, 3)), "double", "XC")
    sofa.add_attribute(b + "_Foo", c.text("f", (0, 2), WIDE))
    sofa.add_attribute("GLOBAL_" + a, c.text("g", (1,), WIDE))
    if c.flag("delete"):
        sofa.delete("SourceUp")
    check_layout(c, sofa, write(c, sofa),
                 dict(M=M, R=R, N=N, E=1, C=3, I=1, X=X))
    c.reach("end")


def deep(c):
    """Custom variables of five and six dimensions, any sizes"""
    sofa = hrir(c)
    M, R, N = sofa.Data_IR.shape
    sizes = dict(M=M, R=R, N=N, E=1, C=3, I=1)
    dims = c.choice("dims", DEEP)
    sofa.add_variable("Foo", deep_variable(c, sizes, dims), "double", dims)
    check_layout(c, sofa, write(c, sofa), sizes)
    c.reach("end")


def long_texts(c):
    """Long texts in attributes and string variables"""
    sofa = c.sf.Sofa("SimpleHeadphoneIR")
    sofa.GLOBAL_Title = long_text(c, "global", 9000)
    sofa.add_attribute("SourcePosition_Foo", long_text(c, "attr", 4000))
    t = sofa.SourceModel = long_text(c, "model", 700)
    sofa.add_variable("Foo", c.np.array([["ab", t + "x"]]), "string", "IRS")
    f = write(c, sofa)
    v = c.file_view(f)
    c.check(v.dims["S"][0] == 701, "size of S is not the longest text")
    c.check(c.same_text(c.np.squeeze(v.vars["SourceModel"].data)
                        .astype("U").item(), t), "another text in the file")
    w = v.vars["Foo"].data.astype("U")
    c.check(c.same_text(w[0, 1], t + "x"), "another text of Foo")
    check_layout(c, sofa, f, dict(M=1, R=2, N=sofa.get_dimension("N"), E=1,
                                  C=3, I=1))
    c.reach("end")


def many(c):
    """String variables with many texts: the longest is at any place"""
    sofa = hrir(c, 80, 2, 2)
    at = c.choice("longest", (0, 1, 39, 78, 79))
    t = [["w"] for _ in range(80)]
    t[at] = [c.text("text", (3,))]
    sofa.add_variable("Words", c.np.array(t), "string", "MS")
    f = write(c, sofa)
    v = c.file_view(f)
    c.check(v.dims["S"][0] == 3, "size of S is not the longest text")
    w = v.vars["Words"].data.astype("U")
    c.check(c.same_text(w.reshape(80)[at], t[at][0]), "another text")
    check_layout(c, sofa, f, dict(M=80, R=2, N=2, E=1, C=3, I=1))
    c.reach("end")


def same_view(c, a, b, msg):
    c.check(sorted(a.attrs) == sorted(b.attrs), msg + ": attributes")
    for k in a.attrs:
        c.check(c.eq(a.attrs[k], b.attrs[k]), f"{msg}: attribute {k}")
    c.check(sorted(a.dims) == sorted(b.dims), msg + ": dimensions")
    for k in a.dims:
        c.check(a.dims[k][0] == b.dims[k][0], f"{msg}: dimension {k}")
    c.check(sorted(a.vars) == sorted(b.vars), msg + ": variables")
    for k in a.vars:
        x, y = a.vars[k], b.vars[k]
        c.check(x.dims == y.dims and str(x.dtype) == str(y.dtype),
                f"{msg}: type of {k}")
        c.check(c.eq(x.data, y.data), f"{msg}: values of {k}")
        c.check(sorted(x.attrs) == sorted(y.attrs),
                f"{msg}: attributes of {k}")
        for n in x.attrs:
            c.check(c.eq(x.attrs[n], y.attrs[n]), f"{msg}: {k}:{n}")


def compression(c):
    """All compression levels give the same content"""
    sofa = hrir(c)
    level = c.choice("level", range(10))
    f = write(c, sofa, "a.sofa", compression=level)
    g = write(c, sofa, "b.sofa")
    same_view(c, c.file_view(f), c.file_view(g), "compression changes")
    c.reach("end")


def overwrite(c):
    """Nothing is left of a file that existed before"""
    sofa = hrir(c)
    other = c.sf.Sofa("GeneralTF")
    other.add_variable("Foo", c.array("V", (c.size("X"),)), "double", "X")
    other.add_attribute("GLOBAL_Bar", "text")
    f = write(c, other)
    write(c, sofa)
    M, R, N = sofa.Data_IR.shape
    check_layout(c, sofa, f, dict(M=M, R=R, N=N, E=1, C=3, I=1))
    c.reach("end")


NAMES = ("a.sofa", "a", "a.b", "a.sofa.c", "sofa", ".x", "a.SOFA", "b.so",
         "x.sofa.sofa")


def suffix(c):
    """The suffix '.sofa' is appended if it is not there, given as text or
    path"""
    import os
    import pathlib
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR")
    name = c.choice("name", NAMES)
    want = name if name.endswith(".sofa") and name != ".sofa" \
        else name + ".sofa"
    folder = c.choice("folder", ("", "sub", "sub.sofa"))
    if folder:
        os.mkdir(c.path(folder))
    p = c.path(folder, name) if folder else c.path(name)
    if c.flag("path"):
        p = pathlib.Path(p)
    c.must(c.sf.write_sofa, p, sofa)
    found = sorted(x for x in os.listdir(c.path(folder) if folder
                                         else c.path()))
    c.check(found == [want], f"{name} gives the file {found}")
    o = c.must(c.sf.read_sofa, p, verbose=False)
    c.reach("end")


def cases(tier):
    return [Case("numeric", numeric), Case("reported", reported), Case("rows", rows),
            Case("general", general), Case("custom", custom),
            Case("deep", deep), Case("many", many), Case("long_texts", long_texts),
            Case("compression", compression), Case("overwrite", overwrite),
            Case("suffix", suffix)]
