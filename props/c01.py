"""C01: write-read round trip."""
from sx.run import Case
from sx.env import ASCII, WIDE, ALPHA
from props.common import *

ASSUMPTIONS = [
    "texts contain no NUL characters (the file format pads with them)",
    "names of custom entries are Python identifiers",
]


def squeezed_eq(c, a, b):
    return c.eq(c.np.squeeze(c.np.asarray(a)), c.np.squeeze(c.np.asarray(b)))


def check_round(c, before, sofa):
    after = entries(sofa)
    for k in before:
        c.check(k in after, f"{k} is lost")
    for k in after:
        c.check(k in before, f"{k} appears")
    for k in before:
        a, b = before[k], after[k]
        if isinstance(a, str) and isinstance(b, str):
            c.check(c.same_text(a, b), f"text of {k} changes")
        elif isinstance(a, str) != isinstance(b, str) and (
                isinstance(a, str) or isinstance(b, str)):
            # string variables: one text or an array with one text
            x, y = (a, b) if isinstance(a, str) else (b, a)
            c.check(c.eq(c.np.squeeze(c.np.asarray([x])), c.np.squeeze(y)),
                    f"text of {k} changes")
        else:
            c.check(squeezed_eq(c, a, b), f"value of {k} changes")


def round_trip(c, sofa, name="a.sofa", must_verify=True, **kw):
    o = c.attempt(sofa.verify)
    if must_verify:
        c.check(o.ok, f"verify rejects legal data: {c.plain(o.message)}")
    if not o.ok:
        c.reach("rejected")
        return
    before = snapshot(c, sofa)
    f = c.path(name)
    c.must(c.sf.write_sofa, f, sofa, **kw)
    o = c.must(c.sf.read_sofa, f, verbose=False)
    check_round(c, before, o.value)
    c.reach("end")
    return o.value


def numeric(c):
    """Numeric data of any size in all dimensions (M, R, N, E)"""
    sofa = hrir(c, E=c.size("E"))
    round_trip(c, sofa)


def boundaries(c):
    """Emitter data of three dimensions (E, C, M), all sizes"""
    M, R, N, E = (c.size(d) for d in "MRNE")
    sofa = hrir(c, M, R, N)
    sofa.EmitterPosition = c.array("Emitter", (E, 3, M))
    sofa.ReceiverPosition = c.array("ReceiverM", (R, 3, M))
    sofa.ListenerPosition = c.array("Listener", (M, 3))
    sofa.Data_SamplingRate = c.array("Fs", (M,))
    round_trip(c, sofa)


SHAPES = {"Data_IR": (1, 2, 3, 4), "Data_Delay": (1, 2, 3),
          "Data_SamplingRate": (0, 1, 2, 3), "SourcePosition": (1, 2, 3),
          "EmitterPosition": (1, 2, 3, 4), "ReceiverPosition": (2, 3)}


def shape_case(key):
    def fn(c):
        n = c.choice("ndim", SHAPES[key])
        sofa = hrir(c)
        v = c.array("V", tuple(c.size(f"s{i}") for i in range(n)))
        if n == 0:
            v = c.npscalar(c.real("x"))
        setattr(sofa, key, v)
        round_trip(c, sofa, must_verify=False)
    fn.__doc__ = f"{key} of any shape with {SHAPES[key]} dimensions: " \
        "if verify accepts it, the round trip preserves it"
    return fn


def kinds(c):
    """Values given as int, float, numpy scalar, list, or integer array"""
    k = c.choice("kind", ("int", "float", "npf", "npi", "list", "nested",
                          "iarr", "zero-d"))
    sofa = hrir(c)
    M, R = sofa.Data_IR.shape[:2]
    key, v = "Data_SamplingRate", None
    if k == "int":
        v = c.int("x")
    elif k == "float":
        v = c.real("x")
    elif k == "npf":
        v = c.npscalar(c.real("x"))
    elif k == "npi":
        v = c.npscalar(c.int("x"), "i")
    elif k == "list":
        key, v = "ListenerPosition", [c.real("x"), c.real("y"), c.int("z")]
    elif k == "nested":
        key, v = "ListenerPosition", [[c.real("x"), c.real("y"), 1]]
    elif k == "iarr":
        key, v = "Data_Delay", c.array("V", (M, R), "i")
    else:
        v = c.np.asarray(c.array("V", ()))
    setattr(sofa, key, v)
    round_trip(c, sofa)


def masked(c):
    """Missing values of arrays with three dimensions (all sizes)"""
    M, R, N = (c.size(d) for d in "MRN")
    sofa = hrir(c, M, R, N)
    which = c.choice("which", ("SourcePosition", "Data_IR", "Foo"))
    if which == "SourcePosition":
        key, v = which, c.masked("Masked", (M, 3))
    elif which == "Data_IR":
        key, v = which, c.masked("masked", (M, R, N))
    else:
        key, v = which, c.masked("mas", (M,))
        sofa.add_variable(key, v, "double", "M")
    setattr(sofa, key, v)
    c.check(c.attempt(sofa.verify).ok, "verify rejects legal data")
    f = c.path("a.sofa")
    c.must(c.sf.write_sofa, f, sofa)
    back = c.must(c.sf.read_sofa, f, verbose=False).value
    got = getattr(back, key)
    if bool(c.np.ma.is_masked(v)):
        c.check(c.np.ma.isMaskedArray(got), "no value is missing any more")
        c.check(c.eq(c.np.squeeze(got), c.np.squeeze(v)),
                f"value of {key} changes")
        c.reach("missing")
    else:
        c.check(c.eq(c.np.squeeze(c.np.asarray(got)),
                     c.np.squeeze(c.np.asarray(v.data))),
                f"value of {key} changes")
        c.reach("complete")


def special(c):
    """Values that are no numbers, very large or very small"""
    key = c.choice("key", ("Data_IR", "Data_SamplingRate", "SourcePosition",
                           "Foo"))
    sofa = hrir(c, 1, 2, 3, 1)
    v = special_array(c, {"Data_IR": (1, 2, 3), "Data_SamplingRate": (1,),
                          "SourcePosition": (1, 3), "Foo": (2, 2)}[key])
    if key == "Foo":
        sofa.add_variable(key, v, "double", "XY")
    elif c.flag("list"):
        setattr(sofa, key, v.tolist())
    else:
        setattr(sofa, key, v)
    round_trip(c, sofa)


def tf(c):
    """Transfer functions: N given by Data_Real, frequencies, any size"""
    sofa = c.sf.Sofa("GeneralTF")
    M, R, N = (c.size(d) for d in "MRN")
    sofa.Data_Real = c.array("Re", (M, R, N))
    sofa.Data_Imag = c.array("Im", (M, R, N))
    sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    sofa.N = c.array("F", (N,))
    round_trip(c, sofa)


def fire(c):
    """Data of four dimensions (M, R, N, E)"""
    sofa = c.sf.Sofa("SingleRoomMIMOSRIR")
    M, R, N, E = (c.size(d) for d in "MRNE")
    sofa.Data_IR = c.array("IR", (M, R, N, E))
    sofa.Data_Delay = c.array("Delay", (M, R, E))
    sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    sofa.EmitterPosition = c.array("Emitter", (E, 3))
    round_trip(c, sofa)


def strings_case(chars, lengths, dtypes):
    def fn(c):
        sofa = c.sf.Sofa("SimpleHeadphoneIR")
        M = c.concrete(c.int("M", 1, 2))
        sofa.Data_IR = c.array("IR", (M, 2, 4))
        sofa.Data_Delay = c.array("Delay", (M, 2))
        d = c.choice("dtype", dtypes)
        shape = c.choice("shape", ((M, 1), (M,)) if M > 1 else ((1,),))
        sofa.SourceModel = c.texts("model", shape, lengths, chars, d)
        sofa.ReceiverDescriptions = c.texts("rec", (M, 1), (0, 2), chars)
        sofa.SourceManufacturer = c.np.array([["a"], ["bcd"]][:M])
        round_trip(c, sofa)
    fn.__doc__ = f"String variables with up to 2 x {max(lengths)} " \
        f"characters of {chars}, arrays of type {dtypes}"
    return fn


def strings_nd(c):
    """String variables with two dimensions (and S) of any order and of
    sizes up to 3, with and without trailing singleton dimension"""
    M, R = c.concrete(c.int("M", 1, 2)), c.concrete(c.int("R", 1, 3))
    sofa = hrir(c, M, R, 2)
    dims = c.choice("dims", ("MRS", "RMS"))
    shape = (M, R) if dims == "MRS" else (R, M)
    if c.flag("trailing"):
        shape += (1,)
    sofa.add_variable("Foo", c.texts("v", shape, (1,)), "string", dims)
    round_trip(c, sofa)


def strings_str(c):
    """String variables given as text"""
    sofa = c.sf.Sofa("SimpleHeadphoneIR")
    sofa.SourceModel = c.text("model", (0, 1, 4))
    sofa.ReceiverDescriptions = c.text("rec", (0, 1, 3))
    round_trip(c, sofa)


def attributes(c):
    """Texts of global and variable attributes (any unicode characters)"""
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR")
    n = (0, 1, 4)
    sofa.GLOBAL_Title = c.text("title", n, WIDE)
    sofa.GLOBAL_History = c.text("history", (0, 3), WIDE)
    sofa.add_attribute("SourcePosition_Comment", c.text("com", n, WIDE))
    sofa.add_attribute("GLOBAL_Extra", c.text("extra", (1, 3), WIDE))
    round_trip(c, sofa)


def custom(c):
    """Custom variables of any size (own dimensions included), custom
    attributes, and names that are part of other names"""
    sofa = hrir(c)
    M = sofa.Data_IR.shape[0]
    n = c.choice("names", (("SourceUpFoo", "SourceUpF"),
                           ("Data", "DataX"), ("Room", "Listener"),
                           ("X", "GlobalY")))
    sofa.add_variable(n[0], c.array("V", (M, c.size("X"))), "double", "MX")
    sofa.add_attribute(n[0] + "_Units", c.text("u", (1, 3), ALPHA[1:]))
    sofa.add_attribute(n[0] + "_Type", c.text("t", (2,)))
    sofa.add_variable(n[1], c.real("w"), "double", "I")
    sofa.add_attribute("GLOBAL_" + n[1], c.text("g", (0, 2)))
    round_trip(c, sofa)


def custom_string(c):
    """Custom string variables"""
    sofa = c.sf.Sofa("GeneralTF")
    sofa.add_variable("Comment", c.texts("v", (1, 1), (0, 3)), "string", "IS")
    sofa.add_variable("Note", c.text("n", (0, 2)), "string",
                      c.choice("d", ("MS", "IS", "S")))
    round_trip(c, sofa)


def deep_dims(c):
    """Custom variables of five and six dimensions, any sizes"""
    sofa = hrir(c)
    M, R, N = sofa.Data_IR.shape
    dims = c.choice("dims", DEEP)
    sofa.add_variable("Foo", deep_variable(
        c, dict(M=M, R=R, N=N, C=3, I=1), dims), "double", dims)
    round_trip(c, sofa)


def long_texts(c):
    """Long texts in attributes and string variables, long names"""
    sofa = c.sf.Sofa("SimpleHeadphoneIR")
    sofa.GLOBAL_Title = long_text(c, "global", 9000)
    sofa.add_attribute("SourcePosition_Foo", long_text(c, "attr", 4000))
    sofa.SourceModel = long_text(c, "model", 700)
    sofa.add_variable("Foo" * 30, c.np.array(
        [["ab", long_text(c, "foo", 300)]]), "string", "IRS")
    sofa.add_attribute("Foo" * 30 + "_" + "Bar" * 40, "x")
    round_trip(c, sofa)


def many(c):
    """Many custom entries, string variables with many texts"""
    sofa = hrir(c, 80, 2, 2)
    for i in range(80):
        sofa.add_variable(f"Var{i}", c.np.array([[i, i + 1.]]), "double",
                          "IX")
        sofa.add_attribute(f"Var{i}_Units", f"unit {i}")
        sofa.add_attribute(f"GLOBAL_Attr{i}", f"text {i}")
    sofa.Var79 = c.array("last", (1, 2))
    sofa.add_variable("Words", c.np.array([["w"]] * 79 + [[c.text(
        "text", (0, 2))]]), "string", "MS")
    round_trip(c, sofa)


def deleted(c):
    """Objects without some of the optional entries"""
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR")
    for i, k in enumerate(("SourceUp", "GLOBAL_History",
                           "GLOBAL_ApplicationName")):
        if c.flag(f"d{i}"):
            sofa.delete(k)
    round_trip(c, sofa)


def files(c):
    """File names with and without suffix, all compression levels"""
    sofa = hrir(c, 1, 2, c.size("N"))
    name = c.choice("name", ("a.sofa", "a", "a.b", "a.sofa.c", "sofa",
                             ".sofa.sofa", "a.SOFA", "a.nc"))
    round_trip(c, sofa, name,
               compression=c.choice("compression", range(10)))


def twice(c):
    """Objects that were read can be written and read again"""
    sofa = hrir(c, E=1)
    sofa.add_variable("Foo", c.array("V", (c.size("X"),)), "double", "X")
    sofa.GLOBAL_Title = c.text("t", (3,))
    o = round_trip(c, sofa)
    if o is not None:
        round_trip(c, o, "b.sofa")


def cases(tier):
    deep = tier == "thorough"
    out = [Case("numeric", numeric), Case("boundaries", boundaries),
           Case("kinds", kinds), Case("tf", tf), Case("fire", fire),
           Case("masked", masked), Case("special", special)]
    for k in SHAPES:
        out.append(Case("shape_" + k, shape_case(k)))
    out += [
        Case("strings", strings_case(ASCII, (0, 1, 3) if deep else (0, 2),
                                     ("U", "S"))),
        Case("strings_wide", strings_case(WIDE, (1,), ("U",))),
        Case("strings_nd", strings_nd),
        Case("strings_str", strings_str), Case("attributes", attributes),
        Case("custom", custom), Case("deep_dims", deep_dims), Case("many", many),
        Case("long_texts", long_texts), Case("custom_string", custom_string),
        Case("deleted", deleted), Case("files", files), Case("twice", twice)]
    return out
