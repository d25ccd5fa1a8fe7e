"""C04: verification of dimensions."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, IDENT
from props.common import *

ASSUMPTIONS = [
    "all sizes are at least one",
    "variables that define the size of a dimension are not given as "
    "one-dimensional numpy arrays (their single axis is ambiguous: it is "
    "taken as the first axis for defining sizes and as the second axis for "
    "comparing shapes, as documented for lists)",
]


def is_string(dtype):
    return dtype == "string"


def shape_of(v):
    return tuple(v.shape) if hasattr(v, "shape") else ()


def unit_axes(c, shape):
    return c.conj(*[d == 1 for d in shape])


def matches(c, value, dtype, dims, sizes):
    """Condition: the shape of the value agrees with the dimensions."""
    ref = [1 if d == "S" else sizes[d.upper()] for d in dims]
    if isinstance(value, str):
        return unit_axes(c, ref)
    shape = shape_of(value)
    if dtype == "double" and len(dims) == 1:
        # a single axis may be anywhere
        if not shape:
            return ref[0] == 1
        return c.disj(*[c.conj(d == ref[0], unit_axes(
            c, shape[:i] + shape[i + 1:])) for i, d in enumerate(shape)])
    if dtype == "double" and len(shape) == 1:
        shape = (1,) + shape
    shape += (1,) * (len(ref) - len(shape))
    return c.conj(unit_axes(c, shape[len(ref):]),
                  *[a == b for a, b in zip(shape, ref)])


def defined_sizes(c, sofa):
    """Dimension -> sizes given by the variables that define it."""
    out = {}
    for k in keys_of(sofa):
        e = sofa._convention[k]
        if e["type"] == "attribute":
            continue
        shape = shape_of(getattr(sofa, k))
        for i, d in enumerate(e["dimensions"].split(", ")[0]):
            if d.islower():
                out.setdefault(d.upper(), []).append(
                    shape[i] if i < len(shape) else 1)
    return out


def longest(c, sofa):
    n = 0
    for k in keys_of(sofa):
        e = sofa._convention[k]
        if e["type"] == "string" and "S" in e["dimensions"]:
            v = getattr(sofa, k)
            for t in ([v] if isinstance(v, str) else
                      v.reshape(v.size).tolist()):
                n = max(n, len(t))
    return n


def check_dims(c, sofa, exact=True):
    """The whole property for one object."""
    sizes = defined_sizes(c, sofa)
    consistent = c.conj(*[s == v[0] for v in sizes.values() for s in v[1:]])
    sizes = {d: v[0] for d, v in sizes.items()}
    sizes.update(C=3, I=1)
    ok = {}
    for k in keys_of(sofa):
        e = sofa._convention[k]
        if e["type"] == "attribute":
            continue
        ok[k] = c.disj(*[matches(c, getattr(sofa, k), e["type"], dims, sizes)
                         for dims in e["dimensions"].split(", ")])
    good = c.conj(consistent, *ok.values())
    o = c.must(sofa.verify, issue_handling="return", mode="read")
    issues = "" if o.value is None else c.plain(o.value)
    accepted = "wrong shape" not in issues
    c.check(c.iff(accepted, good), "shapes are accepted although they do not "
            "fit" if accepted else "fitting shapes are rejected")
    if not accepted:
        c.reach("rejected")
        if exact:
            for k in ok:
                c.check(c.iff(f"- {k} has shape" in issues, c.neg(ok[k])),
                        f"{k} is reported wrongly")
        o = c.attempt(sofa.get_dimension, "M")
        c.check(o.raised(ValueError), "get_dimension works for wrong shapes")
        o = c.attempt(sofa.verify, mode="read")
        c.check(o.raised(ValueError), "verify raises no error")
        return False
    c.check("ERRORS" not in issues, "legal data is rejected: " +
            issues[:200])
    sizes["S"] = longest(c, sofa)
    for d, v in sizes.items():
        o = c.must(sofa.get_dimension, d)
        c.check(o.value == v, f"size of dimension {d} is wrong")
    o = c.attempt(sofa.get_dimension, "Q")
    c.check(o.raised(ValueError), "an unknown dimension has a size")
    c.reach("accepted")
    return True


def everything(c):
    """All numeric variables with sizes independent of each other"""
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR")
    a = [c.size(f"a{i}") for i in range(11)]
    sofa.Data_IR = c.array("IR", a[:3])
    sofa.Data_Delay = c.array("Delay", a[3:5])
    sofa.SourcePosition = c.array("Source", a[5:7])
    sofa.ReceiverPosition = c.array("Receiver", a[7:9])
    sofa.EmitterPosition = c.array("Emitter", a[9:11])
    check_dims(c, sofa)


KEYS = ("Data_IR", "Data_Delay", "Data_SamplingRate", "SourcePosition",
        "ReceiverPosition", "EmitterPosition", "SourceUp")
DEFINING = ("Data_IR", "ReceiverPosition", "EmitterPosition")


def one_case(key):
    def one(c):
        sofa = hrir(c)
        n = c.choice("ndim", (0, 2, 3, 4) if key in DEFINING else
                     (0, 1, 2, 3, 4))
        if n == 0:
            v = c.real("x")
        else:
            v = c.array("V", [c.size(f"s{i}") for i in range(n)])
        setattr(sofa, key, v)
        check_dims(c, sofa)
    one.__doc__ = f"{key} of any shape with up to four axes, in an object " \
        "with any sizes M, R, N"
    return one


def four_axes(c):
    """Data of four dimensions and delays of three, sizes independent"""
    sofa = c.sf.Sofa("SingleRoomMIMOSRIR")
    a = [c.size(f"a{i}") for i in range(7)]
    sofa.Data_IR = c.array("IR", a[:4])
    sofa.Data_Delay = c.array("Delay", a[4:7])
    R, E = c.size("R"), c.size("E")
    sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    sofa.EmitterPosition = c.array("Emitter", (E, 3))
    check_dims(c, sofa)


def tf(c):
    """Transfer functions: real part, imaginary part and frequencies"""
    sofa = c.sf.Sofa("GeneralTF")
    a = [c.size(f"a{i}") for i in range(6)]
    sofa.Data_Real = c.array("Re", a[:3])
    sofa.Data_Imag = c.array("Im", a[3:])
    n = c.choice("ndim", (1, 2))
    f = [c.size(f"f{i}") for i in range(n)]
    sofa.N = c.array("F", f)
    # M is defined by the real and the imaginary part
    check_dims(c, sofa, False)


def moving(c):
    """Positions per measurement (three axes), sampling rate per
    measurement"""
    sofa = c.sf.Sofa("SimpleFreeFieldHRIR")
    M, R = c.size("M"), c.size("R")
    a = [c.size(f"a{i}") for i in range(7)]
    sofa.Data_IR = c.array("IR", (M, R, 4))
    sofa.Data_Delay = c.array("Delay", (M, R))
    sofa.ReceiverPosition = c.array("Receiver", a[:3])
    sofa.EmitterPosition = c.array("Emitter", a[3:6])
    sofa.Data_SamplingRate = c.array("Fs", a[6:])
    check_dims(c, sofa)


def custom(c):
    """Two custom variables that share a custom dimension"""
    sofa = hrir(c, None, 2, 4)
    d1, d2 = c.choice("dims", (("MX", "XC"), ("X", "MXC"), ("X", "X"),
                               ("XY", "YX"), ("XX", "IX")))
    a = [c.size(f"a{i}") for i in range(5)]
    # a custom variable of one dimension is defined by its first axis
    v = c.array("V", a[:max(2, len(d1))] if len(d1) > 1 else
                (a[0], 1))
    w = c.array("W", a[2:2 + max(2, len(d2))] if len(d2) > 1 else (a[2],))
    sofa.add_variable("Foo", v, "double", d1)
    sofa.add_variable("Bar", w, "double", d2)
    check_dims(c, sofa, False)


def deep(c):
    """Custom variables of five and six dimensions"""
    sofa = hrir(c)
    dims = c.choice("dims", DEEP)
    sofa.add_variable("Foo", c.array("V", [c.size(f"s{i}") for i in range(
        len(dims) + c.choice("more axes", (-1, 0)))]), "double", dims)
    check_dims(c, sofa)


def history(c):
    """Sizes are those of the present data, not of earlier data"""
    sofa = hrir(c, None, 2, None)
    x = c.size("X")
    sofa.add_variable("Foo", c.array("V", (x, 1)), "double", "X")
    check_dims(c, sofa, False)
    if c.flag("delete"):
        sofa.delete("Foo")
        o = c.attempt(sofa.get_dimension, "X")
        c.check(o.raised(ValueError), "a dimension that is not used any more "
                "has a size")
    else:
        sofa.Foo = c.array("W", (c.size("Y"), 1))
    if c.flag("data"):
        sofa.Data_IR = c.array("IR2", (c.size("M2"), 2, c.size("N2")))
    check_dims(c, sofa, False)


def strings(c):
    """String variables of up to two axes with sizes up to two, for one or
    two measurements; texts of different length"""
    sofa = c.sf.Sofa("SimpleHeadphoneIR")
    M = c.concrete(c.int("M", 1, 2))
    sofa.Data_IR = c.array("IR", (M, 2, 4))
    sofa.Data_Delay = c.array("Delay", (M, 2))
    for k in ("SourceModel", "ReceiverDescriptions"):
        s = c.choice(k + ".shape", ((), (1,), (2,), (1, 1), (2, 1), (1, 2)))
        if s == ():
            v = c.text(k, (0, 2))
        else:
            v = c.texts(k, s, (1,) if k[0] == "S" else (3,))
        setattr(sofa, k, v)
    sofa.SourceManufacturer = c.np.array([["abcd"]] * M)
    check_dims(c, sofa)


def many_texts(c):
    """String variables with many texts: the longest is at any place"""
    sofa = hrir(c, 80, 2, 2)
    at = c.choice("longest", (0, 39, 78, 79))
    t = [["w"] for _ in range(c.choice("texts", (79, 80)))]
    t[min(at, len(t) - 1)] = [c.text("text", (3,))]
    sofa.add_variable("Words", c.np.array(t), "string", "MS")
    check_dims(c, sofa)


def string_axes(c):
    """String variables with two axes besides S"""
    M, R = c.concrete(c.int("M", 1, 2)), c.concrete(c.int("R", 1, 2))
    sofa = hrir(c, M, R, 2)
    dims = c.choice("dims", ("MRS", "RMS", "RS", "CRS"))
    s = tuple(c.concrete(c.int(f"s{i}", 1, 3))
              for i in range(c.choice("ndim", (1, 2, 3))))
    sofa.add_variable("Foo", c.np.full(s, "ab"), "string", dims)
    check_dims(c, sofa)


TABLE = ("IC, MC", "MC", "CM", "RCI, RCM", "MRN", "NRM", "I, M", "R", "IR",
         "NE, MRNE", "ECI, ECM, I", "MI")


def table_case(dims):
    def table(c):
        conv = {}
        dep, t = fixture.conventions()["SimpleFreeFieldHRIR_1.0"]
        t = dict(t)
        t["Foo"] = fixture.dbl(0, dims, None)
        conv["SimpleFreeFieldHRIR_1.0"] = (dep, t)
        c.write_conventions(conv=conv)
        M, R, N, E = (c.size(d) for d in "MRNE")
        sofa = hrir(c, M, R, N, E)
        n = c.choice("ndim", (0, 1, 2, 3, 4))
        sofa.Foo = c.real("x") if n == 0 else c.array(
            "V", [c.size(f"s{i}") for i in range(n)])
        check_dims(c, sofa)
    table.__doc__ = f"a variable with the dimensions '{dims}' and any shape" \
        " with up to four axes, any sizes M, R, N, E"
    return table


def define_case(dims, letters):
    def define(c):
        """Tables where other variables define the sizes"""
        dep, t = fixture.conventions()["SimpleFreeFieldHRIR_1.0"]
        t = dict(t)
        t["Data.IR"] = fixture.dbl([0, 0], "MRN", "m")
        t["Foo"] = fixture.dbl(0, dims, "m")
        t["Data.Other"] = fixture.dbl(0, letters, "m")
        c.write_conventions(
            conv={"SimpleFreeFieldHRIR_1.0": (dep, t)})
        sofa = c.sf.Sofa("SimpleFreeFieldHRIR", verify=False)
        a = [c.size(f"a{i}") for i in range(3)]
        sofa.Data_IR = c.array("IR", a)
        sofa.Data_Delay = c.array("D", (1, a[1]))
        sofa.ReceiverPosition = c.array("R", (a[1], 3))
        sofa.Foo = c.array("V", [c.size(f"v{i}") for i in range(
            c.choice("nv", (2, len(dims.split(", ")[0]))))])
        sofa.Data_Other = c.array("W", [c.size(f"w{i}") for i in range(
            max(2, len(letters)))])
        check_dims(c, sofa)
    define.__doc__ = f"variables of dimensions '{dims}' and '{letters}' " \
        "define the sizes of M and N"
    return define


def cases(tier):
    out = [Case("everything", everything, weight=3)]
    for k in KEYS:
        out.append(Case("one_" + k, one_case(k), weight=2))
    out += [Case("four_axes", four_axes), Case("tf", tf),
            Case("moving", moving, weight=3), Case("custom", custom),
            Case("deep", deep),
            Case("history", history),
            Case("strings", strings), Case("string_axes", string_axes),
            Case("many_texts", many_texts)]
    for d in TABLE:
        out.append(Case("table_" + d.replace(", ", "_"), table_case(d)))
    for d, e in (("nCm", "IN"), ("mI, MN", "In"), ("Im", "nM")):
        out.append(Case(f"define_{d.replace(', ', '_')}_{e}",
                        define_case(d, e)))
    return out
