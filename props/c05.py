"""C05: data of wrong type."""
from sx.run import Case
from sx.env import ASCII, WIDE
from props.common import *

ASSUMPTIONS = [
    "name and version of the convention are those of an existing convention "
    "(otherwise verify raises an error before looking at the types)",
]

# kind of value -> types of entries it is legal for
KINDS = {
    "text": "as", "empty": "as", "np.str_": "as", "wide": "as",
    "one-text list": "as",
    "int": "d", "float": "d", "np.float64": "d", "np.int64": "d",
    "np.float32": "d", "np.uint8": "d",
    "f8": "d", "f4": "d", "f2": "d", "i8": "d", "i2": "d", "u1": "d",
    "list": "d", "0-d": "d", "masked": "d", "range": "d",
    "U": "s", "S": "s", "text list": "s",
    "bool": "", "np.bool_": "", "b1": "", "complex": "", "c16": "",
    "np.complex64": "", "None": "", "bytes": "", "O": "", "O texts": "",
    "dict": "", "datetime": "", "timedelta": "", "mixed list": "s",
    "V": "",
}


def make(c, kind, n):
    """Value of a kind; n makes the names of inputs unique."""
    np = c.np
    if kind == "text":
        return c.text(f"t{n}", (1, 3))
    if kind == "wide":
        return c.text(f"t{n}", (2,), WIDE)
    if kind == "int":
        return c.int(f"i{n}")
    if kind == "float":
        return c.real(f"r{n}")
    if kind == "np.float64":
        return c.npscalar(c.real(f"r{n}"))
    if kind == "np.int64":
        return c.npscalar(c.int(f"i{n}"), "i")
    if kind == "f8":
        return c.array(f"A{n}", (c.size(f"a{n}"), 3))
    if kind == "i8":
        return c.array(f"A{n}", (c.size(f"a{n}"), 3), "i")
    if kind == "list":
        return [c.real(f"r{n}"), c.int(f"i{n}"), 3]
    if kind == "masked":
        return c.masked(f"A{n}", (1, 3))
    if kind == "U":
        return c.texts(f"t{n}", (1, 2), (0, 2))
    if kind == "S":
        return c.texts(f"t{n}", (2, 1), (1,), dtype="S")
    if kind == "text list":
        return ["ab", "c"]
    if kind == "one-text list":
        return ["ab"]
    import numpy
    import datetime
    return {
        "empty": "", "np.str_": numpy.str_("ab"),
        "np.float32": numpy.float32(1.5), "np.uint8": numpy.uint8(3),
        "f4": numpy.ones((1, 3), "f4"), "f2": numpy.ones((1, 3), "f2"),
        "i2": numpy.ones((1, 3), "i2"), "u1": numpy.ones((1, 3), "u1"),
        "0-d": numpy.array(2.0), "range": range(3),
        "bool": True, "np.bool_": numpy.bool_(True),
        "b1": numpy.ones((1, 3), bool), "complex": 1j,
        "np.complex64": numpy.complex64(1j),
        "c16": numpy.ones((1, 3), complex), "None": None, "bytes": b"ab",
        "O": numpy.array([[1, 2.5, None]], dtype=object),
        "O texts": numpy.array([["a", "b"]], dtype=object),
        "dict": {}, "datetime": numpy.array(["2020-01-01"], "M8[D]"),
        "timedelta": numpy.array([3], "m8[s]"),
        "mixed list": ["a", 1], "V": numpy.zeros(2, "V4"),
    }[kind]


TYPE = {"attribute": "a", "double": "d", "string": "s"}


def check_types(c, sofa, wrong, mode="read"):
    """wrong: names of all entries of wrong type"""
    o = c.must(sofa.verify, issue_handling="return", mode=mode)
    issues = "" if o.value is None else c.plain(o.value)
    lines = [x for x in issues.splitlines() if " must be " in x]
    c.check(("data of wrong type" in issues) == bool(wrong),
            f"wrong types are not reported for {sorted(wrong)}" if wrong
            else "legal types are reported: " + issues[:300])
    if wrong:
        c.reach("wrong")
    else:
        c.reach("right")
        return
    for k in keys_of(sofa):
        said = any(x.startswith(f"- {k} must be ") for x in lines)
        c.check(said == (k in wrong), f"type of {k} is reported wrongly")
    o = c.attempt(sofa.verify, mode=mode)
    c.check(o.raised(ValueError), "verify raises no error for wrong types")
    f = c.path("a.sofa")
    o = c.attempt(c.sf.write_sofa, f, sofa)
    c.check(o.raised(), "data of wrong type is written")
    c.check(not c.isfile(f), "a file with data of wrong type is left")


def objects(c, which):
    if which == "HRIR":
        sofa = c.sf.Sofa("SimpleFreeFieldHRIR")
        sofa.add_variable("Foo", 1.0, "double", "I")
        sofa.add_variable("Bar", "text", "string", "IS")
        sofa.add_attribute("Foo_Units", "metre")
        return sofa
    return c.sf.Sofa(which)


def single_case(which):
    def single(c):
        sofa = objects(c, which)
        keys = [k for k in keys_of(sofa) if k not in (
            "GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion")]
        key = c.choice("key", keys)
        kind = c.choice("kind", list(KINDS))
        sofa.protected = False
        setattr(sofa, key, make(c, kind, 0))
        sofa.protected = True
        good = TYPE[sofa._convention[key]["type"]] in KINDS[kind]
        check_types(c, sofa, set() if good else {key},
                    c.choice("mode", ("read", "write")))
    single.__doc__ = f"{which}: every entry with values of {len(KINDS)} kinds"
    return single


def several(c):
    """Two entries of arbitrary kinds"""
    sofa = objects(c, "SimpleHeadphoneIR")
    wrong = set()
    kinds = ("text", "int", "f8", "U", "complex", "None", "bool")
    for n, key in enumerate(("GLOBAL_Title", "MeasurementDate",
                             "SourceModel")):
        kind = c.choice(f"kind{n}", kinds)
        setattr(sofa, key, make(c, kind, n))
        if TYPE[sofa._convention[key]["type"]] not in KINDS[kind]:
            wrong.add(key)
    check_types(c, sofa, wrong)


def missing(c):
    """Wrong types are also found if mandatory data is missing"""
    sofa = objects(c, "SimpleFreeFieldHRIR")
    sofa.protected = False
    delattr(sofa, c.choice("missing", ("ListenerPosition_Units",
                                       "GLOBAL_RoomType", "Data_Delay")))
    key = c.choice("key", ("GLOBAL_Title", "Data_IR", "SourcePosition",
                           "SourcePosition_Type"))
    kind = c.choice("kind", ("text", "int", "f8", "U", "complex", "None"))
    setattr(sofa, key, make(c, kind, 0))
    sofa.protected = True
    wrong = TYPE[sofa._convention[key]["type"]] not in KINDS[kind]
    how = c.choice("issues", ("return", "raise"))
    o = c.attempt(sofa.verify, issue_handling=how, mode="read")
    if how == "raise":
        c.check(o.raised(ValueError), "missing data raises no error")
        said = c.plain(o.message)
    else:
        c.check(o.ok, "issues are not returned")
        said = "" if o.value is None else c.plain(o.value)
    c.check(("data of wrong type" in said) == wrong,
            "wrong types are not reported" if wrong else
            "legal types are reported")
    c.check((f"- {key} must be " in said) == wrong, f"report of {key}")
    c.reach("wrong" if wrong else "right")


def cases(tier):
    out = [Case("single_HRIR", single_case("HRIR"), weight=3),
           Case("single_headphone", single_case("SimpleHeadphoneIR"),
                weight=3), Case("several", several),
           Case("missing", missing)]
    if tier == "thorough":
        out += [Case("single_" + n, single_case(n)) for n in (
            "GeneralTF", "SimpleFreeFieldHRSOS", "SingleRoomMIMOSRIR")]
    return out
