"""C09: units."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII
from props.common import *

ASSUMPTIONS = [
    "a rule names one reference unit, in lower case, which consists of "
    "reference units of the alias table; aliases are lower case",
    "units are separated by ',' or ', ' (the docstring of _verify_unit also "
    "mentions spaces, but spaces also are part of units like 'cubic metre')",
    "letters are ASCII",
]

CONV = "SimpleFreeFieldHRIR"
ALIASES = {"m": "m", "km": "m", "d": "d", "d g": "d", "h": "h", "de": "d"}


def setup(c, ref, aliases):
    dep, t = fixture.conventions()[CONV + "_1.0"]
    t = dict(t)
    t["A"] = fixture.dbl(1, "I", None)
    t["A:Units"] = fixture.attr("m", None)
    c.write_conventions(conv={CONV + "_1.0": (dep, t)}, aliases=aliases,
                        rule={"A:Units": {"value": [ref]}})
    return c.sf.Sofa(CONV, verify=False)


def parts(c, v):
    """Split at commas with one optional following space."""
    out, word, i = [], "", 0
    while i < len(v):
        if c.same_text(v[i], ","):
            out.append(word)
            word = ""
            if i + 1 < len(v):
                if c.same_text(v[i + 1], " "):
                    i += 1
        else:
            word = word + v[i]
        i += 1
    return out + [word]


def legal(c, v, ref, aliases):
    """v (lower case) against the reference unit"""
    a, b = parts(c, v), parts(c, ref)
    if len(a) != len(b):
        return c.same_text(v, ref)
    return c.disj(c.same_text(v, ref), c.conj(*[
        c.disj(*[c.conj(c.same_text(x, k), c.same_text(r, y))
                 for k, r in aliases.items() if len(k) == len(x)])
        for x, y in zip(a, b)]))


def check_unit(c, sofa, v, ref, aliases, convert=True):
    sofa.A_Units = v
    low = v.lower()
    good = legal(c, low, ref, aliases)
    o = c.must(sofa.verify, issue_handling="return", mode="read")
    ok = o.value is None
    c.check(c.iff(ok, good), "a unit is accepted that is no alias of the "
            "reference" if ok else "a unit is rejected that is an alias of "
            "the reference")
    if not ok:
        c.check("- A_Units is " in c.plain(o.value), "the unit is not named")
    # writing demands lower case letters in addition
    o = c.must(sofa.verify, issue_handling="return", mode="write")
    c.check(c.iff(o.value is None, c.conj(good, c.same_text(low, v))),
            "units in write mode")
    if ok and convert:
        o = c.must(c.sf.Sofa._get_reference_unit, v, aliases)
        c.check(c.same_text(", ".join(parts(c, o.value)),
                            ", ".join(parts(c, ref))),
                "conversion to the reference spelling")
    c.reach("accepted" if ok else "rejected")


def unit_case(ref, lengths, chars=ASCII, aliases=ALIASES):
    def unit(c):
        spaces = c.flag("with spaces")
        al = {k: v for k, v in aliases.items() if spaces or " " not in k}
        sofa = setup(c, ref, al)
        c.know(ref, *al)
        v = c.text("units", lengths, chars)
        check_unit(c, sofa, v, ref, al,
                   not any(" " in k for k in al))
    unit.__doc__ = f"Reference '{ref}', every text of {lengths} characters"
    return unit


def near(ref, words, seps):
    """Texts made of aliases and separators with a symbolic character"""
    def build(c):
        sofa = setup(c, ref, fixture.UNIT_ALIASES)
        v = ""
        n = c.choice("n", (len(words), len(words) - 1, len(words) + 1))
        x = c.text("separator", (1, 2), ASCII)
        at = c.choice("at", (0, 1))
        for k in range(n):
            w = words[k] if k < len(words) else words[-1]
            if k:
                v = v + (x if k == at + 1 else c.choice(f"sep{k}", seps))
            v = v + c.choice(f"word{k}", w)
        c.know(*fixture.UNIT_ALIASES)
        check_unit(c, sofa, v, ref, fixture.UNIT_ALIASES,
                   "cubic" not in ref)
    build.__doc__ = f"Reference '{ref}', words of the table and every " \
        "separator of one or two characters"
    return build


def letter(ref, words):
    """One or two characters of a valid unit replaced"""
    def swap(c):
        sofa = setup(c, ref, fixture.UNIT_ALIASES)
        v = c.choice("unit", words)
        n = len(v)
        i = c.choice("at", tuple(range(0, n + 1)))
        x = c.text("by", (0, 1, 2), ASCII)
        cut = c.choice("cut", (0, 1))
        v = v[:i] + x + v[i + cut:]
        c.know(*fixture.UNIT_ALIASES)
        check_unit(c, sofa, v, ref, fixture.UNIT_ALIASES,
                   "cubic" not in ref)
    swap.__doc__ = f"Reference '{ref}', valid units with up to two " \
        "characters inserted or replaced at any place"
    return swap


def table(c):
    """Symbolic alias table"""
    low = ((97, 99),)
    a = c.text("alias 1", (1, 2), low)
    b = c.text("alias 2", (1, 2), low)
    c.assume(c.neg(c.disj(*[c.same_text(x, y) for x in (a, b)
                            for y in "md"], c.same_text(a, b))))
    al = {"m": "m", "d": "d"}
    al[a] = c.choice("of 1", ("m", "d"))
    al[b] = c.choice("of 2", ("m", "d"))
    ref = c.choice("ref", ("m", "d, m"))
    sofa = setup(c, ref, al)
    u = c.text("unit 1", (1, 2), ((97, 100), (65, 68)))
    v = u if ref == "m" else u + c.choice("sep", (",", ", ")) + \
        c.text("unit 2", (1,), ((97, 100), (109, 109)))
    check_unit(c, sofa, v, ref, al, False)


def several(c):
    """Several units and rules"""
    dep, t = fixture.conventions()[CONV + "_1.0"]
    t = dict(t)
    for k in ("A", "B", "Data.C"):
        t[k] = fixture.dbl(1, "I", None)
        t[k + ":Units"] = fixture.attr("m", None)
    ref_c = c.choice("reference of Data.C", ("h", "m"))
    c.write_conventions(
        conv={CONV + "_1.0": (dep, t)}, aliases=ALIASES,
        rule={"A:Units": {"value": ["m"]}, "B:Units": {"value": ["d"]},
              "Data.C:Units": {"value": [ref_c]}})
    sofa = c.sf.Sofa(CONV, verify=False)
    c.know(*ALIASES)
    good = {}
    for k, ref in (("A_Units", "m"), ("B_Units", "d"),
                   ("Data_C_Units", ref_c)):
        v = c.text(k, (1, 2) if k != "A_Units" or c.thorough else (1,))
        setattr(sofa, k, v)
        good[k] = legal(c, v.lower(), ref, ALIASES)
    o = c.must(sofa.verify, issue_handling="return", mode="read")
    txt = "" if o.value is None else c.plain(o.value)
    for k in good:
        c.check(c.iff(f"- {k} is " not in txt, good[k]),
                f"{k} is not judged by its own reference")


def cases(tier):
    deep = tier == "thorough"
    d = ["degree", "degrees"] + ["metre"] * deep
    m = ["metre", "degree"] + ["meters"] * deep
    dimmed = ((97, 97), (100, 101), (68, 68), (109, 109), (44, 44), (32, 32))
    out = [
        Case("one", unit_case("m", (0, 1, 2, 3, 4) if deep else (0, 1, 2, 3))),
        Case("two", unit_case("d, m", (3, 4, 5, 6) if deep else (3, 4))),
        Case("two_long", unit_case("d, m", (5, 6, 7) if deep else (5, 6),
                                   dimmed)),
        Case("three", unit_case("d, d, m", (5, 6, 7, 8) if deep else (5, 7),
                                dimmed)),
        Case("near", near("degree, degree, metre", (d, d, m), (",", ", "))),
        Case("near_two", near("metre, metre", (m, m), (",", ", ", " "))),
        Case("letter", letter("degree, degree, metre",
                              ("degree, degrees,meter",
                               "Degrees,degree, Metres"))),
        Case("letter_four", letter("metre, metre, degree, metre",
                                   ("metre, metre,degree, metre",))),
        Case("letter_one", letter("hertz", ("hertz", "Hertz"))),
        Case("letter_cubic", letter("cubic metre", ("cubic metre",))),
        Case("table", table), Case("several", several),
    ]
    return out
