"""C13: assigned values."""
from sx.run import Case
from sx.env import ASCII, WIDE
from props.common import *

ASSUMPTIONS = [
    "lists have up to four levels of up to three elements each (symbolic "
    "lengths and elements)",
]

CONV = "SimpleFreeFieldHRIR"
KEYS = ("Data_IR", "GLOBAL_Title", "SourcePosition_Units", "SourceUp", "Foo")


def target(c):
    """Where the value goes and how"""
    sofa = c.sf.Sofa(CONV)
    key = c.choice("key", KEYS)
    if key == "Foo":
        if c.flag("custom"):
            how = "add"
        else:
            sofa.add_variable("Foo", 1.0, "double", "I")
            how = "set"
    else:
        how = "unprotected" if c.flag("unprotected") else "set"

    def store(v):
        if how == "add":
            c.must(sofa.add_variable, key, v, "double", "MR",
                   msg="values can not be added")
        elif how == "unprotected":
            sofa.protected = False
            c.must(setattr, sofa, key, v, msg="values can not be assigned")
            sofa.protected = True
        else:
            c.must(setattr, sofa, key, v, msg="values can not be assigned")
        return getattr(sofa, key)
    return sofa, key, store


def flat(v):
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flat(y)]
    return [v]


def shape_of(v):
    s = ()
    while isinstance(v, (list, tuple)):
        s += (len(v),)
        v = v[0] if len(v) else None
    return s


def check_list(c, got, v):
    """Expected result for (nested) lists and other values"""
    elements, shape = flat(v), shape_of(v)
    if len(elements) == 1:
        c.check(ndim(got) == 0, "one element is not stored as scalar")
        c.check(c.eq(got, elements[0]), "another value is stored")
        c.reach("scalar")
        return
    if len(shape) < 2:
        shape = (1,) + shape
    c.check(ndim(got) == len(shape), "wrong number of dimensions: "
            f"{ndim(got)} instead of {len(shape)}")
    c.check(tuple(got.shape) == shape, "wrong shape")
    it = list(got.flatten())
    c.check(len(it) == len(elements), "elements are lost")
    c.check(c.conj(*[c.eq(a, b) for a, b in zip(it, elements)]),
            "other elements are stored or their order changed")
    if all(isinstance(x, int) and not isinstance(x, bool) for x in elements):
        # otherwise large integers would change
        c.check(got.dtype.kind == "i", "integers are not stored as integers")
    c.reach(f"{len(shape)} dimensions")


def nested(depth, kind):
    def fill(c, level, name, lens):
        if level == depth:
            if kind == "mixed":
                n = sum(int(x) for x in name)
                return c.int("i" + name) if n % 2 else c.real("r" + name)
            if kind == "int":
                return c.int("i" + name)
            if kind == "text":
                return c.text("t" + name, (0, 2) if name.strip("0") == ""
                              else (1,))
            return c.real("r" + name)
        seq = [fill(c, level + 1, name + str(k), lens)
               for k in range(lens[level])]
        return tuple(seq) if c_tuple[level % len(c_tuple)] else seq
    c_tuple = (False, True)

    def run(c):
        sofa, key, store = target(c)
        n = 3 if depth < 3 else 2
        lens = [c.concrete(c.size(f"n{k}", 1, n)) for k in range(depth)]
        v = fill(c, 0, "", lens)
        before = snapshot(c, sofa)
        got = store(v)
        check_list(c, got, v)
        check_same(c, before, entries(sofa), "other entry", (key,))
    run.__doc__ = f"Lists and tuples of {kind} with {depth} levels"
    return run


def scalars(c):
    """Single numbers"""
    sofa, key, store = target(c)
    k = c.choice("kind", ("int", "float", "np int", "np float", "bool",
                          "one", "nested one"))
    x = {"int": lambda: c.int("x"), "float": lambda: c.real("x"),
         "np int": lambda: c.npscalar(c.int("x"), "i"),
         "np float": lambda: c.npscalar(c.real("x")),
         "bool": lambda: True, "one": lambda: [c.real("x")],
         "nested one": lambda: [[[c.int("x")]]]}[k]()
    check_list(c, store(x), x)


def arrays(c):
    """Arrays of any number of dimensions keep shape, type and values"""
    sofa, key, store = target(c)
    n = c.choice("ndim", (1, 2, 3, 4))
    kind = c.choice("kind", ("f", "i", "b"))
    v = c.array("value", tuple(c.size(f"n{k}", 0 if k == 1 else 1, 4)
                               for k in range(n)), kind)
    got = store(v)
    c.check(ndim(got) == n, "the number of dimensions changed")
    c.check(got.dtype == v.dtype, "the type changed")
    c.check(c.eq(got, v), "the values changed")


def special(c):
    """Empty arrays, masked arrays, arrays of texts, 0-d arrays"""
    sofa, key, store = target(c)
    k = c.choice("kind", ("masked", "texts", "bytes", "0-d", "empty", "1",
                          "f4", "complex", "object"))
    import numpy
    if k == "masked":
        v = c.masked("value", (c.size("n"), 2))
    elif k == "texts":
        v = c.texts("value", (1, 2), (0, 1, 2))
    elif k == "bytes":
        v = c.texts("value", (2,), (1,), dtype="S")
    else:
        v = {"0-d": numpy.array(2.5), "empty": numpy.zeros((0, 3)),
             "1": numpy.array([1.5]), "f4": numpy.ones((1, 2), "f4"),
             "complex": numpy.array([1j, 2.0]),
             "object": numpy.array([None, 1], dtype=object)}[k]
    got = store(v)
    c.check(tuple(got.shape) == tuple(v.shape), "the shape changed")
    c.check(got.dtype == v.dtype, "the type changed")
    c.check((type(got) is type(v)), "the kind of array changed")
    if k == "masked":
        c.check(c.conj(c.eq(got.data, v.data), c.eq(got.mask, v.mask)),
                "the values or the mask changed")
    elif k not in ("complex", "object"):
        c.check(c.eq(got, v), "the values changed")
    else:
        c.check(list(got) == list(v), "the values changed")


def texts(c):
    """Texts and dictionaries"""
    sofa, key, store = target(c)
    k = c.choice("kind", ("text", "wide", "dict", "np.str_", "list"))
    if k == "list":
        v = [c.text("a", (0, 2))]
        check_list(c, store(v), v)
        return
    import numpy
    v = {"text": lambda: c.text("value", (0, 1, 4)),
         "wide": lambda: c.text("value", (1, 2), WIDE),
         "dict": lambda: {"a": 1, "b": [c.real("x")]},
         "np.str_": lambda: numpy.str_("ab")}[k]()
    got = store(v)
    if k == "dict":
        c.check(isinstance(got, dict) and list(got) == ["a", "b"] and
                isinstance(got["b"], list), "the dictionary changed")
        c.check(c.eq(got["b"][0], v["b"][0]), "the dictionary changed")
    else:
        c.check(isinstance(got, str), "texts are not stored as text")
        c.check(c.same_text(got, v), "the text changed")


def odd(c):
    """Other values and empty lists"""
    sofa, key, store = target(c)
    k = c.choice("kind", ("None", "bytes", "complex", "range", "[]", "[[]]",
                          "arrays", "set of rows", "np.bool_", "True",
                          "numbers", "special"))
    import numpy
    A = numpy.array([1.0, 2.0])
    v = {"None": None, "bytes": b"ab", "complex": 1 + 2j, "range": range(3),
         "[]": [], "[[]]": [[]], "arrays": [A, A + 1],
         "set of rows": ([1, 2], [3, 4]), "np.bool_": numpy.bool_(False),
         "True": True}.get(k)
    if k == "numbers":
        v = [1.5, c.choice("x", SPECIAL), 2.5]
        got = store(v)
        c.check(numpy.array_equal(got, numpy.array([v]), equal_nan=True),
                "other elements are stored")
        return
    if k == "special":
        v = c.choice("x", SPECIAL)
        got = store([[v]] if c.flag("list") else v)
        c.check(ndim(got) == 0 and (got == v or v != v and got != got),
                "another value is stored")
        return
    got = store(v)
    if k in ("None", "bytes", "complex", "np.bool_", "True"):
        c.check(ndim(got) == 0 and got == v, "another value is stored")
    else:
        want = {"range": [[0, 1, 2]], "[]": [[]], "[[]]": [[]],
                "arrays": [[1, 2], [2, 3]],
                "set of rows": [[1, 2], [3, 4]]}[k]
        c.check(got.tolist() == want, "other elements are stored")


def again(c):
    """Values are not converted a second time (verify, copy, write)"""
    sofa = c.sf.Sofa(CONV)
    sofa.add_variable("Foo", 1.0, "double", "MC")
    m = c.size("M", 1, 4)
    v = c.array("value", (m, 3))
    sofa.SourcePosition = v
    sofa.Foo = v
    sofa.Data_IR = c.array("IR", (m, 2, 2))
    before = snapshot(c, sofa)
    c.must(sofa.verify)
    c.must(c.sf.write_sofa, c.path("x.sofa"), sofa)
    check_same(c, before, entries(sofa), "verify and write")
    s = c.must(sofa.copy).value
    check_same(c, before, entries(s), "copy")
    for k in ("SourcePosition", "Foo", "Data_IR"):
        c.check(ndim(s.__dict__[k]) == ndim(before[k]), "dimensions")


def cases(tier):
    out = [Case(f"list_{d}_{k}", nested(d, k))
           for d in (1, 2, 3, 4) for k in ("real", "int", "mixed", "text")
           if tier == "thorough" or d < 3 or k in ("mixed", "text")]
    out += [Case("scalars", scalars), Case("arrays", arrays),
            Case("special", special), Case("texts", texts),
            Case("odd", odd), Case("again", again)]
    return out
