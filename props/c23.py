"""C23: printed summaries."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, ALPHA, ALNUM
from props.common import *
from props.c03 import hrir_file
from props.c21 import VERBOSE

ASSUMPTIONS = [
    "texts of attributes contain no line breaks; numbers are printed as numpy "
    "does (their text is not modelled, but which value is printed where)",
    "streams: character arrays are listed with their dimensions only",
]

PRINT = ((32, 126),)


def letters(dims):
    """Possible dimensions of an entry"""
    return [d.strip().upper() for d in dims.split(",")] if dims else []


class Lines:
    def __init__(self, c, text):
        self.c, self.lines, self.pos = c, text.split("\n"), 0

    def next(self):
        if self.pos >= len(self.lines):
            self.c.check(False, "the text ends early")
        self.pos += 1
        return self.lines[self.pos - 1]

    def expect(self, text, msg):
        """The next lines"""
        for part in text.split("\n"):
            line = self.next()
            self.c.check(self.c.same_text(line, part), msg)

    def end(self):
        for x in self.lines[self.pos:]:
            self.c.check(len(x.strip()) == 0, "more lines than entries")


def size(c, v):
    n = 1
    for d in v.shape:
        n = n * d
    return n


def shape_text(c, v, options, sizes):
    """Condition and text for every possible shape"""
    out = []
    for o in options:
        shape = tuple(v.shape) + (1,) * (len(o) - len(v.shape))
        if len(shape) != len(o):
            continue
        # the size of the dimension S is that of the longest text
        fits = c.conj(*[c.eq(s, sizes[d]) for s, d in zip(shape, o)
                        if d != "S"])
        out.append((fits, ", ".join(
            f"{d}={s}" for s, d in zip(shape, o))))
    return out


def inspect(c, sofa, sizes=None, dims=None, file=None, kind="print"):
    """Call and check. dims: dimensions of custom entries, sizes: of the
    dimensions (None if they can not be verified)"""
    if file is not None and c.flag("existing file"):
        with c.open(file, "w") as f:
            f.write("what was there before\n" * 3)
    o = c.attempt(sofa.inspect, file, kind)
    c.check(o.ok, f"inspect fails ({o.kind}: {c.plain(o.message)[:200]})")
    check_text(c, o.text, sofa, sizes, dims, kind)
    if file is not None:
        with c.open(file, "r") as f:
            t = f.read()
        check_text(c, t, sofa, sizes, dims, "return")
    return o


def check_text(c, text, sofa, sizes, dims, kind):
    lines = Lines(c, text)
    n = sofa.__dict__
    first = (f"{n['GLOBAL_SOFAConventions']} "
             f"{n['GLOBAL_SOFAConventionsVersion']} "
             f"(SOFA version {n['GLOBAL_Version']})")
    # issues may be printed first
    while kind == "print" and not (
            len(lines.lines[lines.pos]) == len(first) and
            bool(c.same_text(lines.lines[lines.pos], first))):
        lines.next()
    lines.expect(first, "header")
    c.check(lines.next().strip("-") == "", "line below the header")
    table = {k.replace(":", "_").replace(".", "_"): v["dimensions"]
             for k, v in fixture.TABLES[
                 n["GLOBAL_SOFAConventions"] + "_"
                 + n["GLOBAL_SOFAConventionsVersion"]][1].items()}
    table.update(dims or {})
    for key, v in entries(sofa).items():
        if isinstance(v, str) or not hasattr(v, "shape") or \
                bool(c.eq(size(c, v), 1)):
            lines.expect(f"{key} : {v}", f"text of {key}")
            continue
        line = lines.next()
        if sizes is None:
            want = [(True, ", ".join(f"{s}" for s in v.shape))]
        else:
            want = shape_text(c, v, letters(table[key]), sizes)
        c.check(c.disj(*[c.conj(a, c.same_text(line, f"{key} : ({b})"))
                         for a, b in want]), f"shape of {key}")
        if bool(size(c, v) < 7):
            lines.expect("  " + str(c.np.squeeze(v)).replace("\n", "\n  "),
                         f"values of {key}")
    lines.end()


def numeric(c):
    """Data of any size"""
    M, R, N, E = (c.size(d) for d in "MRNE")
    sofa = hrir(c, M, R, N, E)
    if c.flag("no SourceUp"):
        sofa.delete("SourceUp")
    inspect(c, sofa, dict(M=M, R=R, N=N, E=E, I=1, C=3, S=0),
            file=c.path("a.txt") if c.flag("file") else None,
            kind=c.choice("issues", ("print", "raise", "return", "ignore")))
    c.reach("end")


def small(c):
    """Values of small arrays"""
    M, R, N = (c.concrete(c.int(d, 1, 3)) for d in "MRN")
    sofa = hrir(c, M, R, N, 1)
    inspect(c, sofa, dict(M=M, R=R, N=N, E=1, I=1, C=3, S=0))
    c.reach("end")


def special(c):
    """Values that are no numbers, very large or very small"""
    sofa = hrir(c, 1, 2, 3, 1)
    sofa.Data_IR = special_array(c, (1, 2, 3))
    sofa.Data_SamplingRate = c.choice("rate", SPECIAL)
    inspect(c, sofa, dict(M=1, R=2, N=3, E=1, I=1, C=3, S=0))
    c.reach("end")


def scalars(c):
    """Numbers, lists, single dimensions"""
    sofa = hrir(c, 1, 2, 2, 1)
    sofa.Data_SamplingRate = c.real("fs") if c.flag("number") else \
        [c.real("fs")]
    sofa.Data_Delay = [c.real("d0"), c.real("d1")]
    sofa.ListenerPosition = [[c.real("x"), 0., 1.]]
    inspect(c, sofa, dict(M=1, R=2, N=2, E=1, I=1, C=3, S=0))
    c.reach("end")


def texts(c):
    """Text of attributes"""
    sofa = hrir(c, 2, 1, 2, 1)
    sofa.GLOBAL_Title = c.text("title", (0, 1, 3), PRINT)
    sofa.GLOBAL_History = c.text("history", (0, 2), PRINT)
    sofa.add_attribute("GLOBAL_Foo", c.text("foo", (0, 1, 2), PRINT))
    sofa.add_attribute("SourcePosition_Foo", c.text("bar", (1,), PRINT))
    inspect(c, sofa, dict(M=2, R=1, N=2, E=1, I=1, C=3, S=0),
            file=c.path("a.txt"))
    c.reach("end")


def custom(c):
    """Custom variables"""
    M, P = c.size("M"), c.size("P")
    sofa = hrir(c, M, 2, 3, 1)
    dims = c.choice("dims", ("MP", "P", "IP", "MRP", "PP", "PC", "IPRI"))
    sizes = dict(M=M, R=2, N=3, E=1, I=1, C=3, S=0, P=P)
    sofa.add_variable("Foo", c.array("Foo", tuple(sizes[d] for d in dims)),
                      "double", dims)
    sofa.add_attribute("Foo_Units", "metre")
    inspect(c, sofa, sizes, {"Foo": dims})
    c.reach("end")


def strings(c):
    """String variables"""
    M = c.concrete(c.int("M", 1, 3))
    sofa = c.sf.Sofa("SimpleHeadphoneIR")
    sofa.Data_IR = c.array("IR", (M, 2, 4))
    sofa.SourcePosition = c.array("Source", (M, 3)) \
        if c.flag("positions") else [0., 0., 1.]
    sofa.SourceModel = c.np.array([c.text(f"m{i}", (0, 2))
                                   for i in range(M)])
    words = c.choice("words", ((2,), (2, 2), (4, 2), (7,)))
    sofa.add_variable("Words", c.np.array(
        ["a", "bcd", "e", "", "fg", "h", "i", "jk"][:words[0] * (
            words[1] if len(words) > 1 else 1)]).reshape(words),
        "string", "PRS" if len(words) > 1 else "PS")
    sizes = dict(M=M, R=2, N=4, E=1, I=1, C=3, P=words[0])
    o = inspect(c, sofa, sizes, {"Words": "PRS" if len(words) > 1
                                 else "PS"})
    c.reach("end")


def frequency(c):
    """Frequencies in a vector"""
    M, R, N = (c.size(d) for d in "MRN")
    sofa = c.sf.Sofa("GeneralTF", version=c.choice("version", ("1.0", "2.0")))
    sofa.Data_Real = c.array("Real", (M, R, N))
    sofa.Data_Imag = c.array("Imag", (M, R, N))
    sofa.N = c.array("N values", (N,))
    sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    inspect(c, sofa, dict(M=M, R=R, N=N, E=1, I=1, C=3, S=0))
    c.reach("end")


def invalid(c):
    """Objects that violate the convention"""
    M = c.size("M")
    sofa = hrir(c, M, 2, 3, 1)
    sizes = dict(M=M, R=2, N=3, E=1, I=1, C=3)
    what = c.choice("what", ("unit", "missing", "shape", "value"))
    if c.flag("before"):
        c.must(sofa.inspect, None, "ignore")
    sofa.protected = False
    if what == "unit":
        sofa.ListenerPosition_Units = "foot"
    elif what == "missing":
        del sofa.SourcePosition_Units
    elif what == "shape":
        sofa.Data_Delay = c.array("wrong", (c.size("X"), c.size("Y")))
    else:
        sofa.ListenerPosition_Type = "polar"
    sofa.protected = True
    kind = c.choice("issues", ("print", "return", "ignore"))
    o = c.attempt(sofa.inspect, None, kind)
    c.check(o.ok, f"inspect fails ({o.kind}: {c.plain(o.message)[:200]})")
    out = o.text.split("\n")
    names = [c.plain(x.split(" ")[0]) for x in out]
    for k, v in entries(sofa).items():
        n = [i for i, x in enumerate(names) if x == k and
             c.plain(out[i]).startswith(k + " : ")]
        c.check(len(n) == 1, f"{k} is listed {len(n)} times")
        if not isinstance(v, str) and hasattr(v, "shape") and \
                not bool(c.eq(size(c, v), 1)):
            # all sizes are listed
            t = out[n[0]][len(k) + 3:].strip("()").split(", ")
            names_ = [c.plain(x).split("=")[0] if "=" in c.plain(x) else ""
                      for x in t]
            t = [x.split("=")[-1] for x in t]
            c.check(len(t) >= len(v.shape), f"shape of {k}")
            # named dimensions have their size
            for d, a in zip(names_, t):
                c.check(d == "" or d == "S" or
                        c.same_text(a, f"{sizes[d]}"), f"dimension of {k}")
            for a, b in zip(t, tuple(v.shape) + (1,) * (
                    len(t) - len(v.shape))):
                c.check(c.same_text(a, f"{b}"), f"shape of {k}")
    c.reach("end")


def changes(c):
    """Summaries follow changes of the data"""
    M, N = c.size("M"), c.size("N")
    sofa = hrir(c, M, 2, N, 1)
    sizes = dict(M=M, R=2, N=N, E=1, I=1, C=3, S=0)
    if c.flag("before"):
        c.must(sofa.inspect)
    if c.flag("dimensions before"):
        c.must(lambda: sofa.list_dimensions)
    N2 = c.size("N2")
    sofa.Data_IR = c.array("IR2", (M, 2, N2))
    sizes["N"] = N2
    sofa.add_variable("Foo", c.array("Foo", (1, 3)), "double", "IP")
    sizes["P"] = 3
    list_dims(c, sofa, sizes)
    inspect(c, sofa, sizes, {"Foo": "IP"})
    sofa.delete("Foo")
    sizes.pop("P")
    inspect(c, sofa, sizes)
    list_dims(c, sofa, sizes)
    c.reach("end")


def list_dims(c, sofa, sizes, kind="FIR", harmonic=(False, False)):
    for d, n in sizes.items():
        if d != "S":
            o = c.attempt(sofa.get_dimension, d)
            c.check(o.ok and c.eq(o.value, n), f"size of {d}")
    c.check(c.attempt(sofa.get_dimension, "Q").raised(ValueError),
            "unknown dimension")
    o = c.attempt(lambda: sofa.list_dimensions)
    c.check(o.ok, f"listing dimensions fails ({o.kind}: "
            f"{c.plain(o.message)[:200]})")
    found = []
    for line in o.text.splitlines():
        w = line.split(" ")
        if len(w) < 4 or w[1] != "=":
            c.check(len(line.strip()) == 0, "line without dimension")
            continue
        d = c.plain(w[0])
        found.append(d)
        c.check(d in sizes, f"{d} is no dimension")
        c.check(c.same_text(w[2], f"{sizes[d]}"), f"size of {d}")
        rest = c.plain(" ".join(w[3:]))
        if "(set by " in rest:
            by = rest.split("(set by ")[1].split(" ")[0]
            c.check(by in entries(sofa), f"{by} does not set {d}")
            dims = sofa._convention[by]["dimensions"]
            c.check(d.lower() in dims and dims.upper() in rest,
                    f"{by} does not set {d}")
        if d == "N":
            c.check(VERBOSE.get(kind, "") in rest, "meaning of N")
            for k, word in VERBOSE.items():
                c.check(kind not in VERBOSE or word == VERBOSE[kind] or
                        word not in rest, "meaning of N")
        if d in "RE":
            c.check(("spherical harmonics" in rest) ==
                    harmonic["RE".index(d)], f"meaning of {d}")
            c.check(("receiver" if d == "R" else "emitter") in rest,
                    f"meaning of {d}")
        if d not in "MRNESCI":
            c.check("custom" in rest, "custom dimension")
    c.check(sorted(found) == sorted(sizes), "dimensions in the list")


def dimensions(c):
    """List of dimensions"""
    M, R, N, E, P = (c.size(d) for d in "MRNEP")
    sofa = hrir(c, M, R, N, E)
    sizes = dict(M=M, R=R, N=N, E=E, I=1, C=3, S=0)
    if c.flag("custom"):
        sofa.add_variable("Foo", c.array("Foo", (M, P)), "double", "MP")
        sizes["P"] = P
    if c.flag("string"):
        sofa.add_variable("Word", c.np.array(["abcd"]), "string", "IS")
        sizes["S"] = 4
    list_dims(c, sofa, sizes)
    c.reach("end")


def kinds(c):
    """Data types and spherical harmonics"""
    kind, name = c.choice("type", (("FIR", HRIR), ("TF", "GeneralTF"),
                                   ("SOS", "SimpleFreeFieldHRSOS"),
                                   ("FIR-E", "SingleRoomMIMOSRIR")))
    N = c.size("N") if kind != "SOS" else 6
    if kind == "FIR":
        sofa = hrir(c, 1, 2, N, 1)
        R = 2
    elif kind == "FIR-E":
        sofa, R = c.sf.Sofa(name), 2
        sofa.Data_IR = c.array("IR of emitters", (1, 2, N, 1))
        sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    elif kind == "TF":
        sofa = c.sf.Sofa(name, version="2.0")
        R = 2 if c.flag("harmonics of receivers") else 2
        sofa.Data_Real = c.array("Real", (1, R, N))
        sofa.Data_Imag = c.array("Imag", (1, R, N))
        sofa.N = c.array("N values", (N,))
        sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    else:
        sofa, R = c.sf.Sofa(name), 2
    h = [False, False]
    if kind == "TF":
        for k, d in enumerate(("Receiver", "Emitter")):
            if c.flag("harmonics " + d):
                h[k] = True
                setattr(sofa, d + "Position_Type", "spherical harmonics")
                setattr(sofa, d + "Position_Units", "degree, degree, metre")
                R = 1 if k == 0 else R
                if k == 0:
                    sofa.Data_Real = c.array("Real 1", (1, 1, N))
                    sofa.Data_Imag = c.array("Imag 1", (1, 1, N))
                    sofa.ReceiverPosition = c.array("Receiver 1", (1, 3))
    list_dims(c, sofa, dict(M=1, R=R, N=N, E=1, I=1, C=3, S=0), kind, h)
    c.reach("end")


def other_type(c):
    """Other data types"""
    sofa = hrir(c, 1, 2, c.size("N"), 1)
    sofa.protected = False
    sofa.GLOBAL_DataType = c.text("type", (0, 3))
    sofa.protected = True
    o = c.attempt(lambda: sofa.list_dimensions)
    c.check(o.ok, f"listing dimensions fails ({o.kind}: "
            f"{c.plain(o.message)[:200]})")
    c.check("M = 1 " in c.plain(o.text) and "R = 2 " in c.plain(o.text),
            "sizes")


def refused(c):
    """No sizes of data that can not be verified"""
    M, R, N = (c.size(d) for d in "MRN")
    X, Y = c.size("X"), c.size("Y")
    sofa = hrir(c, M, R, N, 1)
    what = c.choice("what", ("shape", "type"))
    if what == "shape":
        sofa.Data_Delay = c.array("wrong", (X, Y))
        ok = c.conj(c.eq(Y, R), c.disj(c.eq(X, M), c.eq(X, 1)))
    else:
        sofa.Data_Delay, ok = "text", False
    o = c.attempt(lambda: sofa.list_dimensions)
    c.check(c.iff(o.ok, ok), "dimensions are listed" if o.ok else
            f"listing dimensions fails ({o.kind})")
    c.check(o.ok or o.raised(ValueError), o.kind)
    p = c.attempt(sofa.get_dimension, "R")
    c.check(p.ok == o.ok, "get_dimension and list_dimensions differ")
    c.check(not p.ok or c.eq(p.value, R), "size of R")
    c.reach(o.kind)


def info(c):
    """Information about the convention"""
    sofa = hrir(c, 1, 2, 2, 1)
    sofa.add_variable("Foo", c.array("Foo", (1, 3)), "double", "IP")
    sofa.add_attribute("Foo_Units", "metre")
    which = c.choice("info", ("all", "mandatory", "optional", "read only",
                              "data", "key", "other"))
    table = {k.replace(":", "_").replace(".", "_"): v
             for k, v in fixture.TABLES[HRIR + "_1.0"][1].items()}
    table["Foo"] = {"flags": None, "type": "double", "dimensions": "IP"}
    table["Foo_Units"] = {"flags": None, "type": "attribute",
                          "dimensions": None}
    if which == "other":
        name = c.text("name", (1, 3), ALPHA)
        c.assume(c.neg(c.disj(*[c.same_text(name, k) for k in
                                list(table) + ["all", "data"]
                                if len(k) == len(name)])))
        c.check(c.attempt(sofa.info, name).raised(ValueError),
                "information about an unknown entry")
        return
    if which == "key":
        key = c.choice("key", ("Data_IR", "GLOBAL_Title", "Foo",
                               "SourcePosition_Type"))
        o = c.must(sofa.info, key)
        out = c.plain(o.text).split("\n")
        c.check(key in out, "name of the entry")
        rest = "\n".join(out[out.index(key):][:7])
        flags = table[key]["flags"] or ""
        for t in (f"type: {table[key]['type']}",
                  f"mandatory: {'m' in flags}", f"read only: {'r' in flags}",
                  "shape: " + str(table[key]["dimensions"]).upper()):
            c.check(t in rest, f"{t} is not shown")
        return
    o = c.must(sofa.info, which)
    c.check("deprecated" in c.plain(o.warned), "no warning")
    shown = {}
    for line in c.plain(o.text).split("\n")[3:]:
        if " : " in line and not line.startswith(" "):
            k, _, v = line.partition(" : ")
            c.check(k not in shown, f"{k} is listed twice")
            shown[k] = v
    for k in keys_of(sofa):
        flags = table[k]["flags"] or ""
        want = {"all": True, "mandatory": "m" in flags,
                "optional": "m" not in flags, "read only": "r" in flags,
                "data": table[k]["type"] != "attribute"}[which]
        c.check(want == (k in shown), f"{k} is " + (
            "not listed" if want else "listed"))
        if want:
            t = shown[k]
            d = table[k]["dimensions"]
            c.check(t.startswith(table[k]["type"] + (
                f" ({d.upper()})" if d else "")), f"type or shape of {k}")
            c.check(("mandatory" in t) == ("m" in flags) and
                    ("optional" in t) == ("m" not in flags) and
                    ("read only" in t) == ("r" in flags), f"flags of {k}")
    c.check(set(shown) <= set(keys_of(sofa)), "unknown entries are listed")


def stream(c):
    """SofaStream.inspect"""
    M, R, N, E = (c.size(d) for d in "MRNE")

    def extra(b):
        b.attr("History", c.text("history", (0, 2), PRINT))
        if c.flag("custom"):
            b.dim(P=c.size("P"))
            b.var("Foo.Bar", c.array("Foo", (b.dims["P"], 3)), "PC",
                  Units=c.text("unit", (1,), PRINT),
                  My_Type=c.text("type", (0, 1), PRINT), Third="3")
            b.attr("Long", "a long text " * 400)
            b.var("Scalar", c.np.array(c.real("scalar")), "")
            b.var("FooFour", c.array("Foo 4", (1, b.dims["P"], 1, 3)),
                  "IPIC")
    b = hrir_file(c, M, R, N, E, extra=extra)
    file = c.path("a.txt") if c.flag("file") else None
    if file and c.flag("existing file"):
        with c.open(file, "w") as f:
            f.write("what was there before\n" * 3)
    with c.sf.SofaStream(b.path) as s:
        o = c.attempt(s.inspect, file)
        c.check(o.ok, f"inspect fails ({o.kind}: "
                f"{c.plain(o.message)[:200]})")
    check_stream_text(c, b, o.text)
    if file:
        with c.open(file, "r") as f:
            check_stream_text(c, b, f.read())
    c.reach("end")


DIMS = {"ListenerPosition": "IC", "ReceiverPosition": "RCI",
        "SourcePosition": "MC", "EmitterPosition": "ECI", "Data_IR": "MRN",
        "Data_SamplingRate": "I", "Data_Delay": "IR", "Foo_Bar": "PC",
        "FooFour": "IPIC"}


def check_stream_text(c, b, text, dims=DIMS):
    lines = Lines(c, text)
    n = b.entries
    lines.expect(f"{n['GLOBAL_SOFAConventions']} "
                 f"{n['GLOBAL_SOFAConventionsVersion']} "
                 f"(SOFA version {n['GLOBAL_Version']})", "header")
    c.check(lines.next().strip("-") == "", "line below the header")
    order = [k for k in n if k.startswith("GLOBAL_")] + \
        [k for k in n if not k.startswith("GLOBAL_")]
    for key in order:
        v = n[key]
        if isinstance(v, str):
            lines.expect(f"{key} : {v}", f"text of {key}")
            continue
        line = lines.next()
        if bool(c.eq(size(c, v), 1)):
            c.check(c.disj(*[c.same_text(line, f"{key} : {x}") for x in (
                v, v.reshape(-1)[0]) + ((v[0],) if len(v.shape) else ())]),
                f"value of {key}")
            continue
        c.check(c.same_text(line, f"{key} : (" + ", ".join(
            f"{d}={s}" for d, s in zip(dims[key], v.shape)) + ")"),
            f"shape of {key}")
        if bool(size(c, v) < 7):
            lines.expect("  " + str(c.np.squeeze(v)).replace("\n", "\n  "),
                         f"values of {key}")
    lines.end()


def same_as_stream(c):
    """Both kinds of inspection of a file that was written"""
    sofa = hrir(c, c.size("M"), 2, 4, 1)
    sofa.GLOBAL_Title = c.text("title", (1,), PRINT)
    path = c.path("x.sofa")
    c.must(c.sf.write_sofa, path, sofa)
    with c.sf.SofaStream(path) as s:
        a = c.must(s.inspect).text
    back = c.must(c.sf.read_sofa, path, verbose=False).value
    b = c.must(back.inspect).text
    x, y = a.split("\n"), b.split("\n")
    c.check(len(x) == len(y), "number of lines")
    for u, v in zip(x, y):
        if u.split(" ")[0] in ("Data_SamplingRate",):
            continue
        c.check(c.same_text(u, v), "other line: " + c.plain(u))


@also_after("custom", "small", "changes")
def cases(tier):
    return [Case(f.__name__, f) for f in (
        numeric, small, special, scalars, texts, custom, strings, frequency, invalid,
        changes, dimensions, kinds, other_type, refused, info, stream,
        same_as_stream)]
