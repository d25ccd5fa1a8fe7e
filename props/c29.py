"""C29: verification depends on the current data only."""
from sx import fixture
from sx.run import Case
from sx.env import ASCII, ALPHA
from props.common import *

ASSUMPTIONS = [
    "operations: assigning arrays of any shape, texts and units, adding and "
    "deleting custom and optional entries, dropping mandatory ones, adding "
    "missing ones, verifying, inspecting, listing dimensions, copying, "
    "writing and reading, upgrading",
    "the order of the lines in a report is arbitrary",
    "dates are not compared",
]

DIMS = "MRNECIPQ"
DATES = ("GLOBAL_DateCreated", "GLOBAL_DateModified")


class History:
    """An object, the operations and the definitions of custom entries"""

    def __init__(self, c, sofa):
        self.c, self.sofa = c, sofa
        self.custom = {}
        self.n = 0

    def free(self, f):
        self.sofa.protected = False
        try:
            f()
        finally:
            self.sofa.protected = True

    # -- operations -----------------------------------------------------------
    def look(self):
        s, c = self.sofa, self.c
        c.attempt(s.verify)
        c.attempt(s.inspect, None, "ignore")
        c.attempt(lambda: s.list_dimensions)

    def ir(self):
        c = self.c
        self.sofa.Data_IR = c.array(f"IR {self.n}", (
            c.size(f"m {self.n}"), 2, c.size(f"n {self.n}", 4, 9)))

    def delay(self):
        c = self.c
        self.sofa.Data_Delay = c.array(f"delay {self.n}", (
            c.size(f"x {self.n}"), c.choice(f"y {self.n}", (2, 7))))

    def text(self):
        self.sofa.Data_Delay = "text"

    def unit(self):
        self.sofa.ListenerPosition_Units = self.c.choice(
            f"unit {self.n}", ("Metre", "foot"))

    def type(self):
        self.sofa.ListenerPosition_Type = self.c.choice(
            f"type {self.n}", ("spherical", "polar"))

    def drop(self):
        k = "GLOBAL_RoomType"
        if hasattr(self.sofa, k):
            self.free(lambda: delattr(self.sofa, k))

    def missing(self):
        self.c.must(self.sofa.add_missing, verbose=False)

    def delete(self):
        if hasattr(self.sofa, "SourceUp"):
            self.sofa.delete("SourceUp")

    def add(self):
        c = self.c
        if "Foo" in self.custom:
            return
        dims = c.choice(f"dimensions {self.n}", ("MP", "PQ", "IR"))
        v = c.array(f"Foo {self.n}", tuple(
            c.size(f"{d} {self.n}", 2, 9) if d in "PQ" else
            {"I": 1, "R": 2, "M": self.sofa.SourcePosition.shape[0]}[d]
            for d in dims))
        c.must(self.sofa.add_variable, "Foo", v, "double", dims)
        self.custom["Foo"] = ("double", dims)

    def strings(self):
        c = self.c
        if "Foo" in self.custom:
            return
        c.must(self.sofa.add_variable, "Foo", c.np.array(["a", "bc"]),
               "string", "PS")
        self.custom["Foo"] = ("string", "PS")

    def attribute(self):
        if "Foo" in self.custom and "Foo_Units" not in self.custom:
            self.c.must(self.sofa.add_attribute, "Foo_Units", "metre")
            self.custom["Foo_Units"] = ("attribute", None)

    def remove(self):
        for k in ("Foo_Units", "Foo"):
            if k in self.custom:
                self.sofa.delete(k)
                del self.custom[k]

    def rename(self):
        """Names that are not allowed"""
        if "API_Foo" not in self.custom:
            if self.c.attempt(self.sofa.add_attribute, "GLOBAL_API_x",
                              "y").ok:
                self.custom["GLOBAL_API_x"] = ("attribute", None)

    def copy(self):
        self.sofa = self.sofa.copy()

    def file(self):
        c = self.c
        o = c.attempt(c.sf.write_sofa, c.path(f"{self.n}.sofa"), self.sofa)
        if o.ok:
            self.sofa = c.must(c.sf.read_sofa, c.path(f"{self.n}.sofa"),
                               verbose=False).value

    def failing(self):
        """Operations that raise errors"""
        c, s = self.c, self.sofa
        for f in (lambda: s.add_variable("Data_IR", 1, "double", "I"),
                  lambda: s.add_variable("Ba_r", 1, "double", "I"),
                  lambda: s.add_variable("Bar", 1, "float", "I"),
                  lambda: s.add_attribute("Nothing_Units", "metre"),
                  lambda: s.delete("Data_IR"),
                  lambda: setattr(s, "Bar", 1)):
            c.check(not c.attempt(f).ok, "no error")
        c.attempt(s.upgrade_convention, "Nothing_1.0")

    def upgrade(self):
        c, s = self.c, self.sofa
        if s.GLOBAL_SOFAConventionsVersion == "0.4":
            c.must(s.upgrade_convention, HRIR + "_1.0", False)
        elif s.GLOBAL_SOFAConventions == "MultiSpeakerBRIR":
            c.must(s.upgrade_convention, "SingleRoomMIMOSRIR_1.0", False)

    def run(self, op):
        self.n += 1
        getattr(self, op)()

    # -- comparison -----------------------------------------------------------
    def fresh(self):
        """A new object with the same content"""
        c, s = self.c, self.sofa
        n = s.__dict__
        f = c.sf.Sofa(n["GLOBAL_SOFAConventions"],
                      version=n["GLOBAL_SOFAConventionsVersion"],
                      verify=False)
        f.protected = False
        for k in keys_of(f):
            if k not in n:
                delattr(f, k)
        for k, v in entries(s).items():
            if k not in self.custom:
                v = v.copy() if hasattr(v, "shape") else v
                setattr(f, k, v)
        f.protected = True
        for k, (kind, dims) in self.custom.items():
            if kind == "attribute":
                c.must(f.add_attribute, k, n[k])
            else:
                c.must(f.add_variable, k, n[k].copy(), kind, dims)
        check_same(c, entries(s), entries(f), "new object")
        return f

    def compare(self):
        c = self.c
        b = self.fresh()
        a = self.sofa
        x = c.attempt(a.verify)
        y = c.attempt(b.verify)
        c.check(x.kind == y.kind, f"verify: {x.kind}, new object: {y.kind}")
        c.check(same_lines(c, x.message, y.message), "errors")
        c.check(same_lines(c, x.warned, y.warned), "warnings")
        x = c.attempt(a.verify, "return", "read")
        y = c.attempt(b.verify, "return", "read")
        c.check(x.ok and y.ok, f"verify: {x.kind}, new object: {y.kind}")
        c.check((x.value is None) == (y.value is None) and
                same_lines(c, x.value or "", y.value or ""), "issues")
        check_same(c, entries(a), entries(b), "verified", DATES)
        for d in DIMS:
            x, y = (c.attempt(s.get_dimension, d) for s in (a, b))
            c.check(x.kind == y.kind, f"size of {d}: {x.kind}, {y.kind}")
            c.check(not x.ok or c.eq(x.value, y.value), f"size of {d}")
        for name in ("list", "inspect"):
            x, y = (c.attempt(s.inspect, None, "ignore")
                    if name == "inspect" else
                    c.attempt(lambda: s.list_dimensions) for s in (a, b))
            c.check(x.kind == y.kind, f"{name}: {x.kind}, {y.kind}")
            c.check(same_lines(c, x.text, y.text, True), name)


def same_lines(c, a, b, dates=False):
    a, b = a.split("\n"), b.split("\n")
    if dates:
        a, b = ([x for x in t if not c.plain(x).startswith("GLOBAL_Date")]
                for t in (a, b))
    if len(a) != len(b):
        return False
    if all(c.same_text(x, y) is True for x, y in zip(a, b)):
        return True
    a, b = (sorted(t, key=lambda x: c.plain(x).split(" : ")[0].split(
        " has shape")[0]) for t in (a, b))
    return c.conj(*[c.same_text(x, y) for x, y in zip(a, b)])


OPS = ("ir", "delay", "text", "unit", "type", "drop", "missing", "delete",
       "add", "strings", "attribute", "remove", "copy", "file", "failing",
       "look", "rename")
# (first operations that change nothing are left out)
FIRST = (("ir",), ("delay",), ("text",), ("unit",), ("type",), ("drop",),
         ("delete",), ("add",), ("strings", "attribute"), ("rename",),
         ("copy",), ("file",), ("failing",), ("add", "look"),
         ("text", "look"))


def start(c):
    how = c.choice("start", ("single", "several", "several, unused",
                             "single, unused")[:4 if c.thorough else 3])
    M = c.size("M", 7, 20) if "several" in how else 1
    sofa = hrir(c, M, 2, 4, 1)
    if "unused" not in how:
        c.must(sofa.verify)
    return History(c, sofa)


def steps(first, n):
    def run(c):
        h = start(c)
        for op in first:
            h.run(op)
        for k in range(n):
            h.run(c.choice(f"step {k}", OPS))
        h.compare()
        c.reach("end")
    run.__doc__ = f"{', '.join(first)} and {n} more operations"
    return run


# longer sequences
LONG = (("add", "look", "remove", "add"), ("add", "remove", "strings"),
        ("strings", "look", "remove", "add"),
        ("add", "attribute", "look", "remove", "add", "attribute"),
        ("delete", "look", "missing"), ("drop", "look", "missing"),
        ("text", "look", "delay"), ("delay", "look", "delay"),
        ("ir", "look", "ir"), ("unit", "look", "type", "unit"),
        ("add", "copy", "remove", "add"), ("failing", "look", "add"),
        ("add", "file", "remove", "add"))

BEFORE = ("no", "look", "add", "strings", "failing", "copy", "delete",
          "drop", "file")
AFTER = ("no", "look", "add", "missing", "remove", "delete", "type", "file",
         "copy")


def upgraded(c):
    """Objects of older conventions"""
    if c.flag("moved"):
        sofa = c.sf.Sofa("MultiSpeakerBRIR", version="0.3", verify=False)
        M, N, E = c.size("M", 7, 20), 4, 2
        sofa.Data_IR = c.array("IR", (M, 2, E, N))
        sofa.Data_Delay = c.array("Delay", (M, 2, E))
        sofa.SourcePosition = c.array("Source", (M, 3))
        sofa.EmitterPosition = c.array("Emitter", (E, 3))
        sofa.ReceiverPosition = c.array("Receiver", (2, 3))
    else:
        sofa = hrir(c, c.size("M", 7, 20), 2, 4, 1, version="0.4")
    h = History(c, sofa)
    for k, ops in enumerate((BEFORE, ("upgrade",), AFTER)):
        op = c.choice(f"step {k}", ops) if len(ops) > 1 else ops[0]
        if op != "no":
            h.run(op)
    h.compare()
    c.reach("end")


def cases(tier):
    n = 2 if tier == "thorough" else 1
    first = FIRST + ((("delay", "look"),) if n > 1 else ())
    return [Case("upgraded", upgraded)] + [
        Case("_".join(f), steps(f, n - 1), weight=2) for f in LONG] + [
        Case("_".join(f), steps(f, n)) for f in first]
