"""C25: checking, writing and failing never damage data."""
import os
from sx import fixture
from sx.run import Case
from sx.env import ASCII, ALPHA, WIDE
from props.common import *

ASSUMPTIONS = [
    "verify adds missing mandatory data if it does not raise (documented)",
    "the file library fails at one operation (opening, creating, reading or "
    "writing a dimension, attribute or variable, or closing) with OSError, "
    "RuntimeError or MemoryError; failing to close releases the file",
    "objects are those of the fixture conventions with modifications",
]

CONV = "SimpleFreeFieldHRIR"


def make(c, extra=True, M=None, N=None):
    sofa = c.sf.Sofa(CONV)
    M = c.size("M", 1) if M is None else M
    N = c.size("N", 1) if N is None else N
    sofa.Data_IR = c.array("IR", (M, 2, N))
    sofa.ListenerPosition = [c.real("x"), 0., 1.]
    sofa.GLOBAL_Title = c.text("title", (0, 2))
    # (entries that differ from the defaults)
    sofa.protected = False
    for k in ("APIName", "APIVersion", "DateCreated", "DateModified"):
        setattr(sofa, "GLOBAL_" + k, " other " + k)
    sofa.protected = True
    if extra:
        sofa.add_variable("Foo", c.array("Foo", (1, 2)), "double", "IP")
        sofa.add_attribute("Foo_Units", "metre")
        sofa.add_variable("Words", c.np.array(["a", "bc"]), "string", "PS")
    return sofa


SPOIL = ("nothing", "shape", "rank", "more receivers", "number as text",
         "text as number", "list of texts", "value", "unit", "dependency",
         "missing", "missing attribute", "attribute list", "masked",
         "convention", "strings", "old version", "upper case unit", "scalar",
         "integer array", "float32", "special")


def spoil(c, sofa, what):
    """Modifications, most of them not allowed"""
    sofa.protected = False
    if what == "shape":
        sofa.SourcePosition = c.array("source", (c.size("K", 1), 3))
    elif what == "rank":
        sofa.SourcePosition = c.array("source", (1, 3, c.size("K", 1)))
    elif what == "more receivers":
        sofa.ReceiverPosition = c.array("rec", (c.size("K", 1), 3))
    elif what == "number as text":
        sofa.Data_SamplingRate = c.text("rate", (1,))
    elif what == "text as number":
        sofa.GLOBAL_Title = c.real("title number")
    elif what == "list of texts":
        sofa.ListenerPosition = ["a", "b", "c"]
    elif what == "value":
        sofa.GLOBAL_RoomType = c.text("room", (4,), ALPHA)
    elif what == "special":
        sofa.Data_IR = special_array(c, (1, 2, 3))
    elif what == "unit":
        sofa.SourcePosition_Units = c.text("unit", (5,), ALPHA)
    elif what == "upper case unit":
        sofa.ListenerPosition_Units = "Metre"
    elif what == "dependency":
        sofa.GLOBAL_RoomType = "reverberant"
    elif what == "missing":
        del sofa.ListenerPosition
    elif what == "missing attribute":
        del sofa.GLOBAL_AuthorContact
    elif what == "attribute list":
        sofa.GLOBAL_History = ["a", "b"]
    elif what == "masked":
        sofa.Data_IR = c.masked("masked", (c.size("K", 1), 2, 2))
    elif what == "convention":
        sofa.GLOBAL_SOFAConventions = c.text("convention", (2,), ALPHA)
    elif what == "strings":
        sofa.Words = c.texts("words", (c.size("K", 1, 3), 1), (1,))
    elif what == "old version":
        sofa.GLOBAL_SOFAConventionsVersion = "0.4"
        del sofa.SourceUp
    elif what == "scalar":
        sofa.Data_Delay = c.real("delay")
    elif what == "integer array":
        sofa.Data_Delay = c.array("delay", (1, 2), "i")
    elif what == "float32":
        sofa.Data_Delay = c.np.array([[1.0, 2.0]], dtype="float32")
    sofa.protected = True


def deep(v):
    if hasattr(v, "shape"):
        return v.copy()
    if isinstance(v, list):
        return [deep(x) for x in v]
    return v


def state(c, sofa):
    return ({k: deep(v) for k, v in entries(sofa).items()},
            dict(entries(sofa)),
            {k: dict(v) for k, v in sofa._convention.items()},
            {k: dict(v) for k, v in getattr(sofa, "_custom", {}).items()},
            sofa.protected)


def same(c, a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and \
            len(a) == len(b) and c.conj(
                *[same(c, x, y) for x, y in zip(a, b)])
    return c.eq(a, b)


def check_unchanged(c, before, sofa, msg, added=()):
    """added: names of entries that may have been added"""
    now = entries(sofa)
    for k in before[0]:
        c.check(k in now, f"{msg}: {k} vanished")
        c.check(same(c, before[0][k], now[k]), f"{msg}: {k} changed")
        # data the user holds a reference to
        c.check(same(c, before[0][k], before[1][k]),
                f"{msg}: data of {k} changed")
        if hasattr(now[k], "dtype") and ndim(now[k]):
            c.check(now[k].dtype == before[0][k].dtype,
                    f"{msg}: data type of {k} changed")
    for k in now:
        c.check(k in before[0] or k in added, f"{msg}: {k} appeared")
    c.check(sofa.protected is before[4], f"{msg}: protection")
    custom = getattr(sofa, "_custom", {})
    c.check(sorted(custom) == sorted(before[3]), f"{msg}: custom entries")
    for k, v in before[3].items():
        c.check(custom[k] == v, f"{msg}: custom entry {k}")


OPS = ("verify", "write", "inspect", "equals", "print")


def run_op(c, sofa, op, path):
    """Names of what is done; returns the outcome"""
    if op == "verify":
        return c.attempt(
            sofa.verify, c.choice("handling", ("raise", "return", "print",
                                               "ignore")),
            c.choice("mode", ("write", "read")))
    if op == "write":
        return c.attempt(c.sf.write_sofa, path, sofa,
                         c.choice("compression", (4, 0)))
    if op == "inspect":
        return c.attempt(sofa.inspect, path + ".txt" if c.flag("to file")
                         else None)
    if op == "equals":
        # made without the spoiled data
        other = c.sf.Sofa(CONV)
        if c.flag("same"):
            other = sofa.copy()
        before = state(c, other)
        a, b = (sofa, other) if c.flag("first") else (other, sofa)
        o = c.attempt(c.sf.equals, a, b, c.flag("verbose"),
                      c.choice("exclude", (None, "DATE", "GLOBAL")))
        check_unchanged(c, before, other, "equals (other)")
        return o
    o = c.attempt(repr, sofa)
    o = c.attempt(sofa.info, "all")
    o = c.attempt(lambda: sofa.list_dimensions)
    o = c.attempt(sofa.get_dimension, "M")
    return o


def unchanged(op):
    def run(c):
        sofa = make(c)
        what = c.choice("data", SPOIL)
        spoil(c, sofa, what)
        path = c.path("a.sofa")
        before = state(c, sofa)
        o = run_op(c, sofa, op, path)
        # (dimensions are those of the completed object)
        added = {"missing": ("ListenerPosition",),
                 "missing attribute": ("GLOBAL_AuthorContact",)
                 }.get(what, ()) if op in (
                     "verify", "inspect", "print") else ()
        check_unchanged(c, before, sofa, op, added)
        c.reach("ok" if o.ok else "failed")
        if op in ("verify", "write"):
            # once more: the result does not depend on being called before
            before = state(c, sofa)
            if op == "verify":
                o2 = c.attempt(sofa.verify, "raise", "read")
            else:
                o2 = c.attempt(c.sf.write_sofa, path, sofa)
                c.check(o.ok == o2.ok, "the second time differs")
            check_unchanged(c, before, sofa, "second " + op)
        c.check(c.open_count() == 0, "a file is still open")
    run.__doc__ = f"{op} changes no value; valid and invalid objects"
    return run


def view(c, path):
    return c.file_view(path)


def same_view(c, a, b):
    c.check(sorted(a.attrs) == sorted(b.attrs), "attributes of the file")
    for k in a.attrs:
        c.check(c.same_text(a.attrs[k], b.attrs[k]), f"file: {k}")
    c.check(sorted(a.dims) == sorted(b.dims), "dimensions of the file")
    for k in a.dims:
        c.check(c.eq(a.dims[k][0], b.dims[k][0]), f"file: dimension {k}")
    c.check(sorted(a.vars) == sorted(b.vars), "variables of the file")
    for k in a.vars:
        c.check(a.vars[k].dims == b.vars[k].dims, f"file: dims of {k}")
        c.check(c.eq(a.vars[k].data, b.vars[k].data), f"file: data of {k}")
        c.check(a.vars[k].attrs == b.vars[k].attrs, f"file: attributes {k}")


def failed(c):
    """Objects that fail verification are not written"""
    sofa = make(c)
    what = c.choice("data", SPOIL)
    exists = c.choice("existing file", ("none", "sofa", "other", "same"))
    path = c.path("a.sofa")
    folder = os.path.dirname(path)
    if exists == "sofa":
        c.must(c.sf.write_sofa, path, c.sf.Sofa("GeneralTF", version="2.0"))
    elif exists == "same":
        c.must(c.sf.write_sofa, path, sofa)
    elif exists == "other":
        with c.open(path, "w") as f:
            f.write("text")
    spoil(c, sofa, what)
    names = sorted(os.listdir(folder))
    old = view(c, path) if exists in ("sofa", "same") else None
    ref = c.attempt(sofa.copy().verify)
    before = state(c, sofa)
    name = path if c.flag("suffix") else path[:-5]
    o = c.attempt(c.sf.write_sofa, name, sofa)
    check_unchanged(c, before, sofa, "write_sofa")
    c.check(c.open_count() == 0, "a file is still open")
    if not ref.ok:
        c.check(not o.ok, "written although verification fails")
    if o.ok:
        c.check(c.isfile(path), "not written")
        c.check(sorted(os.listdir(folder)) ==
                sorted(set(names) | {"a.sofa"}), "other files changed")
        c.reach("written")
        return
    c.check(sorted(os.listdir(folder)) == names, "files in the folder")
    if old is not None:
        same_view(c, old, view(c, path))
    elif exists == "other":
        with c.open(path, "r") as f:
            c.check(f.read() == "text", "other file changed")
    # the data can be repaired and written
    if what in ("dependency", "value"):
        sofa.GLOBAL_RoomType = "free field"
        c.must(c.sf.write_sofa, name, sofa)
        c.reach("repaired")
    c.reach("rejected")


def target(c):
    """Files that can not be written"""
    sofa = make(c)
    where = c.choice("where", ("no folder", "folder", "open"))
    path = c.path("a.sofa")
    keep = None
    if where == "no folder":
        path = c.path("no") + "/a.sofa"
    elif where == "folder":
        os.mkdir(path)
    else:
        c.must(c.sf.write_sofa, path, c.sf.Sofa("GeneralTF"))
        keep = c.sf.SofaStream(path)
        keep.__enter__()
    before = state(c, sofa)
    o = c.attempt(c.sf.write_sofa, path, sofa)
    c.check(not o.ok, "not reported")
    check_unchanged(c, before, sofa, "write_sofa")
    if keep is not None:
        c.check(c.eq(keep.get_dimension("M"), 1), "file that is being read")
        keep.__exit__(None, None, None)
    c.check(c.open_count() == 0, "a file is still open")
    p = c.path("b.sofa")
    c.must(c.sf.write_sofa, p, sofa)
    back = c.must(c.sf.read_sofa, p, verbose=False).value
    c.check(c.must(c.sf.equals, sofa, back, exclude="DATE").value is True,
            "object written later")


def error(c, tag=""):
    kind = c.choice("error" + tag, ("os", "runtime", "memory"))
    return {"os": OSError("injected"), "runtime": RuntimeError("injected"),
            "memory": MemoryError("injected")}[kind]


def inject(c, x):
    """Fail at one operation; returns whether it was reached"""
    k = c.int("operation", 1, 400)
    hit = []

    def fault(n, name):
        if not hit and n == k:
            hit.append(name)
            return x
        return None
    c.faults(fault)
    return hit


def reported(c, o, x, hit, what):
    """The injected error is reported to the caller"""
    c.check(not o.ok, f"{what}: error at '{hit[0]}' is not reported")
    c.check(o.exc is x or isinstance(o.exc, (OSError, RuntimeError,
                                             MemoryError, ValueError)),
            f"{what}: {o.kind}")


def write_fault(c):
    """Errors while writing"""
    sofa = make(c, c.flag("custom"), 2, None if c.thorough else 3)
    path = c.path("a.sofa")
    exists = c.flag("existing file")
    if exists:
        c.must(c.sf.write_sofa, path, c.sf.Sofa("GeneralTF", version="2.0"))
    before = state(c, sofa)
    x = error(c)
    hit = inject(c, x)
    o = c.attempt(c.sf.write_sofa, path, sofa)
    c.faults(None)
    check_unchanged(c, before, sofa, "write_sofa")
    c.check(c.open_count() == 0, "a file is still open")
    if hit:
        reported(c, o, x, hit, "write_sofa")
        c.reach(hit[0])
    else:
        c.check(o.ok, f"write_sofa: {o.kind}")
        c.reach("no error")
    # afterwards everything works
    c.must(c.sf.write_sofa, path, sofa)
    back = c.must(c.sf.read_sofa, path, verbose=False).value
    c.check(c.must(c.sf.equals, sofa, back, exclude="DATE").value is True,
            "object written later")


def read_fault(c):
    """Errors while reading"""
    sofa = make(c, c.flag("custom"), 2, None if c.thorough else 3)
    path = c.path("a.sofa")
    c.must(c.sf.write_sofa, path, sofa)
    old = view(c, path)
    how = c.choice("how", ("read", "verified", "netcdf"))
    x = error(c)
    hit = inject(c, x)
    if how == "netcdf":
        o = c.attempt(c.sf.read_sofa_as_netcdf, path)
    else:
        o = c.attempt(c.sf.read_sofa, path, verify=how == "verified",
                      verbose=False)
    c.faults(None)
    c.check(c.open_count() == 0, "a file is still open")
    if hit:
        reported(c, o, x, hit, how)
        c.reach(hit[0])
    else:
        c.check(o.ok, f"{how}: {o.kind}")
        c.reach("no error")
    same_view(c, old, view(c, path))
    back = c.must(c.sf.read_sofa, path, verbose=False).value
    c.check(c.must(c.sf.equals, sofa, back).value is True,
            "object read later")


def stream_fault(c):
    """Errors while streaming"""
    sofa = make(c, True, 2, None if c.thorough else 3)
    path = c.path("a.sofa")
    c.must(c.sf.write_sofa, path, sofa)
    what = c.choice("what", ("attribute", "variable", "variable attribute",
                             "inspect", "list_dimensions", "nothing"))
    x = error(c)
    hit = inject(c, x)
    done = []

    def use():
        with c.sf.SofaStream(path) as s:
            if what == "attribute":
                s.GLOBAL_Title
            elif what == "variable":
                s.Data_IR[:]
            elif what == "variable attribute":
                s.Data_SamplingRate_Units
            elif what == "inspect":
                s.inspect()
            elif what == "list_dimensions":
                s.list_dimensions
            done.append(1)
    o = c.attempt(use)
    c.faults(None)
    c.check(c.open_count() == 0, "a file is still open")
    if hit:
        reported(c, o, x, hit, what)
        c.reach(hit[0])
    else:
        c.check(o.ok, f"{what}: {o.kind}")
        c.reach("no error")
    with c.sf.SofaStream(path) as s:
        c.check(c.same_text(s.GLOBAL_Title, sofa.GLOBAL_Title), "read later")


def user_error(c):
    """Errors of the user inside of the with statement"""
    sofa = make(c)
    path = c.path("a.sofa")
    c.must(c.sf.write_sofa, path, sofa)
    what = c.choice("what", ("raise", "unknown", "dimension", "index"))
    x = ValueError("user")

    def use():
        with c.sf.SofaStream(path) as s:
            if what == "raise":
                raise x
            if what == "unknown":
                s.GLOBAL_Unknown
            if what == "dimension":
                s.get_dimension("Q")
            s.Data_IR[:].reshape(-1)[c.np.zeros(1, dtype="f8")]
    if what == "index":
        return
    o = c.attempt(use)
    c.check(not o.ok, "not reported")
    c.check(o.exc is x or what != "raise", "another error")
    c.check(c.open_count() == 0, "a file is still open")
    # the file can be written again
    c.must(c.sf.write_sofa, path, sofa)


def reading(c):
    """Files that can not be read or verified"""
    path = c.path("a.sofa")
    what = c.choice("what", ("valid", "no convention", "unknown convention",
                             "version", "room", "shape", "text", "missing",
                             "no file"))
    sofa = make(c, c.flag("custom"))
    if what in ("text",):
        with c.open(path, "w") as f:
            f.write("text")
    elif what != "no file":
        c.must(c.sf.write_sofa, path, sofa)
        ds = c.nc.Dataset(path, "a")
        if what == "no convention":
            ds.delncattr("SOFAConventions")
        elif what == "unknown convention":
            ds.setncattr("SOFAConventions", c.text("convention", (2,), ALPHA))
        elif what == "version":
            ds.setncattr("SOFAConventionsVersion",
                         c.text("version", (3,), ASCII))
        elif what == "room":
            ds.setncattr("RoomType", c.text("room", (4,), ALPHA))
        elif what == "shape":
            ds.createVariable("SourceView", "f8", ("R", "N"))[:] = 0.0
        elif what == "missing":
            ds.delncattr("RoomType")
        ds.close()
    names = sorted(os.listdir(os.path.dirname(path)))
    old = view(c, path) if what not in ("text", "no file") else None
    how = c.choice("how", ("auto", True, False, "netcdf", "stream"))
    if how == "netcdf":
        o = c.attempt(c.sf.read_sofa_as_netcdf, path)
    elif how == "stream":
        def use():
            with c.sf.SofaStream(path) as s:
                return s.GLOBAL_Title
        o = c.attempt(use)
    else:
        o = c.attempt(c.sf.read_sofa, path, verify=how,
                      verbose=c.flag("verbose"))
    c.check(c.open_count() == 0, "a file is still open")
    c.check(sorted(os.listdir(os.path.dirname(path))) == names,
            "files of the folder")
    if old is not None:
        same_view(c, old, view(c, path))
    if what in ("text", "no file"):
        c.check(not o.ok, "not reported")
    if what == "valid" or how in ("netcdf", "stream") and old is not None:
        c.check(o.ok, f"{o.kind}")
    c.reach("ok" if o.ok else "failed")
    if what != "no file":
        c.must(c.sf.write_sofa, path, sofa)


def cases(tier):
    return [Case("unchanged_" + op, unchanged(op)) for op in OPS] + [
        Case(f.__name__, f) for f in (
            failed, target, write_fault, read_fault, stream_fault,
            user_error, reading)]
