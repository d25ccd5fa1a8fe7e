"""Helpers shared by the harnesses (loaded through the same rewriting)."""

HRIR = "SimpleFreeFieldHRIR"

from sx.run import Case


def keys_of(sofa):
    """Names of the entries of an object."""
    return [k for k in sofa.__dict__ if not k.startswith("_")]


def entries(sofa):
    return {k: sofa.__dict__[k] for k in keys_of(sofa)}


def snapshot(c, sofa):
    """Entries, with a deep copy of arrays."""
    out = {}
    for k, v in entries(sofa).items():
        out[k] = v.copy() if hasattr(v, "shape") else v
    return out


def same_entries(c, a, b, skip=()):
    """Same names and equal values (a, b: dictionaries)."""
    ka = [k for k in a if k not in skip]
    kb = [k for k in b if k not in skip]
    if sorted(ka) != sorted(kb):
        return False
    return c.conj(*[c.eq(a[k], b[k]) for k in ka])


def check_same(c, before, after, msg, skip=()):
    """Same names, equal values; a check per entry names the culprit."""
    ka = [k for k in before if k not in skip]
    kb = [k for k in after if k not in skip]
    for k in ka:
        if k not in kb:
            c.check(False, f"{msg}: {k} vanished")
    for k in kb:
        if k not in ka:
            c.check(False, f"{msg}: {k} appeared")
    for k in ka:
        c.check(c.eq(before[k], after[k]), f"{msg}: {k} changed")


def ndim(v):
    return len(v.shape) if hasattr(v, "shape") else 0


def hrir(c, M=None, R=None, N=None, E=None, verify=False, name=HRIR,
         version="latest"):
    """Object with symbolic sizes and symbolic values."""
    sofa = c.sf.Sofa(name, version=version, verify=verify)
    M = c.size("M") if M is None else M
    R = c.size("R") if R is None else R
    N = c.size("N") if N is None else N
    sofa.Data_IR = c.array("IR", (M, R, N))
    sofa.Data_Delay = c.array("Delay", (M, R))
    sofa.SourcePosition = c.array("Source", (M, 3))
    sofa.ReceiverPosition = c.array("Receiver", (R, 3))
    if E is not None:
        sofa.EmitterPosition = c.array("Emitter", (E, 3))
    return sofa


# numbers that are no real numbers or at the limits of the type (the default
# fill value of netCDF is left out: it means missing data)
SPECIAL = (float("nan"), float("inf"), -float("inf"), 1.7976931348623157e308,
           5e-324, -2.0 ** 53, 1.0 / 3)


def special_array(c, shape):
    """Concrete array with one chosen special value at a chosen place"""
    import numpy
    v = numpy.arange(1.0, 1.0 + int(numpy.prod(shape))).reshape(shape)
    x = c.choice("special", SPECIAL)
    v.reshape(-1)[-1 if c.flag("last") else 0] = x
    return v


def long_text(c, name, n, chars=((32, 126),)):
    """Text of n characters with a symbolic one at the end and in the
    middle"""
    t = "abcdefghijklmnopqrstuvwxyz " * (n // 27 + 1)
    return t[:n // 2 - 1] + c.text(name + " 1", (1,), chars) + \
        t[n // 2:n - 1] + c.text(name + " 2", (1,), ((33, 126),))


# dimensions of custom variables with more than four axes; the sizes of M, R,
# N, C, I, and of own dimensions
DEEP = ("IRCXY", "MIIIX", "XMCNR", "MRNCI", "IXIIY", "MRCNXY", "XRCII")


def deep_variable(c, sizes, dims, name="V"):
    shape = []
    for k in dims:
        if k not in sizes:
            sizes[k] = c.size("size " + k)
        shape.append(sizes[k])
    if dims.endswith("CII"):
        # trailing axes of size one need not be there
        shape = shape[:c.choice("axes", (3, 4, 5))]
    return c.array(name, tuple(shape))


def others(c):
    """Other objects and files were used before in the same process"""
    sf = c.sf
    for name, version, target in (
            (HRIR, "0.4", HRIR + "_1.0"),
            ("MultiSpeakerBRIR", "0.3", "SingleRoomMIMOSRIR_1.0"),
            ("SimpleFreeFieldTF", "1.0", None), ("GeneralTF", "2.0", None)):
        s = sf.Sofa(name, version=version, verify=False)
        for x in (s, sf.Sofa(name, version=version, verify=False)):
            for k in keys_of(x):
                v = getattr(x, k)
                if getattr(v, "shape", ()):
                    v += 5
            x.ListenerPosition_Units = "meter, Feet,metre"
            x.GLOBAL_RoomType = "Shoebox"
            x.GLOBAL_Title = "other"
            x.add_variable("Foo", c.np.array([[1., 2.]]), "double", "IQ")
            x.add_variable("Bar", "a long text", "string", "S")
            x.add_attribute("Foo_Units", "kelvin")
            x.add_attribute("GLOBAL_Foo", "other")
            for how in ("return", "print", "ignore"):
                c.attempt(x.verify, how, "read")
            c.attempt(x.verify)
            c.attempt(x.info, "all")
            c.attempt(x.inspect, None, "ignore")
            c.attempt(lambda: x.list_dimensions)
            c.attempt(x.get_dimension, "M")
            c.attempt(x.delete, "Foo_Units")
            c.attempt(x.delete, "Foo")
            c.attempt(x.delete, "SourceUp")
            c.attempt(x.delete, "Data_IR")
            x.ListenerPosition_Units = "metre"
        c.attempt(s.upgrade_convention)
        c.attempt(s.upgrade_convention, target, False)
        c.attempt(s.add_missing)
        c.attempt(sf.equals, s, s.copy())
        c.attempt(sf.list_conventions)
        s = sf.Sofa(name, version=version, verify=False)
        s.GLOBAL_Title = "in a file"
        o = c.attempt(sf.write_sofa, c.path("others.sofa"), s, 0)
        if o.ok:
            c.attempt(sf.read_sofa, c.path("others.sofa"))
            c.attempt(sf.read_sofa_as_netcdf, c.path("others.sofa"))
            with sf.SofaStream(c.path("others.sofa")) as f:
                c.attempt(lambda: f.GLOBAL_Title)
                c.attempt(lambda: f.SourcePosition)
    c.attempt(sf.Sofa, "GLOBAL")
    c.attempt(sf.Sofa, HRIR, version="7.0")


def also_after(*names):
    """Check the given cases also after other objects were used"""
    def wrap(cases):
        def run(tier):
            out = cases(tier)
            for case in [x for x in out if x.name in names]:
                def fn(c, inner=case.fn):
                    others(c)
                    inner(c)
                fn.__doc__ = f"{case.fn.__doc__}, after other objects"
                out.append(Case("after_" + case.name, fn,
                                weight=case.weight))
            return out
        return run
    return wrap
