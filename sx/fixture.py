"""Convention and rule data for the checks.

The SOFA convention tables (git submodule sofa_conventions) are not part of
this repository checkout, so every check brings its own tables.  They follow
the format and the vocabulary of the official ones (names, flags, dimension
strings, rule structure), but are environment data chosen by the check: the
code under test reads them from `<package>/sofa_conventions`.
"""
import json
import os


def attr(default="", flags=None):
    return {"default": default, "flags": flags, "dimensions": None,
            "type": "attribute", "comment": ""}


def dbl(default, dims, flags=None):
    return {"default": default, "flags": flags, "dimensions": dims,
            "type": "double", "comment": ""}


def strg(default, dims, flags=None):
    return {"default": default, "flags": flags, "dimensions": dims,
            "type": "string", "comment": ""}


def head(name, version, datatype, sofa_version="2.1", room="free field"):
    return {
        "GLOBAL:Conventions": attr("SOFA", "rm"),
        "GLOBAL:Version": attr(sofa_version, "rm"),
        "GLOBAL:SOFAConventions": attr(name, "rm"),
        "GLOBAL:SOFAConventionsVersion": attr(version, "rm"),
        "GLOBAL:APIName": attr("", "rm"),
        "GLOBAL:APIVersion": attr("", "rm"),
        "GLOBAL:ApplicationName": attr("", None),
        "GLOBAL:ApplicationVersion": attr("", None),
        "GLOBAL:AuthorContact": attr("", "m"),
        "GLOBAL:DataType": attr(datatype, "rm"),
        "GLOBAL:History": attr("", None),
        "GLOBAL:RoomType": attr(room, "m"),
        "GLOBAL:DateCreated": attr("", "m"),
        "GLOBAL:DateModified": attr("", "m"),
        "GLOBAL:Title": attr("", "m"),
    }


def geometry(source=(0, 0, 1), stype="spherical",
             sunits="degree, degree, metre", receivers=2, emitter_dims=True):
    rec = [[0, 0.09, 0], [0, -0.09, 0]] if receivers == 2 else [0, 0, 0]
    d = {
        "ListenerPosition": dbl([0, 0, 0], "IC, MC", "m"),
        "ListenerPosition:Type": attr("cartesian", "m"),
        "ListenerPosition:Units": attr("metre", "m"),
        "ReceiverPosition": dbl(rec, "rCI, rCM", "m"),
        "ReceiverPosition:Type": attr("cartesian", "m"),
        "ReceiverPosition:Units": attr("metre", "m"),
        "SourcePosition": dbl(list(source), "IC, MC", "m"),
        "SourcePosition:Type": attr(stype, "m"),
        "SourcePosition:Units": attr(sunits, "m"),
        "EmitterPosition": dbl([0, 0, 0],
                               "eCI, eCM" if emitter_dims else "ECI, ECM",
                               "m"),
        "EmitterPosition:Type": attr("cartesian", "m"),
        "EmitterPosition:Units": attr("metre", "m"),
    }
    return d


def fir(ir=(0, 0), delay=(0, 0)):
    return {
        "Data.IR": dbl(list(ir), "mRn", "m"),
        "Data.SamplingRate": dbl(48000, "I, M", "m"),
        "Data.SamplingRate:Units": attr("hertz", "m"),
        "Data.Delay": dbl(list(delay), "IR, MR", "m"),
    }


def tf(default=(0, 0)):
    return {
        "N": dbl(0, "N", "m"),
        "N:LongName": attr("frequency", None),
        "N:Units": attr("hertz", "m"),
        "Data.Real": dbl(list(default), "mRn", "m"),
        "Data.Imag": dbl(list(default), "mRN", "m"),
    }


def conventions():
    """name_version -> (deprecated?, table)"""
    out = {}

    def add(name, version, table, deprecated=False):
        out[f"{name}_{version}"] = (deprecated, table)

    add("SimpleFreeFieldHRIR", "1.0", {
        **head("SimpleFreeFieldHRIR", "1.0", "FIR"), **geometry(),
        "SourceUp": dbl([0, 0, 1], "IC, MC", None), **fir()})
    add("SimpleFreeFieldHRIR", "0.4", {
        **head("SimpleFreeFieldHRIR", "0.4", "FIR", "0.6"), **geometry(),
        **fir()}, True)
    for v in ("1.0", "2.0"):
        add("GeneralTF", v, {
            **head("GeneralTF", v, "TF", "2.1" if v == "2.0" else "1.0"),
            **geometry((0, 0, 0), "cartesian", "metre", 1), **tf((0,))})
    add("SimpleHeadphoneIR", "1.0", {
        **head("SimpleHeadphoneIR", "1.0", "FIR"), **geometry(),
        "SourceManufacturer": strg("", "MS", None),
        "SourceModel": strg([""], "MS", None),
        "ReceiverDescriptions": strg([""], "MS", None),
        "MeasurementDate": dbl(0, "I, M", None), **fir()})
    add("SimpleFreeFieldHRSOS", "1.0", {
        **head("SimpleFreeFieldHRSOS", "1.0", "SOS"), **geometry(),
        "Data.SOS": dbl([[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]],
                        "mRn", "m"),
        "Data.SamplingRate": dbl(48000, "I, M", "m"),
        "Data.SamplingRate:Units": attr("hertz", "m"),
        "Data.Delay": dbl([0, 0], "IR, MR", "m")})
    add("SingleRoomDRIR", "0.3", {
        **head("SingleRoomDRIR", "0.3", "FIR", "1.0", "reverberant"),
        "GLOBAL:RoomDescription": attr("", "m"),
        **geometry(), **fir()})
    add("SimpleFreeFieldTF", "1.0", {
        **head("SimpleFreeFieldTF", "1.0", "TF", "1.0"), **geometry(),
        **tf()}, True)
    add("SimpleFreeFieldHRTF", "1.0", {
        **head("SimpleFreeFieldHRTF", "1.0", "TF"), **geometry(), **tf()})
    add("MultiSpeakerBRIR", "0.3", {
        **head("MultiSpeakerBRIR", "0.3", "FIRE", "1.0", "reverberant"),
        "GLOBAL:RoomDescription": attr("", None),
        "GLOBAL:RoomLocation": attr("", None),
        **geometry(),
        "Data.IR": dbl([0, 0], "mREn", "m"),
        "Data.SamplingRate": dbl(48000, "I, M", "m"),
        "Data.SamplingRate:Units": attr("hertz", "m"),
        "Data.Delay": dbl([0, 0], "IRE, MRE", "m")}, True)
    add("SingleRoomMIMOSRIR", "1.0", {
        **head("SingleRoomMIMOSRIR", "1.0", "FIR-E", "2.1", "shoebox"),
        "GLOBAL:RoomDescription": attr("", None),
        **geometry(),
        "Data.IR": dbl([0, 0], "mRnE", "m"),
        "Data.SamplingRate": dbl(48000, "I, M", "m"),
        "Data.SamplingRate:Units": attr("hertz", "m"),
        "Data.Delay": dbl([0, 0], "IRI, MRE", "m")})
    return out


UNIT_ALIASES = {
    "metre": "metre", "metres": "metre", "meter": "metre", "meters": "metre",
    "degree": "degree", "degrees": "degree",
    "hertz": "hertz", "kelvin": "kelvin", "cubic metre": "cubic metre",
}


def coordinate_rule(name, optional=True):
    return {"value": ["cartesian", "spherical", "spherical harmonics"]
            if optional else ["cartesian", "spherical"],
            "general": [name + ":Units"],
            "specific": {
                "cartesian": {name + ":Units": ["metre"]},
                "spherical": {name + ":Units": ["degree, degree, metre"]},
                "spherical harmonics": {
                    name + ":Units": ["degree, degree, metre"],
                    "_dimensions": {"R" if name[0] == "R" else "E": {
                        "value": [(k + 1)**2 for k in range(20)],
                        "value_str": "(N+1)^2"}}}}}


def rules():
    r = {
        "GLOBAL:Conventions": {"value": ["SOFA"]},
        "GLOBAL:DataType": {
            "value": ["FIR", "FIR-E", "FIRE", "TF", "TF-E", "SOS"],
            "specific": {
                "FIR": {"Data.IR": None, "Data.Delay": None,
                        "Data.SamplingRate": None,
                        "Data.SamplingRate:Units": ["hertz"]},
                "TF": {"Data.Real": None, "Data.Imag": None,
                       "N": None, "N:Units": ["hertz"]},
                "SOS": {"Data.SOS": None,
                        "_dimensions": {"N": {
                            "value": [6 * (k + 1) for k in range(1000)],
                            "value_str":
                                "an integer multiple of 6 greater 0"}}}}},
        "GLOBAL:RoomType": {
            "value": ["free field", "reverberant", "shoebox", "dae"],
            "specific": {"reverberant": {"GLOBAL:RoomDescription": None},
                         "dae": {"GLOBAL:RoomGeometry": None}}},
        "GLOBAL:SOFAConventions": {
            "value": sorted({n.rsplit("_", 1)[0] for n in conventions()}),
            "specific": {
                "SimpleFreeFieldHRIR": {"GLOBAL:DataType": ["FIR"]},
                "SimpleFreeFieldHRSOS": {"GLOBAL:DataType": ["SOS"]},
                "GeneralTF": {"GLOBAL:DataType": ["TF"]}}},
        "ListenerPosition": {"value": None, "general": [
            "ListenerPosition:Type", "ListenerPosition:Units"]},
        "ListenerPosition:Type": coordinate_rule("ListenerPosition", False),
        "ReceiverPosition:Type": coordinate_rule("ReceiverPosition"),
        "SourcePosition:Type": coordinate_rule("SourcePosition", False),
        "EmitterPosition:Type": coordinate_rule("EmitterPosition"),
        "ListenerView": {"value": None, "general": [
            "ListenerUp", "ListenerView:Type", "ListenerView:Units"]},
        "ListenerUp": {"value": None, "general": ["ListenerView"]},
        "ListenerView:Type": coordinate_rule("ListenerView", False),
        "RoomTemperature": {"value": None,
                            "general": ["RoomTemperature:Units"]},
        "RoomTemperature:Units": {"value": ["kelvin"]},
        "RoomVolume": {"value": None, "general": ["RoomVolume:Units"]},
        "RoomVolume:Units": {"value": ["cubic metre"]},
    }
    return r


def deprecations():
    return {"GLOBAL:SOFAConventions": {
        "SimpleFreeFieldTF": "SimpleFreeFieldHRTF",
        "MultiSpeakerBRIR": "SingleRoomMIMOSRIR"}}


def upgrade():
    return {
        "SimpleFreeFieldTF": {
            "from_to": [[["0.4", "1.0"], ["SimpleFreeFieldHRTF_1.0"],
                         "upgrade_1"]],
            "upgrade_1": {"move": {}, "remove": [], "message": None}},
        "SimpleFreeFieldHRIR": {
            "from_to": [[["0.4"], ["SimpleFreeFieldHRIR_1.0"],
                         "upgrade_1"]],
            "upgrade_1": {"move": {}, "remove": [],
                          "message": "Consider to add the optional data "
                                     "'SourceUp'"}},
        "MultiSpeakerBRIR": {
            "from_to": [[["0.3"], ["SingleRoomMIMOSRIR_1.0"],
                         "upgrade_1"]],
            "upgrade_1": {
                "move": {
                    "Data.IR": {"target": "Data.IR", "moveaxis": [3, 2],
                                "deprecated_dimensions": None},
                    "Data.Delay": {"target": "Data.Delay",
                                   "moveaxis": None,
                                   "deprecated_dimensions": ["E"]}},
                "remove": ["GLOBAL:RoomLocation"],
                "message": None}}}


def write(base, conv=None, rule=None, aliases=None, depr=None, upgr=None,
          dumps=None, version="2.1\n"):
    """Write a complete sofa_conventions folder under `base`."""
    dumps = dumps or (lambda x: json.dumps(x, indent=1))
    cdir = os.path.join(base, "conventions")
    os.makedirs(os.path.join(cdir, "deprecated"), exist_ok=True)
    os.makedirs(os.path.join(base, "rules"), exist_ok=True)
    conv = conventions() if conv is None else conv
    for key, (dep, table) in conv.items():
        key = str.__str__(key)
        p = os.path.join(cdir, "deprecated" if dep else ".", key + ".json")
        with open(os.path.normpath(p), "w", encoding="utf-8") as f:
            f.write(dumps(table))
    for name, data in (("rules", rules() if rule is None else rule),
                       ("unit_aliases",
                        UNIT_ALIASES if aliases is None else aliases),
                       ("deprecations",
                        deprecations() if depr is None else depr),
                       ("upgrade", upgrade() if upgr is None else upgr)):
        with open(os.path.join(base, "rules", name + ".json"), "w",
                  encoding="utf-8") as f:
            f.write(dumps(data))
    with open(os.path.join(base, "VERSION"), "w") as f:
        f.write(version)


TABLES = conventions()
