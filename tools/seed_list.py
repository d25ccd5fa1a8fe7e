seed("c01-masked", "C01",
     "a numeric variable with some missing values is written and read again",
     "Missing values are written as zeros and are not missing any more after "
     "reading.", """
s = hrir()
s.Data_IR = np.ma.array(s.Data_IR, mask=s.Data_IR > 20)
back = there_and_back(s)
assert np.ma.is_masked(back.Data_IR), "missing values are lost"
assert np.all(np.ma.getmaskarray(back.Data_IR) == s.Data_IR.mask)
""", ("io.py", """        value = _atleast_nd(value, len(dimensions))
        netcdf_dtype = "f8"
""", """        value = _atleast_nd(np.ma.filled(value, 0), len(dimensions))
        netcdf_dtype = "f8"
"""))

seed("c01-strip", "C01",
     "a string variable whose texts have leading white space",
     "Leading white space in string variables is lost when reading.", """
s = hrir()
s.add_variable("Words", np.array(["  a", "bc"]), "string", "PS")
back = there_and_back(s)
assert list(back.Words.flatten()) == ["  a", "bc"], back.Words
""", ("io.py", """        value = np.atleast_1d(value).astype("U")
""", """        value = np.char.strip(np.atleast_1d(value).astype("U"))
"""))

seed("c02-compression", "C02",
     "writing with compression=0",
     "Uncompressed files contain 32 bit numbers.", """
s = hrir()
s.Data_IR = s.Data_IR + 0.1
sf.write_sofa(path(), s, compression=0)
back = sf.read_sofa(path(), verbose=False)
assert np.array_equal(back.Data_IR, s.Data_IR)
with nc.Dataset(path()) as f:
    assert f["Data.IR"].dtype == np.float64
""", ("io.py", """                key.replace("Data_", "Data."), dtype, shape,
                zlib=use_zlib, complevel=compression)
""", """                key.replace("Data_", "Data."),
                "f4" if dtype == "f8" and not use_zlib else dtype, shape,
                zlib=use_zlib, complevel=compression)
"""))

seed("c03-mandatory", "C03",
     "a file without a mandatory entry is read with verify=False",
     "Mandatory entries that are missing in a file appear with the default "
     "values.", """
s = hrir()
sf.write_sofa(path(), s)
with nc.Dataset(path(), "a") as f:
    f.delncattr("RoomType")
back = sf.read_sofa(path(), verify=False, verbose=False)
assert not hasattr(back, "GLOBAL_RoomType")
""", ("io.py", """        if attr not in all_attr:
            delattr(sofa, attr)
""", """        if attr not in all_attr and not sofa._mandatory(
                sofa._convention.get(attr, {"flags": None})["flags"]):
            delattr(sofa, attr)
"""))

seed("c04-singleton", "C04",
     "a variable whose sizes are right but at the wrong dimension, e.g., "
     "R x 1 instead of I x R",
     "Singleton dimensions are ignored when the shapes of variables are "
     "verified.", """
s = hrir()
s.Data_Delay = np.array([[1.], [2.]])
assert fails(s.verify) is not None, "shape (2, 1) accepted for (I, R)"
s.Data_Delay = np.array([[1., 2.]])
s.verify()
""", ("sofa.py", """                if shape_compare == shape_ref:
""", """                if [s for s in shape_compare if s != 1] == \\
                        [s for s in shape_ref if s != 1]:
"""))

seed("c04-alternatives", "C04",
     "a variable with three allowed shapes that has the third one",
     "Only two of the allowed shapes are accepted.", """
t = dict(fixture.TABLES["SimpleFreeFieldHRIR_1.0"][1])
t["SourceUp"] = fixture.dbl([0, 0, 1], "IC, MC, MCN", None)
tables(conv={"SimpleFreeFieldHRIR_1.0": (False, t)})
s = hrir()
s.SourceUp = np.ones((3, 3, 4))
s.verify()
assert s._dimensions["SourceUp"] == "MCN"
""", ("sofa.py", """            for dim in dimensions.split(", "):

                # get the reference""", """            for dim in dimensions.split(", ", 2)[:2]:

                # get the reference"""))

seed("c05-complex", "C05",
     "a numeric variable that is a complex numpy scalar",
     "Complex numpy scalars pass verification.", """
s = hrir()
s.Data_SamplingRate = np.complex128(1 + 2j)
x = fails(s.verify)
assert isinstance(x, ValueError) and "Data_SamplingRate" in str(x), x
""", ("sofa.py", """                        (isinstance(value, (np.ndarray, np.number)) and
""", """                        (isinstance(value, np.ndarray) and
"""))

seed("c06-ignore", "C06",
     "verify(issue_handling='ignore') with missing mandatory data",
     "Missing mandatory data are not added if issues are ignored.", """
s = hrir()
s.protected = False
del s.GLOBAL_AuthorContact
s.protected = True
s.verify(issue_handling="ignore")
assert hasattr(s, "GLOBAL_AuthorContact")
""", ("sofa.py", """                if issue_handling != "raise":
                    # add missing""", """                if issue_handling in ("print", "return"):
                    # add missing"""))

seed("c06-listed", "C06",
     "mandatory data of a variable and of one of its attributes are missing",
     "The error does not name missing attributes if their variable is named "
     "already.", """
s = hrir()
s.protected = False
del s.SourcePosition_Units
del s.SourcePosition
s.protected = True
x = fails(s.verify)
assert "- SourcePosition_Units" in str(x), x
""", ("sofa.py", """                # prepare to raise warning
                missing += "- " + key + "\\n"
""", """                # prepare to raise warning
                if f"- {key.rpartition('_')[0]}\\n" not in missing:
                    missing += "- " + key + "\\n"
"""))

seed("c07-reserved", "C07",
     "a variable whose name starts with API or PRIVATE and goes on without "
     "an underscore",
     "Names starting with reserved words are accepted.", """
s = hrir()
s.add_variable("PRIVATEData", 1., "double", "I")
assert fails(s.verify) is not None
""", ("sofa.py", """            if key.startswith("PRIVATE") or key.startswith("API"):
""", """            if key.split("_")[0] in ("PRIVATE", "API"):
"""))

seed("c07-normative", "C07",
     "a custom variable with the name of a global attribute of the "
     "convention",
     "Custom variables may have the name of a global attribute.", """
s = hrir()
s.add_variable("Title", 1., "double", "I")
assert fails(s.verify) is not None
""", ("sofa.py", """            normative = [n.replace("GLOBAL_", "") for n in normative]
""", """            normative = [n for n in normative]
"""))

seed("c08-range", "C08",
     "SOS data with a number of coefficients that is no multiple of six",
     "Any number of coefficients in the range of the allowed ones is "
     "accepted.", """
s = sf.Sofa("SimpleFreeFieldHRSOS")
s.Data_SOS = np.zeros((1, 2, 7))
assert fails(s.verify) is not None
s.Data_SOS = np.zeros((1, 2, 12))
s.verify()
""", ("sofa.py", """                        if dim_act not in dim_ref:
""", """                        if not min(dim_ref) <= dim_act <= max(dim_ref):
"""))

seed("c08-break", "C08",
     "a value that demands several entries, one of them with a certain value "
     "after one that only has to exist",
     "Demanded values are not checked after the first demanded entry without "
     "a value.", """
s = hrir()
s.Data_SamplingRate_Units = "kelvin"
assert fails(s.verify) is not None
""", ("sofa.py", """                    if ref_dep is None:
                        continue
""", """                    if ref_dep is None:
                        break
"""))

seed("c09-extra", "C09",
     "a unit with more parts than the reference",
     "Additional parts of units are accepted.", """
s = hrir()
s.ListenerPosition_Units = "metre, metre, bananas"
assert fails(s.verify) is not None
""", ("sofa.py", """        if len(units_ref) != len(units_test):
""", """        if len(units_ref) > len(units_test):
"""))

seed("c09-position", "C09",
     "a unit with the right parts in the wrong order",
     "The order of the parts of units is ignored.", """
s = hrir()
s.SourcePosition_Units = "degree, metre, degree"
assert fails(s.verify) is not None
s.SourcePosition_Units = "degrees, degree, meter"
s.verify()
""", ("sofa.py", """        for unit_test, unit_ref in zip(units_test, units_ref):
            if""", """        for unit_test, unit_ref in zip(
                sorted(units_test, key=lambda u: unit_aliases.get(u, u)),
                sorted(units_ref)):
            if"""))

seed("c10-read", "C10",
     "a deprecated convention is verified in read mode",
     "Data with a deprecated convention give no warning in read mode if the "
     "version is 1.0 or higher.", """
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    sf.Sofa("SimpleFreeFieldTF").verify(mode="read")
assert any("deprecat" in str(x.message) for x in w)
""", ("sofa.py", """                warning_msg += msg
""", """                warning_msg += msg if float(
                    self.GLOBAL_SOFAConventionsVersion) < 1.0 else ""
"""))

seed("c10-custom", "C10",
     "upper case letters in the unit of a custom variable",
     "Upper case units of custom variables are written.", """
s = hrir()
s.add_variable("Foo", 1., "double", "I")
s.add_attribute("Foo_Units", "Kelvin")
s.verify(mode="read")
assert fails(s.verify, mode="write") is not None
""", ("sofa.py", """                unit = getattr(self, key)
                if unit.lower() != unit:
""", """                unit = getattr(self, key)
                if unit.lower() != unit and \\
                        key not in getattr(self, "_custom", {}):
"""))

seed("c11-both", "C11",
     "an object with errors and warnings, issue_handling='return'",
     "Warnings are not returned if there are errors.", """
tables()
s = sf.Sofa("SimpleFreeFieldHRIR", version="0.4", verify=False)
s.GLOBAL_RoomType = "moon"
t = s.verify(issue_handling="return")
assert "moon" in t and "preliminary" in t
""", ("sofa.py", """            issues = error_msg + "\\n" + warning_msg
""", """            issues = error_msg
"""))

seed("c11-print", "C11",
     "an object with errors and warnings, issue_handling='print'",
     "Errors are not printed if there are warnings.", """
import io
import contextlib
s = sf.Sofa("SimpleFreeFieldHRIR", version="0.4", verify=False)
s.GLOBAL_RoomType = "moon"
b = io.StringIO()
with contextlib.redirect_stdout(b):
    s.verify(issue_handling="print")
assert "moon" in b.getvalue() and "preliminary" in b.getvalue()
""", ("sofa.py", """            elif issue_handling == "print":
                print(error_msg)
""", """            elif issue_handling == "print" and warning_msg is None:
                print(error_msg)
"""))

seed("c12-deleted", "C12",
     "assigning to an optional entry after it was deleted",
     "Entries of the convention that were deleted can be assigned although "
     "they do not exist.", """
s = hrir()
s.delete("SourceUp")
assert isinstance(fails(setattr, s, "SourceUp", [0, 0, 1]), TypeError)
assert not hasattr(s, "SourceUp")
""", ("sofa.py", """        if self.protected and not hasattr(self, name):
""", """        if self.protected and not hasattr(self, name) and \\
                name not in self._convention:
"""))

seed("c12-upgrade", "C12",
     "add_missing when nothing is missing",
     "Objects are not protected after calling add_missing if nothing was "
     "missing.", """
s = hrir()
s.add_missing(verbose=False)
assert s.protected is True
""", ("sofa.py", """        self.protected = True

        if verbose:
            if "-" in added:
""", """        self.protected = "-" in added

        if verbose:
            if "-" in added:
"""))

seed("c13-empty", "C13",
     "assigning an empty list",
     "Empty lists can not be assigned.", """
s = hrir()
s.protected = False
s.Data_Delay = []
assert s.Data_Delay.size == 0
""", ("sofa.py", """            if value.size == 1:
                value = value.flatten()[0]
""", """            if value.size <= 1:
                value = value.flatten()[0]
"""))

seed("c13-integer", "C13",
     "assigning a list of integers that are larger than 2^53",
     "Large integers change when they are assigned.", """
s = hrir()
s.Data_Delay = [2**53 + 1, 2]
assert int(s.Data_Delay[0, 0]) == 2**53 + 1
""", ("sofa.py", """            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]
""", """            value = np.atleast_2d(value)
            if value.dtype.kind in "iu" and value.size != 1:
                value = value.astype(float)
            elif value.size == 1:
                value = value.flatten()[0]
"""))

seed("c14-dimensions", "C14",
     "adding a string variable without dimensions",
     "String variables without dimensions are accepted.", """
s = hrir()
n = list(s.__dict__)
assert isinstance(fails(s.add_variable, "Foo", "text", "string", None),
                  ValueError)
assert not hasattr(s, "Foo")
""", ("sofa.py", """        if dimensions is None and dtype != "attribute":
""", """        if dimensions is None and dtype == "double":
"""))

seed("c14-underscore", "C14",
     "adding a string variable with an underscore in its name",
     "String variables may contain underscores.", """
s = hrir()
assert isinstance(fails(s.add_variable, "Foo_Bar", "text", "string", "IS"),
                  ValueError)
""", ("sofa.py", """        if "_" in name and dtype != "attribute":
""", """        if "_" in name and dtype == "double":
"""))

seed("c15-empty", "C15",
     "add_missing for objects with entries that are empty texts",
     "Empty texts are replaced by the default values.", """
s = hrir()
s.GLOBAL_RoomType = ""
s.add_missing(verbose=False)
assert s.GLOBAL_RoomType == ""
""", ("sofa.py", """            if key not in keys and add_data:
""", """            if add_data and (key not in keys or str(getattr(
                    self, key)) == ""):
"""))

seed("c15-select", "C15",
     "add_missing(mandatory=False, optional=True) when mandatory data are "
     "missing",
     "Mandatory data are added although only optional ones are selected.", """
s = hrir()
s.protected = False
del s.GLOBAL_AuthorContact
s.protected = True
s.delete("SourceUp")
s.add_missing(mandatory=False, optional=True, verbose=False)
assert hasattr(s, "SourceUp") and not hasattr(s, "GLOBAL_AuthorContact")
""", ("sofa.py", """            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
""", """            add_data = (is_mandatory and mandatory) or optional
"""))

seed("c16-date", "C16",
     "exclude='DATE' and different values of a date that is no global "
     "attribute",
     "Dates of variables are not excluded.", """
a = sf.Sofa("SimpleHeadphoneIR")
b = a.copy()
b.MeasurementDate = 7.
b.GLOBAL_DateCreated = "x"
assert sf.equals(a, b, verbose=False, exclude="DATE")
assert not sf.equals(a, b, verbose=False)
""", ("utils.py", """            keys_a = [k for k in keys_a if "Date" not in k]
            keys_b = [k for k in keys_b if "Date" not in k]
""", """            keys_a = [k for k in keys_a if not k.startswith("GLOBAL_Date")]
            keys_b = [k for k in keys_b if not k.startswith("GLOBAL_Date")]
"""))

seed("c16-space", "C16",
     "attributes that differ only in white space at the end",
     "White space at the end of attributes is ignored.", """
a = hrir()
a.GLOBAL_Title = "a"
b = a.copy()
b.GLOBAL_Title = "a "
assert not sf.equals(a, b, verbose=False)
""", ("utils.py", """            if a != b:
                is""", """            if a.rstrip() != b.rstrip():
                is"""))

seed("c17-axes", "C17",
     "data whose last dimensions are not stored because they have the size "
     "one",
     "Upgrading fails if the data have fewer dimensions than the largest "
     "axis that is moved.", """
s = sf.Sofa("MultiSpeakerBRIR", version="0.3", verify=False)
s.Data_IR = np.arange(8.).reshape(4, 2, 1)
s.Data_Delay = np.zeros((1, 2, 1))
s.upgrade_convention("SingleRoomMIMOSRIR_1.0", verify=False)
assert s.Data_IR.shape == (4, 2, 1, 1)
assert np.array_equal(s.Data_IR.flatten(), np.arange(8.))
""", ("sofa.py", """                while data.ndim < np.max(moveaxis) + 1:
""", """                while data.ndim < np.max(moveaxis):
"""))

seed("c17-remove", "C17",
     "the rules remove more entries than they move",
     "Only some of the entries that have to be removed are removed.", """
u = fixture.upgrade()
r = u["MultiSpeakerBRIR"]["upgrade_1"]
r["move"] = {}
r["remove"] = ["GLOBAL:RoomLocation", "GLOBAL:RoomDescription"]
tables(upgr=u)
s = sf.Sofa("MultiSpeakerBRIR", version="0.3", verify=False)
s.upgrade_convention("SingleRoomMIMOSRIR_1.0", verify=False)
assert not hasattr(s, "GLOBAL_RoomLocation")
assert not hasattr(s, "GLOBAL_RoomDescription")
""", ("sofa.py", """        for target in upgrade["remove"]:
""", """        for target in upgrade["remove"][:1 + len(upgrade["move"])]:
"""))

seed("c18-maximum", "C18",
     "versions with a different number of digits",
     "The latest version is found by comparing texts: 2.0 instead of 10.0.",
     """
t = fixture.TABLES["SimpleFreeFieldHRIR_1.0"][1]
conv = {}
for v in ("1.0", "2.0", "10.0"):
    conv["SimpleFreeFieldHRIR_" + v] = (False, {
        **t, "GLOBAL:SOFAConventionsVersion": fixture.attr(v, "rm")})
tables(conv=conv)
s = sf.Sofa("SimpleFreeFieldHRIR", verify=False)
assert s.GLOBAL_SOFAConventionsVersion == "10.0"
""", ("sofa.py", """            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
""", """            path = path[versions.index(max(versions))]
"""))

seed("c18-prefix", "C18",
     "conventions whose name starts with the name of another convention",
     "The table of another convention with a longer name is used.", """
t = fixture.TABLES["SimpleFreeFieldHRIR_1.0"][1]
def table(n, v):
    return {**t, "GLOBAL:SOFAConventionsVersion": fixture.attr(v, "rm"),
            "GLOBAL:SOFAConventions": fixture.attr(n, "rm")}
tables(conv={"GeneralFIR_1.0": (False, table("GeneralFIR", "1.0")),
             "GeneralFIRE_2.0": (False, table("GeneralFIRE", "2.0"))})
s = sf.Sofa("GeneralFIR", verify=False)
assert s.GLOBAL_SOFAConventions == "GeneralFIR"
""", ("sofa.py", """                if os.path.basename(path).startswith(convention + "_")]
""", """                if os.path.basename(path).startswith(convention)]
"""))

seed("c19-version", "C19",
     "a version with two digits after the point",
     "The second digit of versions is lost.", """
from sofar.update_conventions import _convention_csv2dict
p = path("T_1.0.csv")
with open(p, "w") as f:
    f.write("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
            "GLOBAL:SOFAConventionsVersion\\t1.25\\trm\\t\\tattribute\\tx\\n")
d = _convention_csv2dict(p)
assert d["GLOBAL:SOFAConventionsVersion"]["default"] == "1.25"
""", ("update_conventions.py", """                line[1] = str(float(line[1]))
""", """                line[1] = f"{float(line[1]):.1f}"
"""))

seed("c19-columns", "C19",
     "a table whose columns are in another order",
     "The columns are assumed to be in a fixed order.", """
from sofar.update_conventions import _convention_csv2dict
p = path("T_1.0.csv")
with open(p, "w") as f:
    f.write("Name\\tDefault\\tFlags\\tType\\tDimensions\\tComment\\n"
            "Foo\\t1\\trm\\tdouble\\tI, M\\tx\\n")
d = _convention_csv2dict(p)
assert d["Foo"]["type"] == "double" and d["Foo"]["dimensions"] == "I, M"
""", ("update_conventions.py", """                fields = line[1:]
""", """                fields = ["default", "flags", "dimensions", "type",
                          "comment"]
"""))

UPDATE = """
import builtins
import requests
from sofar.update_conventions import update_conventions
HEAD = "Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
SERVER = {"conventions": {}, "deprecated": {}}


class Response:
    status_code = 200

    def __init__(self, url):
        part = "deprecated" if "/deprecated/" in url else "conventions"
        name = url.rsplit("/", 1)[1]
        if name:
            self.content = SERVER[part][name].encode()
        else:
            self.content = "".join(
                f'<a href="{n}">x</a>' for n in SERVER[part]).encode()
        self.text = self.content.decode()

    def raise_for_status(self):
        pass


requests.get = lambda url, *a, **k: Response(url)
DIR = os.path.join(TMP, "conv")
os.mkdir(DIR)


def tree():
    return {os.path.relpath(os.path.join(a, n), DIR):
            open(os.path.join(a, n)).read()
            for a, _, b in os.walk(DIR) for n in b}


def update(answer=None):
    if answer is not None:
        builtins.input = lambda *a: answer
    update_conventions(DIR, answer is None)
"""

seed("c20-length", "C20",
     "a table that changed on the server but has the same length",
     "Changed tables of the same length are not updated.", UPDATE + """
SERVER["conventions"]["A_1.0.csv"] = HEAD + "Foo\\t1\\tm\\tI\\tdouble\\tx\\n"
update()
SERVER["conventions"]["A_1.0.csv"] = HEAD + "Foo\\t2\\tm\\tI\\tdouble\\tx\\n"
update()
assert '"default": 2' in tree()["A_1.0.json"]
""", ("update_conventions.py", """                if data_current != data:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
""", """                if len(data_current) != len(data):
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
"""))

seed("c20-answer", "C20",
     "an answer other than y and n",
     "Every answer but no is taken as a confirmation.", UPDATE + """
SERVER["conventions"]["A_1.0.csv"] = HEAD + "Foo\\t1\\tm\\tI\\tdouble\\tx\\n"
before = tree()
for a in ("", "maybe", "n", "Q"):
    update(a)
    assert tree() == before, a
update("y")
assert "A_1.0.json" in tree()
""", ("update_conventions.py", """            if response != "y":
""", """            if response.lower()[:1] in ("n", ""):
"""))

seed("c20-stale", "C20",
     "a convention is deprecated",
     "The compiled table of a deprecated convention stays in place.",
     UPDATE + """
SERVER["conventions"]["A_1.0.csv"] = HEAD + "Foo\\t1\\tm\\tI\\tdouble\\tx\\n"
update()
SERVER["deprecated"]["A_1.0.csv"] = SERVER["conventions"].pop("A_1.0.csv")
update()
assert sorted(tree()) == ["deprecated/A_1.0.csv", "deprecated/A_1.0.json"]
""", ("update_conventions.py", """                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
""", """                with contextlib.suppress(FileNotFoundError):
                    os.remove(os.path.join(
                        conventions_path, "deprecated",
                        f"{convention[:-3]}json"))
"""))

seed("c21-exception", "C21",
     "an error is raised inside of the with statement",
     "Files are not closed if the block is left by an error.", """
sf.write_sofa(path(), hrir())
def use():
    with sf.SofaStream(path()) as s:
        keep.append(s)
        raise KeyError("x")
keep = []
fails(use)
assert not keep[0]._file.isopen()
""", ("sofastream.py", """        self._file.close()
""", """        if args[0] is None:
            self._file.close()
"""))

seed("c21-cached", "C21",
     "the size of an unlimited or custom dimension that is not among the "
     "SOFA dimensions",
     "Sizes of custom dimensions are not found.", """
s = hrir()
s.add_variable("Foo", [[1., 2.]], "double", "IP")
sf.write_sofa(path(), s)
with sf.SofaStream(path()) as f:
    assert f.get_dimension("P") == 2
""", ("sofastream.py", """        if dimension not in dims.keys():
""", """        if dimension not in dims.keys() or dimension not in "MRNECIS":
"""))

seed("c22-tables", "C22",
     "custom entries are added to one of two objects of the same convention",
     "Objects of the same convention share the table: custom entries of one "
     "appear in the others.", """
a, b = hrir(), hrir()
a.add_variable("Foo", 1., "double", "I")
b.add_missing(verbose=False)
assert not hasattr(b, "Foo")
""", ("sofa.py", """        with open(path, "r") as file:
            convention = json.load(file)
""", """        if path in Sofa._tables:
            return Sofa._tables[path]
        with open(path, "r") as file:
            convention = json.load(file)
"""), ("sofa.py", """            key.replace('.', '_'): value for key, value in convention.items()}

        return convention
""", """            key.replace('.', '_'): value for key, value in convention.items()}
        Sofa._tables[path] = convention

        return convention
"""), ("sofa.py", """    _read_only_attr = []
""", """    _read_only_attr, _tables = [], {}
"""))

seed("c22-shallow", "C22",
     "a custom entry is added to a copy, or data inside of a list are changed",
     "Copies share the table of custom entries with the original.", """
a = hrir()
a.add_variable("Foo", 1., "double", "I")
b = a.copy()
b.delete("Foo")
b.add_variable("Bar", 1., "double", "I")
assert "Foo" in a._custom and "Bar" not in a._custom
""", ("sofa.py", """        return deepcopy(self)
""", """        new = deepcopy(self)
        if hasattr(self, "_custom"):
            new._custom = self._custom
        return new
"""))

seed("c23-six", "C23",
     "arrays with exactly six elements",
     "The values of arrays with six elements are not printed.", """
import io
import contextlib
s = hrir()
b = io.StringIO()
with contextlib.redirect_stdout(b):
    s.inspect()
assert "0.09" in b.getvalue()
""", ("sofa.py", """                if value.size < 7:
""", """                if value.size < 6:
"""))

seed("c24-version", "C24",
     "a convention of version 1.0 with defaults that are not valid",
     "Objects of version 1.0 are not verified by default.", """
t = dict(fixture.TABLES["SimpleFreeFieldHRIR_1.0"][1])
t["GLOBAL:RoomType"] = fixture.attr("moon", "m")
tables(conv={"SimpleFreeFieldHRIR_1.0": (False, t)})
assert isinstance(fails(sf.Sofa, "SimpleFreeFieldHRIR"), ValueError)
""", ("sofa.py", """                self._convention['GLOBAL_SOFAConventionsVersion']['default']
            if verify == 'auto':
                verify = True if parse(version) >= parse('1.0') else False
""", """                self._convention['GLOBAL_SOFAConventionsVersion']['default']
            if verify == 'auto':
                verify = True if parse(version) > parse('1.0') else False
"""))

seed("c24-flags", "C24",
     "entries that are read only but not mandatory",
     "Read only entries are created even if only mandatory ones are "
     "requested.", """
t = dict(fixture.TABLES["SimpleFreeFieldHRIR_1.0"][1])
t["GLOBAL:Foo"] = fixture.attr("x", "r")
tables(conv={"SimpleFreeFieldHRIR_1.0": (False, t)})
s = sf.Sofa("SimpleFreeFieldHRIR", mandatory=True)
assert not hasattr(s, "GLOBAL_Foo")
""", ("sofa.py", """            if not self._mandatory(self._convention[key]["flags"]) \\
                    and mandatory:
""", """            if mandatory and not self._convention[key]["flags"]:
"""))

seed("c25-remove", "C25",
     "an object that fails verification is written to an existing file",
     "The existing file is removed before the object is verified.", """
s = hrir()
sf.write_sofa(path(), s)
s.Data_Delay = np.zeros((7, 7))
assert fails(sf.write_sofa, path(), s) is not None
assert os.path.isfile(path())
sf.read_sofa(path())
""", ("io.py", """    if verify:
        sofa.verify(mode="write")
""", """    if verify:
        if os.path.isfile(filename):
            os.remove(filename)
        sofa.verify("raise", mode="write")
"""))

seed("c25-suppress", "C25",
     "the file library fails while the values of a variable are written",
     "Errors while the values of numeric variables are written are not "
     "reported.", """
real = nc.Dataset


class Variable:
    def __init__(self, v, name):
        self._v, self._name = v, name

    def __getattr__(self, k):
        return getattr(self._v, k)

    def __setitem__(self, k, x):
        if self._name == "Data.IR":
            raise OSError("disk full")
        self._v[k] = x


class Dataset(real):
    def createVariable(self, name, *a, **k):
        return Variable(super().createVariable(name, *a, **k), name)


import sofar.io
sofar.io.Dataset = Dataset
assert fails(sf.write_sofa, path(), hrir()) is not None
""", ("io.py", """            if dtype == "f8":
                tmp_var[:] = value
""", """            if dtype == "f8":
                with contextlib.suppress(OSError, ValueError):
                    tmp_var[:] = value
"""))

seed("c26-custom-flags", "C26",
     "a convention table with an optional read only entry",
     "Read only entries are only named as such if they are mandatory.", """
import contextlib
import io
t = dict(fixture.TABLES["SimpleFreeFieldHRIR_1.0"][1])
t["GLOBAL:Foo"] = fixture.attr("x", "r")
tables(conv={"SimpleFreeFieldHRIR_1.0": (False, t)})
s = sf.Sofa("SimpleFreeFieldHRIR")
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.info("all")
lines = [x for x in out.getvalue().splitlines() if x.startswith("GLOBAL_Foo")]
assert len(lines) == 1 and "optional" in lines[0], lines
assert "read only" in lines[0], lines
""", ("sofa.py", """                if self._mandatory(flags):
                    info_str += ", mandatory"
                else:
                    info_str += ", optional"
                if self._read_only(flags):
""", """                mandatory = self._mandatory(flags)
                info_str += ", mandatory" if mandatory else ", optional"
                if mandatory and self._read_only(flags):
"""))

seed("c26-startswith", "C26",
     "asking for an entry whose name is contained in the middle of the name "
     "of another entry",
     "Information about an entry leaves out the entries that contain its "
     "name, but do not start with it.", """
import contextlib
import io
s = sf.Sofa("SimpleFreeFieldHRIR")
s.add_variable("N", [1., 2.], "double", "IP") if not hasattr(s, "N") else 0
s.add_variable("MyN", [1., 2.], "double", "IP")
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.info("N")
assert "MyN\\n" in out.getvalue()
""", ("sofa.py", """            for key in [k for k in keys if info in k]:
""", """            for key in [k for k in keys if k.startswith(info)]:
"""))

CON = '''
import contextlib
import io
import tempfile
up = sys.modules["sofar.update_conventions"]

ROW = "Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"


class Answer:
    def __init__(self, text):
        self.text, self.content = text, text.encode("utf-8")
        self.status_code, self.ok = 200, True

    def raise_for_status(self):
        pass


def compare(site, toolbox, **kw):
    """site, toolbox: dictionaries of names and tables"""
    def get(url):
        name = url.split("/")[-1]
        if "sofaconventions.org" in url:
            if name:
                return Answer(ROW + site[name])
            return Answer("<html>" + "".join(
                f'<a href="{n}">{n}</a>' for n in site) + "</html>")
        if name:
            return Answer(ROW + toolbox[name])
        return Answer("".join(
            f'"SOFAtoolbox/conventions/{n}"' for n in toolbox))
    up.requests.get = get
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        up._check_congruency(**kw)
    return out.getvalue()

'''

seed("c27-case", "C27",
     "tables that only differ in upper and lower case letters",
     "Tables are compared without the case of letters, so differing units "
     "are not reported.", CON + """
a = {"Ab_1.0.csv": "X\\tmetre\\tm\\t\\tattribute\\t\\n"}
b = {"Ab_1.0.csv": "X\\tMetre\\tm\\t\\tattribute\\t\\n"}
assert compare(a, dict(a)) == ""
assert "Ab_1.0.csv differs" in compare(a, b)
""", ("update_conventions.py", """        if data[0] != data[1]:
            report +=""", """        if data[0].upper() != data[1].upper():
            report +="""))

seed("c27-save-first", "C27",
     "several tables differ and are saved",
     "Of several diverging tables only the first one is saved.", CON + """
row = "X\\t{}\\tm\\t\\tattribute\\t\\n"
a = {"Ab_1.0.csv": row.format("a"), "Cd_1.0.csv": row.format("a")}
b = {"Ab_1.0.csv": row.format("b"), "Cd_1.0.csv": row.format("b")}
d = os.path.join(TMP, "save")
os.mkdir(d)
text = compare(a, b, save_dir=d)
assert "Ab_1.0.csv differs" in text and "Cd_1.0.csv differs" in text
for sub in ("sofaconventions", "sofatoolbox"):
    assert sorted(os.listdir(os.path.join(d, sub))) == sorted(a)
""", ("update_conventions.py", """            report += f"- {convention} differs across platforms\\n"

            # save diverging files
            if save_dir is not None:
""", """            first = "differs" not in report
            report += f"- {convention} differs across platforms\\n"

            # save diverging files
            if save_dir is not None and first:
"""))

seed("c28-outdated-text", "C28",
     "versions whose order as text and as numbers differs (9.0 and 10.0)",
     "Versions are compared as text, so the warning about an outdated "
     "version is missing for two digits.", """
conv = dict(fixture.TABLES)
for v in ("9.0", "10.0"):
    t = dict(fixture.TABLES["SimpleFreeFieldHRIR_1.0"][1])
    t["GLOBAL:SOFAConventionsVersion"] = {
        **t["GLOBAL:SOFAConventionsVersion"], "default": v}
    conv["SimpleFreeFieldHRIR_" + v] = (False, t)
tables(conv=conv)
s = sf.Sofa("SimpleFreeFieldHRIR", version="9.0")
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    sf.write_sofa(path(), s)
assert any("outdated" in str(x.message) for x in w)
""", ("io.py", """            if parse(current) < parse(latest):
""", """            if current < latest:
"""))

seed("c28-custom", "C28",
     "a file with custom entries violates the convention",
     "Files with custom entries are not verified by default.", """
s = hrir()
s.add_attribute("GLOBAL_Foo", "bar")
s.protected = False
s.verify()
s.ListenerPosition_Units = "foot"
sf.io._write_sofa(path(), s, verify=False)
assert isinstance(fails(sf.read_sofa, path(), verbose=False), ValueError)
""", ("io.py", """    if verify == 'auto':
        verify = True if parse(version) >= parse('1.0') else False
""", """    if verify == 'auto':
        verify = parse(version) >= parse('1.0') and not custom
"""))

seed("c29-stale-custom", "C29",
     "a custom variable is deleted and added again with other dimensions "
     "after a verification",
     "The definition of a custom entry survives its deletion and is used "
     "for a new entry of the same name.", """
s = hrir()
s.add_variable("Foo", np.zeros((3, 2)), "double", "MR")
s.verify()
s.delete("Foo")
s.add_variable("Foo", np.zeros((3, 4)), "double", "MN")
s.verify()
""", ("sofa.py", """            if not hasattr(self, "_custom"):
                self._custom = {}

            self._custom[key] = {
                "flags": flags,
                "dimensions": dimensions,
                "type": dtype,
                "default": None,
                "comment": ""}
            self._convention[key] = self._custom[key]
""", """            if not hasattr(self, "_custom"):
                self._custom = {}
            if not hasattr(self, "_known"):
                self.__dict__["_known"] = {}

            self._custom[key] = self._known.setdefault(key, {
                "flags": flags,
                "dimensions": dimensions,
                "type": dtype,
                "default": None,
                "comment": ""})
            self._convention[key] = self._custom[key]
"""))

seed("c29-cached-sizes", "C29",
     "data of other sizes is assigned after a failing verification",
     "The sizes of custom dimensions found by a previous verification are "
     "kept.", """
s = hrir()
s.add_variable("Foo", np.zeros((5, 2)), "double", "PQ")
s.verify()
s.delete("Foo")
s.add_variable("Foo", np.zeros((3, 2)), "double", "PQ")
s.verify()
assert s.get_dimension("P") == 3
""", ("sofa.py", """        self._dimensions = {}
        self._api = {}
        self.protected = True
""", """        self._dimensions = {}
        self._api = {k: v for k, v in getattr(self, "_api", {}).items()
                     if k not in "MRENCIS"}
        self.protected = True
"""), ("sofa.py", """                    self._api[dim.upper()] = \\
""", """                    self._api[dim.upper()] = self._api.get(dim.upper()) or \\
"""))

seed("c03-float32", "C03",
     "values that can not be represented as 32-bit floats in a file with "
     "32-bit integers",
     "Integers are converted to single precision when reading.", """
s = hrir()
sf.write_sofa(path(), s)
with nc.Dataset(path(), "a") as f:
    v = f.createVariable("Foo", "i4", ("M", ))
    v[:] = [16777217, 2, 3]
x = sf.read_sofa(path(), verbose=False)
assert int(x.Foo.flatten()[0]) == 16777217
""", ("io.py", """            # Convert to numpy array or scalar
            value = np.asarray(value)
""", """            # Convert to numpy array or scalar
            value = np.asarray(
                value, dtype="float32" if "int" in str(value.dtype) else None)
"""))

seed("c05-reported-once", "C05",
     "two entries of the wrong type, one of them a string variable",
     "Only arrays are checked for string variables after another entry of "
     "the wrong type was found.", """
s = sf.Sofa("SimpleHeadphoneIR")
s.protected = False
s.GLOBAL_Title = 1.
s.SourceModel = 2.
text = s.verify(issue_handling="return")
assert "GLOBAL_Title" in text and "SourceModel must be string" in text, text
""", ("sofa.py", """                if not isinstance(value, (str, np.ndarray)):
                    current_error +=""", """                if not isinstance(value, (str, np.ndarray)) and \\
                        not current_error:
                    current_error +="""))

seed("c23-small-values", "C23",
     "an array with at most six values and three dimensions",
     "The values of small arrays with three dimensions are not printed.", """
import contextlib
import io
s = sf.Sofa("SimpleFreeFieldHRIR")
s.Data_IR = np.array([1.25, 2.5, 3.75, 5.]).reshape(1, 2, 2)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.inspect()
assert "3.75" in out.getvalue()
""", ("sofa.py", """                if value.size < 7:
""", """                if value.size < 7 and value.ndim < 3:
"""))

seed("c12-unprotect-add", "C12",
     "an optional entry of the convention is deleted and added again with "
     "add_variable or add_attribute",
     "Adding entries that the convention contains leaves the object "
     "unprotected.", """
s = hrir()
s.delete("SourceUp")
s.add_variable("SourceUp", [[0., 0., 1.]], "double", "IC")
assert s.protected
assert isinstance(fails(setattr, s, "GLOBAL_DataType", "TF"), TypeError)
""", ("sofa.py", """            self._convention[key] = self._custom[key]

        self.protected = True
""", """            self._convention[key] = self._custom[key]
            self.protected = True
"""))

seed("c18-upgrade-unknown", "C18",
     "names of conventions that only differ in the case of letters",
     "Names of conventions are found without the case of letters.", """
conv = dict(fixture.TABLES)
t = dict(fixture.TABLES["SimpleFreeFieldHRIR_1.0"][1])
conv["AB_2.0"] = (False, {**t, "GLOBAL:SOFAConventions": {
    **t["GLOBAL:SOFAConventions"], "default": "AB"}})
conv["Ab_1.0"] = (False, {**t, "GLOBAL:SOFAConventions": {
    **t["GLOBAL:SOFAConventions"], "default": "Ab"}})
tables(conv=conv)
assert sf.Sofa("Ab", verify=False).GLOBAL_SOFAConventions == "Ab"
""", ("sofa.py", """                if os.path.basename(path).startswith(convention + "_")]
""", """                if os.path.basename(path).lower().startswith(
                    convention.lower() + "_")]
"""))
