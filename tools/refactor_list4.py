# edits with further library functions and idioms that keep the behaviour
ref("h-walrus", ("io.py", '''    filename = pathlib.Path(filename)
    if filename.suffix != '.sofa':
        filename = filename.with_name(filename.name + '.sofa')
    if not os.path.isfile(filename):
''', '''    if (filename := pathlib.Path(filename)).suffix != '.sofa':
        filename = filename.with_name("%s.sofa" % filename.name)
    if not os.path.exists(filename) or not os.path.isfile(filename):
'''))
ref("h-chain", ("io.py", '''            for attr in [a for a in file[var].ncattrs() if a not in skip]:
''', '''            for attr in itertools.filterfalse(
                    skip.__contains__, file[var].ncattrs()):
'''), ("io.py", '''import os
''', '''import itertools
import os
'''))
ref("h-operator", ("utils.py", '''    keys_a = [k for k in sofa_a.__dict__.keys() if not k.startswith("_")]
    keys_b = [k for k in sofa_b.__dict__.keys() if not k.startswith("_")]
''', '''    def public(sofa):
        return list(itertools.filterfalse(
            operator.methodcaller("startswith", "_"), sofa.__dict__))

    keys_a, keys_b = public(sofa_a), public(sofa_b)
'''), ("utils.py", '''import glob
''', '''import glob
import itertools
import operator
'''))
ref("h-format", ("sofa.py", '''                if self._convention[key]['dimensions']:
                    info_str += \\
                        f" ({self._convention[key]['dimensions'].upper()})"
''', '''                entry = self._convention[key]
                if entry['dimensions']:
                    info_str += " ({})".format(entry['dimensions'].upper())
'''))
ref("h-percent", ("sofa.py", '''                    current_error += (f"- {key_dep} must be given if "
                                      f"{key_sofar} is in SOFA object\\n")
                    continue
''', '''                    current_error += (
                        "- %s must be given if %s is in SOFA object\\n"
                        % (key_dep, key_sofar))
'''))
ref("h-join-list", ("sofa.py", '''                shape_verbose = "("
                if dimension is None:
                    for s in shape:
                        shape_verbose += f"{s}, "
                else:
                    # pad shape if required (trailing single dimensions are
                    # discarded following the numpy default)
                    while len(shape) < len(dimension):
                        shape += (1, )
                    for s, d in zip(shape, dimension):
                        shape_verbose += f"{d}={s}, "

                # add shape information
                info_str += shape_verbose[:-2] + ")\\n"
''', '''                if dimension is None:
                    parts = map(str, shape)
                else:
                    parts = ("{}={}".format(d, s) for d, s in
                             itertools.zip_longest(
                                 dimension, shape[:len(dimension)],
                                 fillvalue=1))

                # add shape information
                info_str += "(" + ", ".join(parts) + ")\\n"
'''), ("sofa.py", '''import os
''', '''import itertools
import os
'''))
ref("h-npsize", ("sofa.py", '''                    or np.size(value) == 1:
                info_str''', '''                    or np.asarray(value).size == 1:
                info_str'''))
ref("h-array-equal", ("utils.py", '''                npt.assert_array_equal(np.ma.getmaskarray(np.squeeze(a)),
                                       np.ma.getmaskarray(np.squeeze(b)))
''', '''                assert np.array_equal(np.ma.getmaskarray(np.squeeze(a)),
                                      np.ma.getmaskarray(np.squeeze(b)))
'''))
ref("h-npshape", ("utils.py", '''                assert np.squeeze(a).shape == np.squeeze(b).shape
                # compare missing''', '''                assert np.shape(np.squeeze(a)) == np.shape(np.squeeze(b))
                # compare missing'''))
ref("h-all-strings", ("utils.py", '''                assert np.all(
                    np.squeeze(a).astype("U") == np.squeeze(b).astype("U"))
''', '''                texts_a = np.squeeze(a).astype(str).ravel().tolist()
                texts_b = np.squeeze(b).astype(str).ravel().tolist()
                assert texts_a == texts_b
'''))
ref("h-fstring-name", ("utils.py", '''        fileparts = os.path.basename(path).split(sep="_")
        conventions += [fileparts[0]]
        versions += [fileparts[1][:-5]]
        conventions_str += f"{conventions[-1]} (Version {versions[-1]})\\n"
''', '''        name, _, version = os.path.basename(path).partition("_")
        version = version.split("_")[0][:-5]
        conventions.append(name)
        versions.append(version)
        conventions_str += "%s (Version %s)\\n" % (name, version)
'''))
ref("h-pathlib-name", ("utils.py", '''        fileparts = os.path.basename(path).split(sep="_")
''', '''        fileparts = pathlib.PurePath(path).name.split("_")
'''), ("utils.py", '''import glob
''', '''import glob
import pathlib
'''))
ref("h-any-version", ("utils.py", '''    version_exists = False
    for versions in name_version:
        # check if convention and version match
        if versions[0] == convention \\
                and str(float(versions[1])) == version:
            version_exists = True

    if not version_exists:
''', '''    if (convention, version) not in [
            (name, str(float(number))) for name, number in name_version]:
'''))
ref("h-suppress", ("sofa.py", '''            try:
                value = getattr(self, key).copy()
            except AttributeError:
                value = getattr(self, key)
''', '''            value = getattr(self, key)
            with contextlib.suppress(AttributeError):
                value = value.copy()
'''), ("sofa.py", '''import os
''', '''import contextlib
import os
'''))
ref("h-tuple-mult", ("sofa.py", '''                shape_compare = shape_act
                if all(s == 1 for s in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
                for _ in range(len(shape_ref) - len(shape_compare)):
                    shape_compare += (1, )
''', '''                n = len(shape_ref)
                shape_compare = shape_act
                if set(shape_act[n:]) <= {1}:
                    shape_compare = shape_act[:n]
                shape_compare = tuple(itertools.chain(
                    shape_compare,
                    itertools.repeat(1, max(n - len(shape_compare), 0))))
'''), ("sofa.py", '''import os
''', '''import itertools
import os
'''))
ref("h-defaultdict", ("sofa.py", '''        # check number of underscores
        current_error = ""
        for key in keys:

            if self._convention[key]["type"] != "attribute":
                continue

            # the case above caught attributes with too many underscores
            if key.count("_") == 0:
                current_error += "- " + key + "\\n"
''', '''        # check number of underscores
        by_type = collections.defaultdict(list)
        for key in keys:
            by_type[self._convention[key]["type"]].append(key)
        # the case above caught attributes with too many underscores
        current_error = "".join(
            "- {}\\n".format(key) for key in by_type["attribute"]
            if "_" not in key)
'''), ("sofa.py", '''import os
''', '''import collections
import os
'''))
ref("h-removeprefix", ("sofa.py", '''            if "_" in (key[5:] if key.startswith("Data_") else key):
                current_error += "- " + key + "\\n"
''', '''            if key.removeprefix("Data_").find("_") >= 0:
                current_error += f"- {key}\\n"
'''))
ref("h-re-reserved", ("sofa.py", '''            if key.startswith("PRIVATE") or key.startswith("API"):
                current_error += "- " + key + "\\n"
''', '''            if re.match("PRIVATE|API", key):
                current_error += "- " + key + "\\n"
'''))
ref("h-tuple-start", ("sofa.py", '''            if key.startswith("PRIVATE") or key.startswith("API"):
                current_error += "- " + key + "\\n"
''', '''            if key.startswith(("PRIVATE", "API")):
                current_error += "- %s\\n" % key
'''))
ref("h-kind", ("sofa.py", '''                if isinstance(value, np.ndarray) and \\
                        value.dtype.kind not in ['U', 'S']:
''', '''                if isinstance(value, np.ndarray) and not \\
                        {'U', 'S'}.issuperset(value.dtype.kind):
'''))
ref("h-flags", ("sofa.py", '''        if flags is None:
            is_mandatory = False
        elif "m" not in flags:
            is_mandatory = False
        else:
            is_mandatory = True

        return is_mandatory
''', '''        return flags is not None and flags.find("m") != -1
'''), ("sofa.py", '''        if flags is None:
            is_read_only = False
        elif "r" not in flags:
            is_read_only = False
        else:
            is_read_only = True

        return is_read_only''', '''        return bool((flags or "").count("r"))'''))
ref("h-json-path", ("sofa.py", '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
        with open(os.path.join(base, "unit_aliases.json"), "r") as file:
            unit_aliases = json.load(file)
        with open(os.path.join(base, "deprecations.json"), "r") as file:
            deprecations = json.load(file)
        with open(os.path.join(base, "upgrade.json"), "r") as file:
            upgrade = json.load(file)

        return rules, unit_aliases, deprecations, upgrade
''', '''        def load(name):
            with open(os.path.join(base, name + ".json")) as file:
                return json.loads(file.read())

        return tuple(load(name) for name in (
            "rules", "unit_aliases", "deprecations", "upgrade"))
'''))
ref("h-pathlib-rules", ("sofa.py", '''        base = os.path.join(
            os.path.dirname(__file__), "sofa_conventions", "rules")

        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
''', '''        base = pathlib.Path(__file__).parent / "sofa_conventions" / "rules"

        with (base / "rules.json").open() as file:
            rules = json.load(file)
'''), ("sofa.py", '''import os
''', '''import pathlib
import os
'''))
ref("h-sorted-versions", ("sofa.py", '''            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
''', '''            order = sorted(range(len(path)),
                           key=lambda i: float(versions[i]), reverse=True)
            path = path[order[0]]
'''))
ref("h-next-path", ("sofa.py", '''        path = [path for path in paths
                if os.path.basename(path).startswith(convention + "_")]
''', '''        prefix = "%s_" % convention
        path = list(filter(
            lambda p: os.path.split(p)[1][:len(prefix)] == prefix, paths))
'''))
ref("h-comprehension-or", ("sofa.py", '''            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]
''', '''            for key in set(self._custom) & set(self._convention):
                self._custom.pop(key)
'''))
ref("h-dict-merge", ("sofa.py", '''            for key in self._custom:
                self._convention[key] = self._custom[key]
''', '''            self._convention = {**self._convention, **self._custom}
'''))
ref("h-strftime", ("sofa.py", '''        now = datetime.now().strftime("%Y-%m-%d %H:%M:%S")
''', '''        now = f"{datetime.now():%Y-%m-%d %H:%M:%S}"
'''))
ref("h-vars", ("sofa.py", '''        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]

        for key in self._convention.keys():
            if self._mandatory(self._convention[key]["flags"]) \\
                    and key not in keys:
''', '''        keys = list(filter(lambda k: k[0] != "_", vars(self)))

        for key, entry in self._convention.items():
            if self._mandatory(entry["flags"]) and not keys.count(key):
'''))
ref("h-enumerate-partition", ("sofa.py", '''            for idx, dim in enumerate(dimensions.split(", ")[0]):
                if dim not in "ICS" and dim.islower():
''', '''            for idx, dim in enumerate(dimensions.partition(", ")[0]):
                if dim.islower() and not any(map(dim.__eq__, "ICS")):
'''))
ref("h-zip-api", ("sofa.py", '''        self._api["C"] = 3
        self._api["I"] = 1
        self._api["S"] = S
''', '''        self._api.update(zip("CIS", (3, 1, S)))
'''))
ref("h-attr-pairs", ("sofa.py", '''        if mode == "write":
            keys = [k for k in self.__dict__.keys() if k.endswith("Units")
                    and self._convention[k]["type"] == "attribute"]
            for key in keys:
                unit = getattr(self, key)
                if unit.lower() != unit:
''', '''        if mode == "write":
            units = {k: v for k, v in self.__dict__.items()
                     if k[-5:] == "Units"
                     and self._convention[k]["type"] == "attribute"}
            for key, unit in units.items():
                if any(c != c.lower() for c in unit):
'''))
ref("h-string-max", ("sofa.py", '''            S = len(max(value, key=len))
            shape = np.array(value).shape
''', '''            S = max(map(len, value))
            shape = np.shape(value)
'''))
ref("h-string-size", ("sofa.py", '''            S = np.max(np.vectorize(len)(value))
            shape = value.shape
''', '''            S = max(len(text) for text in value.flat)
            shape = np.shape(value)
'''))
ref("h-setattr-get", ("sofa.py", '''            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]

        super''', '''            value = np.atleast_2d(value)
            if not value.size - 1:
                value = value.flat[0]

        super'''))
ref("h-atleast", ("utils.py", '''    if ndim == 1:
        array = np.atleast_1d(array)
    if ndim == 2:
        array = np.atleast_2d(array)
    if ndim >= 3:
        array = np.atleast_3d(array)
    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array
''', '''    functions = {1: np.atleast_1d, 2: np.atleast_2d}
    if ndim > 0:
        array = functions.get(ndim, np.atleast_3d)(array)
    while array.ndim < ndim:
        array = array[..., None]
    return array
'''))
ref("h-nd-ellipsis", ("utils.py", '''    array = np.array(array)

    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array
''', '''    array = np.array(array)
    return array[(Ellipsis, ) + (None, ) * (ndim - array.ndim)]
'''))
ref("h-match-dtype", ("io.py", '''    if dtype == "attribute":
        value = str(value)
        netcdf_dtype = "attribute"
    elif dtype == "double":
        value = _atleast_nd(value, len(dimensions))
        netcdf_dtype = "f8"
    elif dtype == "string":
        value = np.array(value, dtype=f"S{str(S)}")
        value = _atleast_nd(value, len(dimensions))
        netcdf_dtype = 'S1'
    else:
        raise ValueError(f"Unknown type {dtype} for {key}")
''', '''    netcdf_dtypes = {"attribute": "attribute", "double": "f8",
                     "string": "S1"}
    if dtype not in netcdf_dtypes:
        raise ValueError("Unknown type {} for {}".format(dtype, key))
    netcdf_dtype = netcdf_dtypes[dtype]

    if netcdf_dtype == "attribute":
        value = str(value)
    else:
        if netcdf_dtype == "S1":
            value = np.array(value, dtype="S%d" % S)
        value = _atleast_nd(value, len(dimensions))
'''))
ref("h-subkeys", ("io.py", '''            sub_keys = [k for k in all_keys if k.rpartition("_")[0] == key
                        and sofa._convention[k]["type"] == "attribute"]
            for sub_key in sub_keys:
                tmp_var.setncattr(sub_key[len(key)+1:],
                                  str(getattr(sofa, sub_key)))
''', '''            for sub_key in all_keys:
                name, _, attribute = sub_key.rpartition("_")
                if name != key or \\
                        sofa._convention[sub_key]["type"] != "attribute":
                    continue
                tmp_var.setncattr(attribute, str(vars(sofa)[sub_key]))
'''))
ref("h-reshape-prod", ("io.py", '''                    value = value.reshape(
                        [sofa._api[dim] for dim in shape[:-1]] + [-1])
''', '''                    value = np.reshape(
                        value, (*map(sofa._api.get, shape[:-1]), -1))
'''))
ref("h-stream-dict", ("sofastream.py", '''        if name.startswith("GLOBAL_"):
            if name[7:] in self._file.ncattrs():
                self._data = self._file.getncattr(name[7:])
                return self._data
''', '''        if name.startswith("GLOBAL_"):
            attributes = {f"GLOBAL_{a}": a for a in self._file.ncattrs()}
            if name in attributes:
                self._data = self._file.getncattr(attributes[name])
                return self._data
'''))
ref("h-stream-print", ("sofastream.py", '''        info_str = ""
        for key, value in dim.items():
            value = value.size
            dim_info = dimensions[key] if key in dimensions \\
                else "custom dimension"

            info_str += f"{key} = {value} {dim_info}" + '\\n'

        print(info_str)
''', '''        lines = ["{} = {} {}\\n".format(
            key, value.size, dimensions.get(key, "custom dimension"))
            for key, value in dim.items()]

        print("".join(lines))
'''))
ref("h-csv-map", ("update_conventions.py", '''                    numbers = cell.replace(',', ' ').split()
                    cell = [float(n) if '.' in n else int(n) for n in numbers]
''', '''                    cell = list(map(
                        lambda n: float(n) if '.' in n else int(n),
                        re.split("[ ,]+", cell.strip(" ,"))))
'''))
ref("h-csv-try", ("update_conventions.py", '''                    with contextlib.suppress(ValueError):
                        cell = float(cell) if '.' in cell else int(cell)
                    line[idc] = cell
                    continue
''', '''                    try:
                        cell = (float if '.' in cell else int)(cell)
                    except ValueError:
                        pass
                    line[idc] = cell
                    continue
'''))
ref("h-csv-order", ("update_conventions.py", '''    keys = list(convention.keys())
    for key in keys:
        if "GLOBAL" not in key:
            convention[key] = convention.pop(key)
    # 1. Move Data entries to the end
    for key in keys:
        if key.startswith("Data"):
            convention[key] = convention.pop(key)

    return convention
''', '''    return dict(sorted(
        convention.items(),
        key=lambda item: 2 if item[0].startswith("Data")
        else int("GLOBAL" not in item[0])))
'''))
ref("h-csv-zip", ("update_conventions.py", '''            convention[line[0]] = {}
            for ff, field in enumerate(fields):
                convention[line[0]][field.lower()] = line[ff + 1]
''', '''            convention[line[0]] = {
                field.lower(): line[ff]
                for ff, field in enumerate(fields, start=1)}
'''))
ref("h-update-makedirs", ("update_conventions.py", '''    if not os.path.isdir(os.path.join(conventions_path, "deprecated")):
        os.mkdir(os.path.join(conventions_path, "deprecated"))
''', '''    os.makedirs(os.path.join(conventions_path, "deprecated"), exist_ok=True)
'''))
ref("h-update-read", ("update_conventions.py", '''                with open(standardized_csv, "rb") as file:
                    data_current = b"".join(file.readlines())
                    data_current = re.sub(
                        rb"[\\r\\t]+\\n", b"\\n", data_current)
''', '''                with open(standardized_csv, "rb") as file:
                    data_current = re.compile(rb"[\\r\\t]+\\n").sub(
                        b"\\n", file.read())
'''))
ref("h-upgrade-any", ("sofa.py", '''            for from_to in upgrade[convention_current]["from_to"]:
                if version_current in from_to[0]:
                    is_deprecated = True
                    break

        # check for upgrades''', '''            is_deprecated = any(
                version_current in versions for versions, *_ in
                upgrade[convention_current]["from_to"])

        # check for upgrades'''))
ref("h-upgrade-join", ("sofa.py", '''                        for t in targets:
                            t = t.split("_")
                            upgrades += f"- {t[0]} v{t[1]}\\n"
                        print(upgrades)
''', '''                        upgrades += "".join(
                            "- {0} v{1}\\n".format(*t.split("_"))
                            for t in targets)
                        print(upgrades)
'''))
ref("h-upgrade-reshape", ("sofa.py", '''                while data.ndim < np.max(moveaxis) + 1:
                    data = data[..., None]
''', '''                data = np.reshape(data, data.shape + (1, ) * (
                    max(moveaxis) + 1 - np.ndim(data)))
'''))
ref("h-add-missing", ("sofa.py", '''            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if key not in keys and add_data:
                setattr(self, key, self._convention[key]["default"])
                added += f"- {key} "
                added += f"({'mandatory' if is_mandatory else 'optional'})\\n"
''', '''            if key in keys or not (mandatory if is_mandatory else optional):
                continue
            # add with default
            setattr(self, key, self._convention[key]["default"])
            added += "- {} ({})\\n".format(
                key, ("optional", "mandatory")[is_mandatory])
'''))
ref("h-add-entry-set", ("sofa.py", '''        if dtype not in ["attribute", "double", "string"]:
            raise ValueError(
                f"dtype is {dtype} but must be attribute, double, or string")
        if "_" in name and dtype != "attribute":
''', '''        if not any(dtype == d for d in ("attribute", "double", "string")):
            raise ValueError(
                f"dtype is {dtype} but must be attribute, double, or string")
        if name.find("_") > -1 and not dtype == "attribute":
'''))
ref("h-default-ndim", ("sofa.py", '''                ndim = len(self._convention[key]["dimensions"].split(", ")[0])
                default = _atleast_nd(default, ndim)
''', '''                ndim = (self._convention[key]["dimensions"] + ", ").index(
                    ", ")
                default = _atleast_nd(default, ndim)
'''))
ref("h-issues-filter", ("sofa.py", '''        if warning_msg and error_msg:
            issues = error_msg + "\\n" + warning_msg
        elif warning_msg:
            issues = warning_msg
        elif error_msg:
            issues = error_msg
        else:
            issues = None
''', '''        issues = "\\n".join(filter(None, (error_msg, warning_msg))) or None
'''))
ref("h-rules-replace", ("sofa.py", '''            key_sofar = key.replace(".", "_").replace(":", "_")

            if not hasattr(self, key_sofar):
                continue

            # actual and possible values for the current key
            test = getattr(self, key_sofar)
''', '''            key_sofar = re.sub("[.:]", "_", key)

            # actual and possible values for the current key
            missing_value = object()
            test = getattr(self, key_sofar, missing_value)
            if test is missing_value:
                continue
'''))
ref("h-value-in", ("sofa.py", '''        if key in ["GLOBAL_DataType", "GLOBAL_SOFAConventions"]:
            if test in ref:
                return True
            else:
                return False

        # general case insensitive test
        test = test.lower()
        if test in ref:
            return True

        # if we are not checking a unit, the test value is invalid
        if key.endswith("Units"):
            return sf.Sofa._verify_unit(test, ref, unit_aliases)
        else:
            return False
''', '''        if key in {"GLOBAL_DataType", "GLOBAL_SOFAConventions"}:
            return ref.count(test) > 0

        # general case insensitive test
        test = test.lower()
        return test in ref or (
            key[-len("Units"):] == "Units"
            and sf.Sofa._verify_unit(test, ref, unit_aliases))
'''))
ref("h-unit-split", ("sofa.py", '''        units_ref = re.split(', ?', ref[0])
        units_test = re.split(', ?', test)
''', '''        units_ref, units_test = (
            text.replace(', ', ',').split(',') for text in (ref[0], test))
'''))
ref("h-read-walrus", ("io.py", '''            if not hasattr(sofa, f"GLOBAL_{attr}"):
                sofa._add_custom_api_entry(
                    f"GLOBAL_{attr}", value, None, None, "attribute")
                custom.append(f"GLOBAL_{attr}")
                sofa.protected = False
            else:
                setattr(sofa, f"GLOBAL_{attr}", value)
''', '''            if (name := "GLOBAL_" + attr) in sofa.__dict__:
                setattr(sofa, name, value)
                continue
            sofa._add_custom_api_entry(
                key=name, value=value, flags=None, dimensions=None,
                dtype="attribute")
            custom.extend([name])
            sofa.protected = False
'''))
ref("h-version-key", ("io.py", '''            if parse(current) < parse(latest):
''', '''            if max(parse(current), parse(latest)) != parse(current):
'''))
ref("h-info-set", ("sofa.py", '''        if info in ["all", "mandatory", "optional", "read only", "data"]:
''', '''        if {"all", "mandatory", "optional", "read only",
                "data"}.intersection({info}):
'''))
