# More edits that keep the behaviour: ref(name, (file, old, new)...)
ref("b-read-items", ("io.py", '''        for var in file.variables.keys():

            value = _format_value_from_netcdf(file[var][:], var)
            all_attr.append(var.replace(".", "_"))
''', '''        for var, variable in file.variables.items():

            value = _format_value_from_netcdf(variable[...], var)
            all_attr += [var.replace(".", "_")]
'''), ("io.py", '''                dimensions = "".join(list(file[var].dimensions))
''', '''                dimensions = "".join(variable.dimensions)
'''), ("io.py", '''            for attr in [a for a in file[var].ncattrs() if a not in skip]:

                value = file[var].getncattr(attr)
''', '''            for attr in variable.ncattrs():
                if attr in skip:
                    continue

                value = variable.getncattr(attr)
'''))

ref("b-read-flags", ("io.py", '''    if not os.path.isfile(filename):
        raise ValueError(f"{filename} does not exist")

    # attributes''', '''    if not filename.is_file():
        raise ValueError(f"{filename} does not exist")

    # attributes'''), ("io.py", '''        verify = True if parse(version) >= parse('1.0') else False
''', '''        verify = parse(version) >= parse('1.0')
'''), ("io.py", '''    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]
    for attr in attrs:
        if attr not in all_attr:
            delattr(sofa, attr)
''', '''    unused = {attr for attr in vars(sofa) if attr[0] != "_"} - set(all_attr)
    for attr in sorted(unused):
        delattr(sofa, attr)
'''))

ref("b-format-kind", ("io.py", '''    if "float" in str(value.dtype) or "int" in str(value.dtype):
        if np.ma.is_masked(value):
            warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
        else:
            # Convert to numpy array or scalar
            value = np.asarray(value)
    elif str(value.dtype)[1] in ["S", "U"]:
''', '''    kind = value.dtype.kind
    if kind in "fiu":
        if np.ma.is_masked(value):
            warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
        else:
            # Convert to numpy array or scalar
            value = np.array(value)
    elif kind in "SU":
'''), ("io.py", '''        if str(value.dtype)[1] == "S":
            value = chartostring''', '''        if kind == "S":
            value = chartostring'''))

ref("b-write-single", ("io.py", '''        keys = [key for key in all_keys if key.startswith("GLOBAL_")]
        for key in keys:
            file.setncattr(key[7:], str(getattr(sofa, key)))
''', '''        file.setncatts({key[len("GLOBAL_"):]: str(getattr(sofa, key))
                        for key in all_keys if key[:7] == "GLOBAL_"})
'''), ("io.py", '''        for dim in sofa._api:
            file.createDimension(dim, sofa._api[dim])
''', '''        for name, size in sofa._api.items():
            file.createDimension(name, size)
'''), ("io.py", '''            if dtype == "f8":
                tmp_var[:] = value
            else:
                value = stringtochar(value, encoding='ascii')
                # the characters are stored in dimension S
                if shape[-1] == "S":
                    value = value.reshape(
                        [sofa._api[dim] for dim in shape[:-1]] + [-1])
                tmp_var[:] = value
''', '''            if dtype != "f8":
                value = stringtochar(value, encoding='ascii')
                # the characters are stored in dimension S
                if shape[-1] == "S":
                    sizes = tuple(sofa._api[dim] for dim in shape[:-1])
                    value = np.reshape(value, sizes + (-1, ))
            tmp_var[...] = value
'''))

ref("b-nd-reshape", ("utils.py", '''    array = np.array(array)

    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array


def _complete''', '''    array = np.array(array)
    missing = max(ndim - array.ndim, 0)
    return array.reshape(array.shape + (1, ) * missing)


def _complete'''), ("utils.py", '''    if ndim >= 3:
        array = np.atleast_3d(array)
    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array


def _nd''', '''    if ndim >= 3:
        array = np.atleast_3d(array)
    while array.ndim < ndim:
        array = np.expand_dims(array, -1)
    return array


def _nd'''))

ref("b-equals-asserts", ("utils.py", '''            try:
                # (comparing the shapes avoids broadcasting of single values)
                assert np.squeeze(a).shape == np.squeeze(b).shape
                # compare missing values of masked arrays and all other values
                npt.assert_array_equal(np.ma.getmaskarray(np.squeeze(a)),
                                       np.ma.getmaskarray(np.squeeze(b)))
                npt.assert_allclose(np.ma.filled(np.squeeze(a), 0),
                                    np.ma.filled(np.squeeze(b), 0))
            except AssertionError:
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)

        # compare string variables
        elif type_a == "string" and type_b == "string":
            try:
                assert np.squeeze(a).shape == np.squeeze(b).shape
                assert np.all(
                    np.squeeze(a).astype("U") == np.squeeze(b).astype("U"))
            except AssertionError:
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
''', '''            a, b = np.squeeze(a), np.squeeze(b)
            same = a.shape == b.shape
            if same:
                same = np.array_equal(np.ma.getmaskarray(a),
                                      np.ma.getmaskarray(b))
            if same:
                same = np.allclose(np.ma.filled(a, 0), np.ma.filled(b, 0),
                                   rtol=1e-7, atol=0, equal_nan=True)
            if not same:
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)

        # compare string variables
        elif type_a == "string" and type_b == "string":
            a, b = np.squeeze(a), np.squeeze(b)
            if a.shape != b.shape or np.any(
                    a.astype("U") != b.astype("U")):
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
'''))

ref("b-equals-filter", ("utils.py", '''        if exclude.upper() == "GLOBAL":
            keys_a = [k for k in keys_a if not k.startswith("GLOBAL_")]
            keys_b = [k for k in keys_b if not k.startswith("GLOBAL_")]
        elif exclude.upper() == "ATTR":
            keys_a = [k for k in keys_a if
                      sofa_a._convention[k]["type"] != "attribute"]
            keys_b = [k for k in keys_b if
                      sofa_b._convention[k]["type"] != "attribute"]
        elif exclude.upper() == "DATE":
            keys_a = [k for k in keys_a if "Date" not in k]
            keys_b = [k for k in keys_b if "Date" not in k]
        else:
            raise ValueError(
                f"exclude is {exclude} but must be GLOBAL, DATE, or ATTR")

    # check for equal length
''', '''        filters = {
            "GLOBAL": lambda k, s: not k.startswith("GLOBAL_"),
            "ATTR": lambda k, s: s._convention[k]["type"] != "attribute",
            "DATE": lambda k, s: "Date" not in k}
        if exclude.upper() not in filters:
            raise ValueError(
                f"exclude is {exclude} but must be GLOBAL, DATE, or ATTR")
        keep = filters[exclude.upper()]
        keys_a = [k for k in keys_a if keep(k, sofa_a)]
        keys_b = [k for k in keys_b if keep(k, sofa_b)]

    # check for equal length
'''))

ref("b-conventions-exists", ("utils.py", '''    version_exists = False
    for versions in name_version:
        # check if convention and version match
        if versions[0] == convention \\
                and str(float(versions[1])) == version:
            version_exists = True

    if not version_exists:
''', '''    if not any(name == convention and str(float(number)) == version
               for name, number in name_version):
'''), ("utils.py", '''    standardized = list(glob.glob(os.path.join(conventions_path, reg_str)))
    deprecated = list(
        glob.glob(os.path.join(conventions_path, "deprecated", reg_str)))
    paths = standardized + deprecated
''', '''    paths = []
    for folder in (conventions_path,
                   os.path.join(conventions_path, "deprecated")):
        paths.extend(glob.glob(os.path.join(folder, reg_str)))
'''))

ref("b-load-max", ("sofa.py", '''            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
''', '''            path = max(zip(versions, path), key=lambda p: float(p[0]))[1]
'''), ("sofa.py", '''            path = path[versions.index(version)]
''', '''            path = next(p for v, p in zip(versions, path) if v == version)
'''), ("sofa.py", '''        # read convention from json file
        with open(path, "r") as file:
            convention = json.load(file)
''', '''        # read convention from json file
        with open(path, "r") as file:
            convention = json.loads(file.read())
'''))

ref("b-rules-loop", ("sofa.py", '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
        with open(os.path.join(base, "unit_aliases.json"), "r") as file:
            unit_aliases = json.load(file)
        with open(os.path.join(base, "deprecations.json"), "r") as file:
            deprecations = json.load(file)
        with open(os.path.join(base, "upgrade.json"), "r") as file:
            upgrade = json.load(file)

        return rules, unit_aliases, deprecations, upgrade
''', '''        contents = []
        for name in ("rules", "unit_aliases", "deprecations", "upgrade"):
            with open(os.path.join(base, f"{name}.json")) as file:
                contents.append(json.load(file))

        return tuple(contents)
'''))

ref("b-default-helper", ("sofa.py", '''            default = self._convention[key]["default"]
            if isinstance(default, list):
                ndim = len(self._convention[key]["dimensions"].split(", ")[0])
                default = _atleast_nd(default, ndim)

            # create attribute with default value
            setattr(self, key, default)
''', '''            # create attribute with default value
            setattr(self, key, self._default(key))
'''), ("sofa.py", '''    @staticmethod
    def _mandatory(flags):''', '''    def _default(self, key):
        """Default value of an entry."""
        entry = self._convention[key]
        value = entry["default"]
        if not isinstance(value, list):
            return value
        first, *_ = entry["dimensions"].split(", ")
        return _atleast_nd(value, len(first))

    @staticmethod
    def _mandatory(flags):'''))

ref("b-size-string", ("sofa.py", '''            S = np.max(np.vectorize(len)(value))
            shape = value.shape
''', '''            S = max(len(v) for v in value.flatten())
            shape = np.shape(value)
'''))

ref("b-get-dimension", ("sofa.py", '''        if dimension not in self._api:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return self._api[dimension]
''', '''        try:
            return self._api[dimension]
        except KeyError:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."
                )) from None
'''), ("sofastream.py", '''        dims = self._file.dimensions

        if dimension not in dims.keys():
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return dims[dimension].size
''', '''        size = self._file.dimensions.get(dimension)
        if size is None:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return len(size)
'''))

ref("b-unprotected", ("sofa.py", '''from copy import deepcopy
''', '''from contextlib import contextmanager
from copy import deepcopy
'''), ("sofa.py", '''        # initialize required API fields
        self.protected = False
        self._dimensions = {}
        self._api = {}
        self.protected = True
''', '''        # initialize required API fields
        with self._unprotected():
            self._dimensions = {}
            self._api = {}
'''), ("sofa.py", '''                    self.protected = False
                    setattr(self, key, self._convention[key]["default"])
                    self.protected = True

                # prepare''', '''                    with self._unprotected():
                        setattr(self, key, self._convention[key]["default"])

                # prepare'''), ("sofa.py", '''    @staticmethod
    def _mandatory(flags):''', '''    @contextmanager
    def _unprotected(self):
        """Allow changing read only data."""
        self.protected = False
        try:
            yield self
        finally:
            self.protected = True

    @staticmethod
    def _mandatory(flags):'''))

ref("b-shape-helper", ("sofa.py", '''                shape_compare = shape_act
                if all(s == 1 for s in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
                for _ in range(len(shape_ref) - len(shape_compare)):
                    shape_compare += (1, )
''', '''                shape_compare = self._fit(tuple(shape_act), len(shape_ref))
'''), ("sofa.py", '''    @staticmethod
    def _mandatory(flags):''', '''    @staticmethod
    def _fit(shape, ndim):
        """Add or discard singleton dimensions."""
        extra = shape[ndim:]
        if not any(size != 1 for size in extra):
            shape = shape[:ndim]
        return shape + (1, ) * max(0, ndim - len(shape))

    @staticmethod
    def _mandatory(flags):'''))

ref("b-dims-S", ("sofa.py", '''        S = 0
        for key in keys:

            value = getattr(self, key)
            dimensions = self._convention[key]["dimensions"]

            # - dimensions are given as string, e.g., 'mRN', or 'IC, MC'
            # - defined by lower case letters in `dimensions`
            for idx, dim in enumerate(dimensions.split(", ")[0]):
                if dim not in "ICS" and dim.islower():
                    # numeric data
                    self._api[dim.upper()] = \\
                        _nd_newaxis(value, idx + 1).shape[idx]
                if dim == "S":
                    # string data
                    S = max(S, np.max(self._get_size_and_shape_of_string_var(
                        value, key)[0]))
''', '''        lengths = [0]
        for key in keys:

            value = getattr(self, key)
            first = self._convention[key]["dimensions"].split(", ")[0]

            # string data
            if "S" in first:
                lengths.append(self._get_size_and_shape_of_string_var(
                    value, key)[0])

            # - dimensions are given as string, e.g., 'mRN', or 'IC, MC'
            # - defined by lower case letters in `dimensions`
            shape = _nd_newaxis(value, 4).shape
            for dim, size in zip(first, shape):
                if dim.islower() and dim not in "ICS":
                    self._api[dim.upper()] = size
        S = max(lengths)
'''))

ref("b-unit-all", ("sofa.py", '''        # check if units are valid
        for unit_test, unit_ref in zip(units_test, units_ref):
            if unit_test not in unit_aliases \\
                    or unit_aliases[unit_test] != unit_ref:
                return False

        return True
''', '''        # check if units are valid
        return all(unit in unit_aliases and unit_aliases[unit] == unit_ref
                   for unit, unit_ref in zip(units_test, units_ref))
'''), ("sofa.py", '''        units = [unit_aliases[u] for u in units_test]
        # get reference unit string
        units = ", ".join(units) if units[0] != "cubic" else " ".join(units)

        return units
''', '''        units = list(map(unit_aliases.__getitem__, units_test))
        # get reference unit string
        separator = " " if units[0] == "cubic" else ", "
        return separator.join(units)
'''))

ref("b-write-units", ("sofa.py", '''            keys = [k for k in self.__dict__.keys() if k.endswith("Units")
                    and self._convention[k]["type"] == "attribute"]
            for key in keys:
                unit = getattr(self, key)
                if unit.lower() != unit:
''', '''            for key, unit in list(self.__dict__.items()):
                if key[-5:] != "Units" or \\
                        self._convention[key]["type"] != "attribute":
                    continue
                if unit != unit.lower():
'''))

ref("b-deprecation", ("sofa.py", '''        if self.GLOBAL_SOFAConventions in \\
                deprecations["GLOBAL:SOFAConventions"]:
            convention = self.GLOBAL_SOFAConventions
            msg = ("Detected deprecations:\\n"
                   f"- GLOBAL_SOFAConventions is "
                   f"{self.GLOBAL_SOFAConventions}, which is deprecated. Use "
                   "Sofa.upgrade_convention() to upgrade to "
                   f"{deprecations['GLOBAL:SOFAConventions'][convention]}")
            if mode == "write":
                error_msg += msg
            else:
                warning_msg += msg
''', '''        convention = self.GLOBAL_SOFAConventions
        newer = deprecations["GLOBAL:SOFAConventions"].get(convention)
        if newer is not None:
            msg = ("Detected deprecations:\\n"
                   f"- GLOBAL_SOFAConventions is {convention}, which is "
                   "deprecated. Use Sofa.upgrade_convention() to upgrade to "
                   f"{newer}")
            warning_msg += "" if mode == "write" else msg
            error_msg += msg if mode == "write" else ""
'''))

ref("b-delete-early", ("sofa.py", '''        if not self.protected or \\
                not self._mandatory(self._convention[name]["flags"]):
            super().__delattr__(name)

            # check if custom field as to be deleted
            if hasattr(self, "_custom"):
                if name in self._custom:
                    self._custom.pop(name)
                    self._convention.pop(name, None)
        else:
            raise TypeError(
                f"{name} is a mandatory attribute that can not be deleted")
''', '''        if self.protected and \\
                self._mandatory(self._convention[name]["flags"]):
            raise TypeError(
                f"{name} is a mandatory attribute that can not be deleted")

        object.__delattr__(self, name)

        # check if custom field as to be deleted
        if name in getattr(self, "_custom", {}):
            del self._custom[name]
            self._convention.pop(name, None)
'''))

ref("b-add-missing", ("sofa.py", '''        for key in self._convention.keys():
            is_mandatory = self._mandatory(self._convention[key]["flags"])
            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if key not in keys and add_data:
                setattr(self, key, self._convention[key]["default"])
                added += f"- {key} "
                added += f"({'mandatory' if is_mandatory else 'optional'})\\n"
''', '''        for key, entry in self._convention.items():
            if key in keys:
                continue
            is_mandatory = self._mandatory(entry["flags"])
            if not (mandatory if is_mandatory else optional):
                continue
            # add with default
            setattr(self, key, entry["default"])
            kind = "mandatory" if is_mandatory else "optional"
            added += f"- {key} ({kind})\\n"
'''))

ref("b-upgrade-names", ("sofa.py", '''            source_sofar = source.replace(".", '_').replace(":", "_")
            target_sofar = move["target"].replace(".", '_').replace(":", "_")
''', '''            source_sofar, target_sofar = (
                name.translate(str.maketrans(".:", "__"))
                for name in (source, move["target"]))
'''), ("sofa.py", '''            # delete from Sofa object
            delattr(self, source_sofar)
            # Check move axis
            moveaxis = upgrade["move"][source]["moveaxis"]
''', '''            # delete from Sofa object
            self.delete(source_sofar)
            # Check move axis
            moveaxis = move["moveaxis"]
'''), ("sofa.py", '''                upgrade["move"][source]["deprecated_dimensions"]
            if''', '''                move["deprecated_dimensions"]
            if'''))

ref("b-info-skip", ("sofa.py", '''                if (not self._mandatory(flags) and info == "mandatory") \\
                        or \\
                        (self._mandatory(flags) and info == "optional") \\
                        or \\
                        (not self._read_only(flags) and info == "read only") \\
                        or \\
                        (self._convention[key]['type'] == "attribute" and
                         info == "data"):
                    continue
''', '''                show = {
                    "all": True,
                    "mandatory": self._mandatory(flags),
                    "optional": not self._mandatory(flags),
                    "read only": self._read_only(flags),
                    "data": self._convention[key]['type'] != "attribute"}
                if not show[info]:
                    continue
'''))

ref("b-inspect-join", ("sofa.py", '''                shape_verbose = "("
                if dimension is None:
                    for s in shape:
                        shape_verbose += f"{s}, "
                else:
                    # pad shape if required (trailing single dimensions are
                    # discarded following the numpy default)
                    while len(shape) < len(dimension):
                        shape += (1, )
                    for s, d in zip(shape, dimension):
                        shape_verbose += f"{d}={s}, "

                # add shape information
                info_str += shape_verbose[:-2] + ")\\n"
''', '''                if dimension is None:
                    parts = [str(s) for s in shape]
                else:
                    # pad shape if required (trailing single dimensions are
                    # discarded following the numpy default)
                    shape += (1, ) * (len(dimension) - len(shape))
                    parts = [f"{d}={s}" for s, d in zip(shape, dimension)]

                # add shape information
                info_str += "(" + ", ".join(parts) + ")\\n"
'''), ("sofa.py", '''            with open(file, 'w') as f_id:
                f_id.write(info_str + "\\n")
''', '''            with open(file, 'w') as f_id:
                print(info_str, file=f_id)
'''))

ref("b-stream-names", ("sofastream.py", '''            for key, variable in self._file.variables.items():
                # name of the variable in sofar
                key = key.replace(".", "_")

                if name == key:
                    self._data = variable
                    return self._data
                if name.startswith(f"{key}_") and \\
                        name[len(key) + 1:] in variable.ncattrs():
                    self._data = variable.getncattr(name[len(key) + 1:])
                    return self._data
''', '''            for key in self._file.variables:
                variable = self._file.variables[key]
                # name of the variable in sofar
                key = "_".join(key.split("."))
                begin, rest = name[:len(key)], name[len(key):]

                if begin != key:
                    continue
                if not rest:
                    self._data = variable
                    return self._data
                if rest[0] == "_" and rest[1:] in variable.ncattrs():
                    self._data = variable.getncattr(rest[1:])
                    return self._data
'''))

ref("b-stream-inspect", ("sofastream.py", '''        for key in self._file.variables.keys():
            # get values, shape and dimensions
            data = self._file[key]
            shape = data.shape
''', '''        for key, data in self._file.variables.items():
            # get values, shape and dimensions
            shape = data.shape
'''), ("sofastream.py", '''            for att_ in list(self._file[key].ncattrs()):
                info_str += (key.replace('.', '_') + f'_{att_} : '
                             + str(data.getncattr(att_)) + '\\n')
''', '''            name = key.replace('.', '_')
            info_str += "".join(
                f"{name}_{att} : {data.getncattr(att)}\\n"
                for att in data.ncattrs())
'''))

ref("b-update-links", ("update_conventions.py", '''    # get file names of conventions from sofaconventions.org
    page = requests.get(urls[0])
    page.raise_for_status()
    page = page.text
    soup = BeautifulSoup(page, 'html.parser')
    standardized = [os.path.split(node.get('href'))[1]
                    for node in soup.find_all('a')
                    if node.get('href').endswith(ext)]
    page = requests.get(urls[1])
    page.raise_for_status()
    page = page.text
    soup = BeautifulSoup(page, 'html.parser')
    deprecated = [os.path.split(node.get('href'))[1]
                  for node in soup.find_all('a')
                  if node.get('href').endswith(ext)]
''', '''    # get file names of conventions from sofaconventions.org
    listed = []
    for url in urls:
        page = requests.get(url)
        page.raise_for_status()
        soup = BeautifulSoup(page.text, 'html.parser')
        links = [node.get('href') for node in soup.find_all('a')]
        listed.append([os.path.basename(link) for link in links
                       if link.endswith(ext)])
    standardized, deprecated = listed
'''), ("update_conventions.py", '''    if not os.path.isdir(conventions_path):
        os.mkdir(conventions_path)
    if not os.path.isdir(os.path.join(conventions_path, "deprecated")):
        os.mkdir(os.path.join(conventions_path, "deprecated"))
''', '''    os.makedirs(os.path.join(conventions_path, "deprecated"), exist_ok=True)
'''))

ref("b-update-read", ("update_conventions.py", '''                with open(standardized_csv, "rb") as file:
                    data_current = b"".join(file.readlines())
                    data_current = re.sub(
                        rb"[\\r\\t]+\\n", b"\\n", data_current)
                if data_current != data:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
                        file.write(data)
                    print(f"- update convention: {convention[:-4]}")
''', '''                with open(standardized_csv, "rb") as file:
                    data_current = file.read()
                data_current = re.compile(rb"[\\r\\t]+\\n").sub(
                    b"\\n", data_current)
                if data != data_current:
                    updated = True
                    path = os.path.join(temp, convention)
                    with open(path, "wb") as file:
                        file.write(data)
                    name, _ = os.path.splitext(convention)
                    print(f"- update convention: {name}")
'''), ("update_conventions.py", '''                os.remove(os.path.join(conventions_path, convention))
                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated', convention))
''', '''                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated'))
                for ending in ("csv", "json"):
                    os.remove(os.path.join(
                        conventions_path, convention[:-3] + ending))
'''))

ref("b-csv-helper", ("update_conventions.py", '''                if ';' not in cell:
                    # create flat list of integers and floats
                    # (separated by commas and/or white spaces)
                    numbers = cell.replace(',', ' ').split()
                    cell = [float(n) if '.' in n else int(n) for n in numbers]
                else:
                    # create a nested list of integers and floats
                    # separate multidimensional arrays
                    cell = cell.split(';')
                    cell_nd = [None] * len(cell)
                    for idx, cc in enumerate(cell):
                        numbers = cc.replace(',', ' ').split()
                        cell_nd[idx] = [float(n) if '.' in n else int(n)
                                        for n in numbers]

                    cell = cell_nd
''', '''                # lists of integers and floats, rows are separated by
                # semicolons
                rows = [_numbers(row) for row in cell.split(';')]
                cell = rows[0] if len(rows) == 1 else rows
'''), ("update_conventions.py", '''def _convention_csv2dict(file: str):''', '''def _numbers(text):
    """Numbers separated by commas and/or white spaces."""
    return [float(n) if '.' in n else int(n)
            for n in re.split(r"[,\\s]+", text) if n]


def _convention_csv2dict(file: str):'''))

ref("b-csv-zip", ("update_conventions.py", '''            convention[line[0]] = {}
            for ff, field in enumerate(fields):
                convention[line[0]][field.lower()] = line[ff + 1]
''', '''            name, *cells = line
            convention[name] = {
                field.lower(): cells[ff] for ff, field in enumerate(fields)}
'''), ("update_conventions.py", '''    keys = list(convention.keys())
    for key in keys:
        if "GLOBAL" not in key:
            convention[key] = convention.pop(key)
    # 1. Move Data entries to the end
    for key in keys:
        if key.startswith("Data"):
            convention[key] = convention.pop(key)

    return convention
''', '''    # 2. Move Data entries to the end
    order = sorted(convention, key=lambda key: (
        key.startswith("Data"), "GLOBAL" not in key))

    return {key: convention[key] for key in order}
'''))

ref("b-congruency-lists", ("update_conventions.py", '''    report = ""
    for convention in sofaconventions.copy():
        if convention.startswith(("General_", "GeneralString_")):
            sofaconventions.remove(convention)
        elif convention not in sofatoolbox:
            sofaconventions.remove(convention)
            report += (f"- {convention} is missing in SOFAtoolbox\\n")
    for convention in sofatoolbox.copy():
        if convention.startswith(("General_", "GeneralString_")):
            sofatoolbox.remove(convention)
        elif convention not in sofaconventions:
            sofatoolbox.remove(convention)
            report += (f"- {convention} is missing on sofaconventions.org\\n")
''', '''    skip = ("General_", "GeneralString_")
    sofaconventions = [c for c in sofaconventions if not c.startswith(skip)]
    sofatoolbox = [c for c in sofatoolbox if not c.startswith(skip)]
    report = "".join(f"- {c} is missing in SOFAtoolbox\\n"
                     for c in sofaconventions if c not in sofatoolbox)
    report += "".join(f"- {c} is missing on sofaconventions.org\\n"
                      for c in sofatoolbox if c not in sofaconventions)
    sofaconventions = [c for c in sofaconventions if c in sofatoolbox]
'''))
