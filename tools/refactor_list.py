# Edits that keep the behaviour: ref(name, (file, old, new)...)
ref("missing-helper", ("sofa.py", '''        missing = ""
        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]

        for key in self._convention.keys():
            if self._mandatory(self._convention[key]["flags"]) \\
                    and key not in keys:

                if issue_handling != "raise":
                    # add missing data with default value
                    self.protected = False
                    setattr(self, key, self._convention[key]["default"])
                    self.protected = True

                # prepare to raise warning
                missing += "- " + key + "\\n"
''', '''        keys = self._public()
        absent = [name for name, entry in self._convention.items()
                  if self._mandatory(entry["flags"]) and name not in keys]

        if issue_handling != "raise":
            for name in absent:
                # add missing data with default value
                self.protected = False
                setattr(self, name, self._convention[name]["default"])
                self.protected = True

        # prepare to raise warning
        missing = "".join(f"- {name}\\n" for name in absent)
'''), ("sofa.py", '''    def copy(self):
        """Return a copy''', '''    def _public(self):
        """Names of all entries."""
        return [name for name in vars(self) if name[0] != "_"]

    def copy(self):
        """Return a copy'''))

ref("types-helper", ("sofa.py", '''            if dtype == "attribute":
                if not isinstance(value, str):
                    current_error += \\
                        f"- {key} must be string but is {type(value)}\\n"

            elif dtype == "double":
''', '''            if dtype == "attribute":
                if isinstance(value, str):
                    continue
                current_error += "- {} must be string but is {}\\n".format(
                    key, type(value))

            elif dtype == "double":
'''), ("sofa.py", '''                if not isinstance(
                        value, (int, float, np.ndarray, np.number)) or \\
                        (isinstance(value, (np.ndarray, np.number)) and
                         value.dtype.kind not in ['i', 'u', 'f']):
                    current_error += (f"- {key} must be int or float "
                                      f"but is {type(value)}\\n")
''', '''                if isinstance(value, (np.ndarray, np.number)):
                    valid = value.dtype.kind in "iuf"
                else:
                    valid = isinstance(value, (int, float))
                if not valid:
                    current_error += (f"- {key} must be int or float "
                                      f"but is {type(value)}\\n")
'''), ("sofa.py", '''        if error_msg != "\\nERRORS\\n------\\n":
            if issue_handling == "ignore":
                return

            _, issues = self._verify_handle_issues(
                    warning_msg, error_msg, issue_handling)

            if issue_handling == "print":
                return
            else:  # (issue_handling == "return"):
                return issues
''', '''        if len(error_msg) > len("\\nERRORS\\n------\\n"):
            if issue_handling != "ignore":
                issues = self._verify_handle_issues(
                    warning_msg, error_msg, issue_handling)[1]
                if issue_handling != "print":
                    return issues
            return
'''))

ref("names-sets", ("sofa.py", '''        variables = [key for key in self.__dict__.keys()
                     if not key.startswith("_")
                     and self._convention[key]["type"] != "attribute"]
        current_error = ""
        for key in keys:

            if self._convention[key]["type"] != "attribute" or \\
                    key.count("_") == 0:
                continue

            if (key[:key.rindex("_")] not in variables and
                    not key.startswith("GLOBAL_")):
                current_error += "- " + key + "\\n"
''', '''        variables = {key for key in self.__dict__
                     if key[:1] != "_"
                     and self._convention[key]["type"] != "attribute"}
        current_error = ""
        for key in keys:
            variable, underscore, _ = key.rpartition("_")
            if self._convention[key]["type"] == "attribute" and underscore \\
                    and variable not in variables \\
                    and key[:7] != "GLOBAL_":
                current_error = f"{current_error}- {key}\\n"
'''), ("sofa.py", '''            # the case above caught attributes with too many underscores
            if key.count("_") == 0:
                current_error += "- " + key + "\\n"
''', '''            # the case above caught attributes with too many underscores
            if "_" not in key:
                current_error += "- " + key + "\\n"
'''), ("sofa.py", '''            if "_" in (key[5:] if key.startswith("Data_") else key):
                current_error += "- " + key + "\\n"
''', '''            allowed = 1 if key.startswith("Data_") else 0
            if key.count("_") > allowed:
                current_error += "- " + key + "\\n"
'''), ("sofa.py", '''            if key.startswith("PRIVATE") or key.startswith("API"):
                current_error += "- " + key + "\\n"
            if (key.startswith("GLOBAL") and not key.startswith("GLOBAL_")) or\\
                    (key.startswith("GLOBAL") and
                     self._convention[key]["type"] != "attribute"):
                current_error += "- " + key + "\\n"
''', '''            reserved = key.startswith(("PRIVATE", "API"))
            if key.startswith("GLOBAL"):
                is_attribute = self._convention[key]["type"] == "attribute"
                reserved = not (is_attribute and key[6:7] == "_")
            if reserved:
                current_error += "- " + key + "\\n"
'''), ("sofa.py", '''            for key in self._custom.keys():
                if key.replace("GLOBAL_", "") in normative:
                    current_error += "- " + key + "\\n"
''', '''            clash = [key for key in self._custom
                     if key.replace("GLOBAL_", "") in normative]
            if clash:
                current_error = "- " + "\\n- ".join(clash) + "\\n"
'''))

ref("dimensions-loop", ("sofa.py", '''            for idx, dim in enumerate(dimensions.split(", ")[0]):
                if dim not in "ICS" and dim.islower():
                    # numeric data
                    self._api[dim.upper()] = \\
                        _nd_newaxis(value, idx + 1).shape[idx]
                if dim == "S":
                    # string data
                    S = max(S, np.max(self._get_size_and_shape_of_string_var(
                        value, key)[0]))
''', '''            first, _, _ = dimensions.partition(", ")
            lower = [(i, d) for i, d in enumerate(first)
                     if d.islower() and d not in ("I", "C", "S")]
            if lower:
                # numeric data
                size = _nd_newaxis(value, 4).shape
                for i, d in lower:
                    self._api[d.upper()] = size[i]
            if "S" in first:
                # string data
                longest, _ = self._get_size_and_shape_of_string_var(
                    value, key)
                if np.max(longest) > S:
                    S = np.max(longest)
'''), ("sofa.py", '''        self._api["C"] = 3
        self._api["I"] = 1
        self._api["S"] = S
''', '''        self._api.update({"C": 3, "I": 1, "S": S})
'''))

ref("shapes-for-else", ("sofa.py", '''            shape_matched = False
            for dim in dimensions.split(", "):
''', '''            for dim in dimensions.split(", "):
'''), ("sofa.py", '''                shape_ref = tuple(
                    [self._api[d.upper()] if d != "S" else 1 for d in dim])
''', '''                shape_ref = tuple(1 if d == "S" else self._api[d.upper()]
                                  for d in dim)
'''), ("sofa.py", '''                shape_compare = shape_act
                if all(s == 1 for s in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
                for _ in range(len(shape_ref) - len(shape_compare)):
                    shape_compare += (1, )

                # check if the shapes match and write to API
                if shape_compare == shape_ref:
                    shape_matched = True
                    self._dimensions[key] = dim.upper()
                    break

            if not shape_matched:
''', '''                shape_compare = tuple(shape_act)
                while len(shape_compare) > len(shape_ref) \\
                        and shape_compare[-1] == 1 \\
                        and not any(s != 1 for s in
                                    shape_act[len(shape_ref):]):
                    shape_compare = shape_compare[:-1]
                n_missing = len(shape_ref) - len(shape_compare)
                shape_compare = shape_compare + (1, ) * max(n_missing, 0)

                # check if the shapes match and write to API
                if shape_ref == shape_compare:
                    self._dimensions[key] = dim.upper()
                    break
            else:
'''))

ref("rules-locals", ("sofa.py", '''        for key in rules.keys():

            # convert to sofar format
            key_sofar = key.replace(".", "_").replace(":", "_")
''', '''        for key, rule in rules.items():

            # convert to sofar format
            key_sofar = re.sub("[.:]", "_", key)
'''), ("sofa.py", '''            ref = rules[key]["value"]

            # test if''', '''            ref = rule["value"]

            # test if'''), ("sofa.py", '''            items = rules[key]["general"] if "general" in rules[key] else []

            for key_dep in items:

                # convert key to sofar format
                key_dep = key_dep.replace(".", "_").replace(":", "_")
''', '''            for key_dep in rule.get("general", []):

                # convert key to sofar format
                key_dep = key_dep.translate(str.maketrans(".:", "__"))
'''), ("sofa.py", '''            if "specific" in rules[key] \\
                    and test in rules[key]["specific"]:
                items = rules[key]["specific"][test].items()
            else:
                items = {}.items()

            for key_dep, ref_dep in items:
''', '''            specific = rule.get("specific")
            specific = specific.get(test, {}) if specific else {}

            for key_dep, ref_dep in specific.items():
'''), ("sofa.py", '''                    for dim in rules[key]["specific"][test]["_dimensions"]:
                        # possible sizes
                        dim_ref = \\
                            rules[key]["specific"][test][
                                "_dimensions"][dim]["value"]
                        # current size
                        dim_act = self._api[dim]
                        # verbose error string for possible sizes
                        dim_str = \\
                            rules[key]["specific"][test][
                                "_dimensions"][dim]["value_str"]
                        # perform the check
                        if dim_act not in dim_ref:
''', '''                    for dim, sizes in ref_dep.items():
                        # current size, verbose string for possible sizes
                        dim_act, dim_str = self._api[dim], sizes["value_str"]
                        # perform the check
                        if all(dim_act != s for s in sizes["value"]):
'''))

ref("value-unit", ("sofa.py", '''        # case sensitive check for DataType and SOFAConventions
        if key in ["GLOBAL_DataType", "GLOBAL_SOFAConventions"]:
            if test in ref:
                return True
            else:
                return False

        # general case insensitive test
        test = test.lower()
        if test in ref:
            return True

        # if we are not checking a unit, the test value is invalid
        if key.endswith("Units"):
            return sf.Sofa._verify_unit(test, ref, unit_aliases)
        else:
            return False
''', '''        # case sensitive check for DataType and SOFAConventions
        if key in ("GLOBAL_DataType", "GLOBAL_SOFAConventions"):
            return False

        # general case insensitive test (and aliases of units)
        test = test.lower()
        return test in ref or (
            key.endswith("Units")
            and Sofa._verify_unit(test, ref, unit_aliases))
'''), ("sofa.py", '''        units_ref = re.split(', ?', ref[0])
        units_test = re.split(', ?', test)

        # check if number of units agree
        if len(units_ref) != len(units_test):
            return False

        # check if units are valid
        for unit_test, unit_ref in zip(units_test, units_ref):
            if unit_test not in unit_aliases \\
                    or unit_aliases[unit_test] != unit_ref:
                return False

        return True
''', '''        separator = re.compile(", ?")
        units_ref = separator.split(ref[0])
        units_test = separator.split(test)

        # check if number of units agree and if they are valid
        return len(units_ref) == len(units_test) and all(
            unit_aliases.get(t) == r for t, r in zip(units_test, units_ref))
'''))

ref("setattr-helper", ("sofa.py", '''        # convert to numpy array or scalar
        if not isinstance(value, (str, dict, np.ndarray)) \\
                and name != "protected" and not name.startswith("_"):
            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]

        super.__setattr__(self, name, value)
''', '''        private = name == "protected" or name.startswith("_")
        if not private:
            value = Sofa._array_or_scalar(value)

        super.__setattr__(self, name, value)

    @staticmethod
    def _array_or_scalar(value):
        """Convert to numpy array or scalar."""
        if isinstance(value, (str, dict, np.ndarray)):
            return value
        array = np.array(value, ndmin=2)
        return array.ravel()[0] if array.size == 1 else array
'''), ("sofa.py", '''        # delete anything if not frozen, delete non mandatory
        if not self.protected or \\
                not self._mandatory(self._convention[name]["flags"]):
            super().__delattr__(name)

            # check if custom field as to be deleted
            if hasattr(self, "_custom"):
                if name in self._custom:
                    self._custom.pop(name)
                    self._convention.pop(name, None)
        else:
            raise TypeError(
                f"{name} is a mandatory attribute that can not be deleted")
''', '''        # delete anything if not frozen, delete non mandatory
        if self.protected and \\
                self._mandatory(self._convention[name]["flags"]):
            raise TypeError(
                f"{name} is a mandatory attribute that can not be deleted")

        object.__delattr__(self, name)

        # check if custom field as to be deleted
        custom = getattr(self, "_custom", {})
        if name in custom:
            del custom[name]
            if name in self._convention:
                del self._convention[name]
'''))

ref("flags", ("sofa.py", '''        if flags is None:
            is_mandatory = False
        elif "m" not in flags:
            is_mandatory = False
        else:
            is_mandatory = True

        return is_mandatory
''', '''        return flags is not None and flags.find("m") >= 0
'''), ("sofa.py", '''        if flags is None:
            is_read_only = False
        elif "r" not in flags:
            is_read_only = False
        else:
            is_read_only = True

        return is_read_only
''', '''        return "r" in (flags or "")
'''), ("sofa.py", '''        if isinstance(value, str):
            S = len(value)
            shape = (1, 1)
        elif isinstance(value, list):
            S = len(max(value, key=len))
            shape = np.array(value).shape
        elif isinstance(value, np.ndarray):
            S = np.max(np.vectorize(len)(value))
            shape = value.shape
        else:
            raise TypeError((f"{key} must be a string, numpy string array, "
                             "or list of strings"))

        return S, shape
''', '''        if isinstance(value, str):
            return len(value), (1, 1)
        if isinstance(value, list):
            return max(map(len, value)), np.array(value).shape
        if isinstance(value, np.ndarray):
            return max(len(text) for text in value.flatten()), value.shape
        raise TypeError((f"{key} must be a string, numpy string array, "
                         "or list of strings"))
'''))

ref("issues", ("sofa.py", '''        # verbose issue message
        if warning_msg and error_msg:
            issues = error_msg + "\\n" + warning_msg
        elif warning_msg:
            issues = warning_msg
        elif error_msg:
            issues = error_msg
        else:
            issues = None
''', '''        # verbose issue message
        issues = [m for m in (error_msg, warning_msg) if m]
        issues = "\\n".join(issues) if issues else None
'''), ("sofa.py", '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
        with open(os.path.join(base, "unit_aliases.json"), "r") as file:
            unit_aliases = json.load(file)
        with open(os.path.join(base, "deprecations.json"), "r") as file:
            deprecations = json.load(file)
        with open(os.path.join(base, "upgrade.json"), "r") as file:
            upgrade = json.load(file)

        return rules, unit_aliases, deprecations, upgrade
''', '''        tables = []
        for name in ("rules", "unit_aliases", "deprecations", "upgrade"):
            with open(os.path.join(base, f"{name}.json")) as file:
                tables.append(json.loads(file.read()))

        return tuple(tables)
'''))

ref("load-convention", ("sofa.py", '''        # replace ':' and '.' in key names by '_'
        convention = {
            key.replace(':', '_'): value for key, value in convention.items()}
        convention = {
            key.replace('.', '_'): value for key, value in convention.items()}

        return convention
''', '''        # replace ':' and '.' in key names by '_'
        return {re.sub(r"[:.]", "_", key): convention[key]
                for key in convention}
'''), ("sofa.py", '''        versions = [p.split('_')[-1][:-5] for p in path]

        # select the correct version
        if version == "latest":
            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
        else:
            if version not in versions:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))
            path = path[versions.index(version)]
''', '''        versions = [os.path.splitext(p.rsplit('_', 1)[1])[0] for p in path]

        # select the correct version
        if version == "latest":
            path = max(path, key=lambda p: float(p.split('_')[-1][:-5]))
        elif version in versions:
            path = dict(zip(reversed(versions), reversed(path)))[version]
        else:
            raise ValueError((
                f"Version {version} not found. "
                f"Available versions are {versions}"))
'''), ("sofa.py", '''        if hasattr(self, "_custom"):
            # check of custom fields can be removed
            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]

            # check if custom fields can be added
            for key in self._custom:
                self._convention[key] = self._custom[key]
''', '''        if not hasattr(self, "_custom"):
            return

        # check of custom fields can be removed
        for key in list(self._custom):
            if key in self._convention:
                self._custom.pop(key)

        # check if custom fields can be added
        self._convention.update(self._custom)
'''))

ref("add-entry", ("sofa.py", '''            if name.count("_") != 1 or \\
                    (name.startswith("Data_") and (name.count("_") == 0 or
                                                   name.count("_") > 2)):
                raise ValueError((f"The name of {name} must have the "
                                  "form VariableName_AttributeName"))
            if not name.startswith("GLOBAL_") and \\
                    name[:name.rindex("_")] not in self.__dict__:
                raise ValueError((f"Adding Attribute {name} requires "
                                  f"variable {name[:name.rindex('_')]}"))
''', '''            parts = name.split("_")
            if len(parts) != 2:
                raise ValueError((f"The name of {name} must have the "
                                  "form VariableName_AttributeName"))
            variable = parts[0]
            if variable != "GLOBAL" and variable not in vars(self):
                raise ValueError((f"Adding Attribute {name} requires "
                                  f"variable {variable}"))
'''), ("sofa.py", '''            for dimension in dimensions:
                if dimension not in "ERMNCIS":
                    warnings.warn(
                        f"Added custom dimension {dimensions} to SOFA object",
                        stacklevel=2)
''', '''            for dimension in filter(lambda d: d not in "ERMNCIS", dimensions):
                warnings.warn(
                    f"Added custom dimension {dimensions} to SOFA object",
                    stacklevel=2)
'''), ("sofa.py", '''            dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()
                          for d in dimensions]
            dimensions = "".join(dimensions)
''', '''            standard = set("ERMNCIS")
            out = ""
            for d in dimensions:
                out += d.upper() if d.upper() in standard else d.lower()
            dimensions = out
'''), ("sofa.py", '''            self._custom[key] = {
                "flags": flags,
                "dimensions": dimensions,
                "type": dtype,
                "default": None,
                "comment": ""}
            self._convention[key] = self._custom[key]
''', '''            entry = dict(flags=flags, dimensions=dimensions, type=dtype,
                         default=None, comment="")
            self._convention[key] = self._custom[key] = entry
'''))

ref("inspect-list", ("sofa.py", '''            info_str += key + " : "
            value = getattr(self, key)

            # information for attributes and scalars
            if self._convention[key]["type"] == "attribute" \\
                    or np.size(value) == 1:
                info_str += str(value) + "\\n"
''', '''            value = getattr(self, key)
            info_str += f"{key} : "
            attribute = self._convention[key]["type"] == "attribute"

            # information for attributes and scalars
            if attribute or np.size(value) == 1:
                info_str += f"{value}\\n"
'''), ("sofa.py", '''                shape_verbose = "("
                if dimension is None:
                    for s in shape:
                        shape_verbose += f"{s}, "
                else:
                    # pad shape if required (trailing single dimensions are
                    # discarded following the numpy default)
                    while len(shape) < len(dimension):
                        shape += (1, )
                    for s, d in zip(shape, dimension):
                        shape_verbose += f"{d}={s}, "

                # add shape information
                info_str += shape_verbose[:-2] + ")\\n"
''', '''                if dimension is None:
                    parts = [f"{s}" for s in shape]
                else:
                    # pad shape if required (trailing single dimensions are
                    # discarded following the numpy default)
                    shape = shape + (1, ) * (len(dimension) - len(shape))
                    parts = ["=".join((d, str(s)))
                             for s, d in zip(shape, dimension)]

                # add shape information
                info_str += "(" + ", ".join(parts) + ")\\n"
'''), ("sofastream.py", '''                shape_verbose = "("
                for s, d in zip(shape, dimensions):
                    shape_verbose += f"{d}={s}, "

                # add shape information
                info_str += shape_verbose[:-2] + ")\\n"
''', '''                names = [f"{d}={s}" for d, s in zip(dimensions, shape)]

                # add shape information
                info_str += "(%s)\\n" % ", ".join(names)
'''))

ref("list-dimensions", ("sofa.py", '''        info_str = ""
        for key, value in self._api.items():
            dim_info = dimensions[key] if key in dimensions \\
                else "custom dimension"

            info_str += f"{key} = {value} {dim_info}"
''', '''        info_str = ""
        for key in self._api:
            value = self._api[key]
            dim_info = dimensions.get(key, "custom dimension")

            info_str += "{} = {} {}".format(key, value, dim_info)
'''), ("sofa.py", '''        if self.GLOBAL_DataType.startswith("FIR"):
            N_verbose = "samples"
        elif self.GLOBAL_DataType.startswith("TF"):
            N_verbose = "frequencies"
        elif self.GLOBAL_DataType.startswith("SOS"):
            N_verbose = "SOS coefficients"
        else:
            N_verbose = "samples, frequencies, or SOS coefficients"
''', '''        N_verbose = "samples, frequencies, or SOS coefficients"
        for prefix, verbose in (("FIR", "samples"), ("TF", "frequencies"),
                                ("SOS", "SOS coefficients")):
            if self.GLOBAL_DataType.startswith(prefix):
                N_verbose = verbose
                break
'''), ("sofa.py", '''        if dimension not in self._api:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return self._api[dimension]
''', '''        try:
            return self._api[dimension]
        except KeyError:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid "
                "dimensions.")) from None
'''))

ref("upgrade-helper", ("sofa.py", '''        is_deprecated = False

        if convention_current in deprecations["GLOBAL:SOFAConventions"]:
            is_deprecated = True
        elif convention_current in upgrade:
            for from_to in upgrade[convention_current]["from_to"]:
                if version_current in from_to[0]:
                    is_deprecated = True
                    break
''', '''        is_deprecated = \\
            convention_current in deprecations["GLOBAL:SOFAConventions"] or \\
            any(version_current in from_to[0] for from_to in
                upgrade.get(convention_current, {"from_to": []})["from_to"])
'''), ("sofa.py", '''            moveaxis = upgrade["move"][source]["moveaxis"]
            if moveaxis is not None:
                # add dimensions if required
                # (sofar discards trailing singular dimensions)
                while data.ndim < np.max(moveaxis) + 1:
                    data = data[..., None]
''', '''            moveaxis = move["moveaxis"]
            if moveaxis is not None:
                # add dimensions if required
                # (sofar discards trailing singular dimensions)
                for _ in range(max(moveaxis) + 1 - data.ndim):
                    data = np.expand_dims(data, -1)
'''), ("sofa.py", '''        for target in upgrade["remove"]:
            target_sofar = target.replace(".", '_').replace(":", "_")
            # optional data might not be contained
            if not hasattr(self, target_sofar):
                continue
            delattr(self, target_sofar)
            print(f"- Deleting {target_sofar}.")
''', '''        for target in upgrade["remove"]:
            target_sofar = "_".join(re.split("[.:]", target))
            # optional data might not be contained
            if target_sofar in self.__dict__:
                delattr(self, target_sofar)
                print("- Deleting " + target_sofar + ".")
'''))

ref("read-helper", ("io.py", '''            value = file.getncattr(attr)
            all_attr.append(f"GLOBAL_{attr}")

            if not hasattr(sofa, f"GLOBAL_{attr}"):
                sofa._add_custom_api_entry(
                    f"GLOBAL_{attr}", value, None, None, "attribute")
                custom.append(f"GLOBAL_{attr}")
                sofa.protected = False
            else:
                setattr(sofa, f"GLOBAL_{attr}", value)
''', '''            _store(sofa, f"GLOBAL_{attr}", file.getncattr(attr), None,
                   "attribute", all_attr, custom)
'''), ("io.py", '''        for var in file.variables.keys():

            value = _format_value_from_netcdf(file[var][:], var)
            all_attr.append(var.replace(".", "_"))

            if hasattr(sofa, var.replace(".", "_")):
                setattr(sofa, var.replace(".", "_"), value)
            else:
                dimensions = "".join(list(file[var].dimensions))
                # SOFA only uses dtypes 'double' and 'S1' but netCDF has more
                dtype = "string" if file[var].datatype == "S1" else "double"
                sofa._add_custom_api_entry(var.replace(".", "_"), value, None,
                                           dimensions, dtype)
                custom.append(var.replace(".", "_"))
                sofa.protected = False

            # load variable attributes
            for attr in [a for a in file[var].ncattrs() if a not in skip]:

                value = file[var].getncattr(attr)
                all_attr.append(var.replace(".", "_") + "_" + attr)

                if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
                    sofa._add_custom_api_entry(
                        var.replace(".", "_") + "_" + attr, value, None,
                        None, "attribute")
                    custom.append(var.replace(".", "_") + "_" + attr)
                    sofa.protected = False
                else:
                    setattr(sofa, var.replace(".", "_") + "_" + attr, value)
''', '''        for var, variable in file.variables.items():

            name = var.replace(".", "_")
            # SOFA only uses dtypes 'double' and 'S1' but netCDF has more
            _store(sofa, name, _format_value_from_netcdf(variable[:], var),
                   "".join(variable.dimensions),
                   "string" if variable.datatype == "S1" else "double",
                   all_attr, custom)

            # load variable attributes
            for attr in variable.ncattrs():
                if attr not in skip:
                    _store(sofa, f"{name}_{attr}", variable.getncattr(attr),
                           None, "attribute", all_attr, custom)
'''), ("io.py", '''def write_sofa(filename: str''', '''def _store(sofa, name, value, dimensions, dtype, contained, custom):
    """Store one entry of a file."""
    contained.append(name)
    if hasattr(sofa, name):
        setattr(sofa, name, value)
        return
    sofa._add_custom_api_entry(name, value, None, dimensions, dtype)
    custom.append(name)
    sofa.protected = False


def write_sofa(filename: str'''), ("io.py", '''    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]
    for attr in attrs:
        if attr not in all_attr:
            delattr(sofa, attr)
''', '''    for attr in set(sofa.__dict__) - set(all_attr):
        if not attr.startswith("_"):
            delattr(sofa, attr)
'''))

ref("write-loop", ("io.py", '''        for dim in sofa._api:
            file.createDimension(dim, sofa._api[dim])

        # write global attributes
        keys = [key for key in all_keys if key.startswith("GLOBAL_")]
        for key in keys:
            file.setncattr(key[7:], str(getattr(sofa, key)))
''', '''        for dim, size in sofa._api.items():
            file.createDimension(dim, size)

        # write global attributes
        for key in all_keys:
            prefix, _, name = key.partition("_")
            if prefix == "GLOBAL" and key != "GLOBAL":
                file.setncattr(name, f"{getattr(sofa, key)}")
'''), ("io.py", '''            shape = list(sofa._dimensions[key])
            tmp_var = file.createVariable(
                key.replace("Data_", "Data."), dtype, shape,
                zlib=use_zlib, complevel=compression)
            if dtype == "f8":
                tmp_var[:] = value
            else:
                value = stringtochar(value, encoding='ascii')
                # the characters are stored in dimension S
                if shape[-1] == "S":
                    value = value.reshape(
                        [sofa._api[dim] for dim in shape[:-1]] + [-1])
                tmp_var[:] = value
''', '''            shape = tuple(sofa._dimensions[key])
            name = key.replace("Data_", "Data.")
            options = {"zlib": use_zlib, "complevel": compression}
            tmp_var = file.createVariable(name, dtype, shape, **options)
            if dtype != "f8":
                value = stringtochar(value, encoding='ascii')
                # the characters are stored in dimension S
                if shape[-1] == "S":
                    sizes = [sofa._api[dim] for dim in shape]
                    sizes[-1] = -1
                    value = value.reshape(sizes)
            tmp_var[:] = value
'''), ("io.py", '''            sub_keys = [k for k in all_keys if k.rpartition("_")[0] == key
                        and sofa._convention[k]["type"] == "attribute"]
            for sub_key in sub_keys:
                tmp_var.setncattr(sub_key[len(key)+1:],
                                  str(getattr(sofa, sub_key)))
''', '''            for sub_key in all_keys:
                variable, _, name = sub_key.rpartition("_")
                if variable != key or \\
                        sofa._convention[sub_key]["type"] != "attribute":
                    continue
                tmp_var.setncattr(name, str(getattr(sofa, sub_key)))
'''))

ref("format", ("io.py", '''    # discard additional trailing singleton dimensions
    if netcdf_dtype != "attribute":
        while value.ndim > len(dimensions) and value.shape[-1] == 1:
            value = value[..., 0]
''', '''    # discard additional trailing singleton dimensions
    if netcdf_dtype != "attribute":
        extra = value.ndim - len(dimensions)
        for _ in range(extra):
            if value.shape[-1] != 1:
                break
            value = np.squeeze(value, axis=-1)
'''), ("io.py", '''    if "float" in str(value.dtype) or "int" in str(value.dtype):
        if np.ma.is_masked(value):
            warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
        else:
            # Convert to numpy array or scalar
            value = np.asarray(value)
    elif str(value.dtype)[1] in ["S", "U"]:
        # string arrays are stored in masked arrays with empty strings '' being
        # masked. Convert to regular arrays with unmasked empty strings
        if str(value.dtype)[1] == "S":
            value = chartostring(value, encoding="ascii")
''', '''    kind = value.dtype.kind
    if kind in ("f", "i", "u"):
        if not np.ma.is_masked(value):
            # Convert to numpy array or scalar
            value = np.array(value)
        else:
            warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
    elif kind in ("S", "U"):
        # string arrays are stored in masked arrays with empty strings '' being
        # masked. Convert to regular arrays with unmasked empty strings
        if kind == "S":
            value = chartostring(value, encoding="ascii")
'''), ("io.py", '''    if value.size == 1 and key not in data_keys:
        value = value[0]

    return value
''', '''    return value[0] if value.size == 1 and key not in data_keys else value
'''))

ref("nd", ("utils.py", '''    if ndim == 1:
        array = np.atleast_1d(array)
    if ndim == 2:
        array = np.atleast_2d(array)
    if ndim >= 3:
        array = np.atleast_3d(array)
    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array
''', '''    extend = {1: np.atleast_1d, 2: np.atleast_2d}.get(ndim, np.atleast_3d)
    if ndim >= 1:
        array = extend(array)
    while array.ndim < ndim:
        array = np.expand_dims(array, axis=array.ndim)
    return array
'''), ("utils.py", '''    array = np.array(array)

    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array
''', '''    array = np.array(array)
    missing = max(0, ndim - array.ndim)
    return array.reshape(array.shape + (1, ) * missing)
'''))

ref("equals", ("utils.py", '''    keys_a = [k for k in sofa_a.__dict__.keys() if not k.startswith("_")]
    keys_b = [k for k in sofa_b.__dict__.keys() if not k.startswith("_")]

    if exclude is not None:
        if exclude.upper() == "GLOBAL":
            keys_a = [k for k in keys_a if not k.startswith("GLOBAL_")]
            keys_b = [k for k in keys_b if not k.startswith("GLOBAL_")]
        elif exclude.upper() == "ATTR":
            keys_a = [k for k in keys_a if
                      sofa_a._convention[k]["type"] != "attribute"]
            keys_b = [k for k in keys_b if
                      sofa_b._convention[k]["type"] != "attribute"]
        elif exclude.upper() == "DATE":
            keys_a = [k for k in keys_a if "Date" not in k]
            keys_b = [k for k in keys_b if "Date" not in k]
        else:
            raise ValueError(
                f"exclude is {exclude} but must be GLOBAL, DATE, or ATTR")
''', '''    if exclude is not None:
        exclude = exclude.upper()
        if exclude not in ("GLOBAL", "DATE", "ATTR"):
            raise ValueError(
                f"exclude is {exclude} but must be GLOBAL, DATE, or ATTR")

    def compared(sofa):
        for k in vars(sofa):
            if k.startswith("_"):
                continue
            if exclude == "GLOBAL" and k[:7] == "GLOBAL_":
                continue
            if exclude == "ATTR" \\
                    and sofa._convention[k]["type"] == "attribute":
                continue
            if exclude == "DATE" and k.find("Date") != -1:
                continue
            yield k

    keys_a, keys_b = list(compared(sofa_a)), list(compared(sofa_b))
'''), ("utils.py", '''    if set(keys_a) != set(keys_b):
''', '''    if any(k not in keys_b for k in keys_a):
'''), ("utils.py", '''            try:
                assert np.squeeze(a).shape == np.squeeze(b).shape
                npt.assert_array_equal(np.ma.getmaskarray(np.squeeze(a)),
                                       np.ma.getmaskarray(np.squeeze(b)))
                npt.assert_allclose(np.ma.filled(np.squeeze(a), 0),
                                    np.ma.filled(np.squeeze(b), 0))
            except AssertionError:
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
''', '''            a, b = np.squeeze(a), np.squeeze(b)
            same = a.shape == b.shape and np.array_equal(
                np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and \\
                np.allclose(np.ma.filled(a, 0), np.ma.filled(b, 0),
                            rtol=1e-7, atol=0, equal_nan=True)
            if not same:
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
'''), ("utils.py", '''            try:
                assert np.squeeze(a).shape == np.squeeze(b).shape
                assert np.all(
                    np.squeeze(a).astype("U") == np.squeeze(b).astype("U"))
            except AssertionError:
                is_identical''', '''            a, b = np.squeeze(a), np.squeeze(b)
            if a.shape != b.shape or \\
                    not (a.astype("U") == b.astype("U")).all():
                is_identical'''))

ref("conventions", ("utils.py", '''    for path in paths:
        fileparts = os.path.basename(path).split(sep="_")
        conventions += [fileparts[0]]
        versions += [fileparts[1][:-5]]
        conventions_str += f"{conventions[-1]} (Version {versions[-1]})\\n"
''', '''    for path in paths:
        name, _, version = os.path.basename(path).partition("_")
        version = version.split("_")[0][:-5]
        conventions.append(name)
        versions.append(version)
        conventions_str += "%s (Version %s)\\n" % (name, version)
'''), ("utils.py", '''    version_exists = False
    for versions in name_version:
        if versions[0] == convention \\
                and str(float(versions[1])) == version:
            version_exists = True

    if not version_exists:
''', '''    versions = {str(float(v)) for n, v in name_version if n == convention}

    if version not in versions:
'''))

ref("stream", ("sofastream.py", '''        if name.startswith("GLOBAL_"):
            if name[7:] in self._file.ncattrs():
                self._data = self._file.getncattr(name[7:])
                return self._data

        # variables and variable-attributes (e.g. '_Units' and '_Type')
        else:
            for key, variable in self._file.variables.items():
                # name of the variable in sofar
                key = key.replace(".", "_")

                if name == key:
                    self._data = variable
                    return self._data
                if name.startswith(f"{key}_") and \\
                        name[len(key) + 1:] in variable.ncattrs():
                    self._data = variable.getncattr(name[len(key) + 1:])
                    return self._data

        raise AttributeError(f"{name} is not contained in SOFA-file")
''', '''        found = self._find(name)
        if not found:
            raise AttributeError(f"{name} is not contained in SOFA-file")
        self._data = found[0]
        return self._data

    def _find(self, name):
        """List with the entry of that name (empty if there is none)."""
        if name.startswith("GLOBAL_"):
            name = name[len("GLOBAL_"):]
            return [self._file.getncattr(a) for a in self._file.ncattrs()
                    if a == name]

        # variables and variable-attributes (e.g. '_Units' and '_Type')
        for variable in self._file.variables.values():
            # name of the variable in sofar
            key = variable.name.replace(".", "_")
            if key == name:
                return [variable]
            if name[:len(key) + 1] == key + "_":
                rest = name[len(key) + 1:]
                if rest in variable.ncattrs():
                    return [variable.getncattr(rest)]
        return []
'''), ("sofastream.py", '''        if dimension not in dims.keys():
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return dims[dimension].size
''', '''        if dimension in dims:
            return len(dims[dimension])

        raise ValueError((
            f"{dimension} is not a valid dimension. "
            "See Sofa.list_dimensions for a list of valid dimensions."))
'''))

ref("csv", ("update_conventions.py", '''    with open(file, 'r', encoding="windows-1252") as fid:
        lines = fid.readlines()

    # write into dict
    convention = {}
    for idl, line in enumerate(lines):
''', '''    convention = {}
    with open(file, encoding="windows-1252") as fid:
        lines = list(fid)

    # write into dict
    for idl, line in enumerate(lines):
'''), ("update_conventions.py", '''                if ';' not in cell:
                    # create flat list of integers and floats
                    # (separated by commas and/or white spaces)
                    numbers = cell.replace(',', ' ').split()
                    cell = [float(n) if '.' in n else int(n) for n in numbers]
                else:
                    # create a nested list of integers and floats
                    # separate multidimensional arrays
                    cell = cell.split(';')
                    cell_nd = [None] * len(cell)
                    for idx, cc in enumerate(cell):
                        numbers = cc.replace(',', ' ').split()
                        cell_nd[idx] = [float(n) if '.' in n else int(n)
                                        for n in numbers]

                    cell = cell_nd

                # write parsed cell to line
                line[idc] = cell
''', '''                # lists of integers and floats (separated by commas and/or
                # white spaces), rows are separated by semicolons
                rows = [_numbers(row) for row in cell.split(';')]

                # write parsed cell to line
                line[idc] = rows if len(rows) > 1 else rows[0]
'''), ("update_conventions.py", '''def _check_congruency(''', '''def _numbers(text):
    """List of the numbers in a text."""
    numbers = []
    for n in text.replace(',', ' ').split():
        numbers.append(float(n) if '.' in n else int(n))
    return numbers


def _check_congruency('''), ("update_conventions.py", '''            convention[line[0]] = {}
            for ff, field in enumerate(fields):
                convention[line[0]][field.lower()] = line[ff + 1]
''', '''            convention[line[0]] = {
                field.lower(): line[ff]
                for ff, field in enumerate(fields, start=1)}
'''), ("update_conventions.py", '''    keys = list(convention.keys())
    for key in keys:
        if "GLOBAL" not in key:
            convention[key] = convention.pop(key)
    # 1. Move Data entries to the end
    for key in keys:
        if key.startswith("Data"):
            convention[key] = convention.pop(key)

    return convention
''', '''    # 2. Move Data entries to the end
    def position(key):
        return (key.startswith("Data"), "GLOBAL" not in key)

    return {key: convention[key] for key in sorted(convention, key=position)}
'''))

ref("update", ("update_conventions.py", '''    page = requests.get(urls[0])
    page.raise_for_status()
    page = page.text
    soup = BeautifulSoup(page, 'html.parser')
    standardized = [os.path.split(node.get('href'))[1]
                    for node in soup.find_all('a')
                    if node.get('href').endswith(ext)]
    page = requests.get(urls[1])
    page.raise_for_status()
    page = page.text
    soup = BeautifulSoup(page, 'html.parser')
    deprecated = [os.path.split(node.get('href'))[1]
                  for node in soup.find_all('a')
                  if node.get('href').endswith(ext)]
''', '''    listed = []
    for link in urls:
        page = requests.get(link)
        page.raise_for_status()
        found = []
        for node in BeautifulSoup(page.text, 'html.parser').find_all('a'):
            href = node.get('href')
            if href.endswith(ext):
                found.append(os.path.basename(href))
        listed.append(found)
    standardized, deprecated = listed
'''), ("update_conventions.py", '''            if is_standardized and os.path.isfile(standardized_csv):
                # check for update of a standardized convention
                with open(standardized_csv, "rb") as file:
                    data_current = b"".join(file.readlines())
                    data_current = re.sub(
                        rb"[\\r\\t]+\\n", b"\\n", data_current)
                if data_current != data:
''', '''            elif is_standardized:
                # check for update of a standardized convention
                with open(standardized_csv, "rb") as file:
                    data_current = re.sub(
                        rb"[\\r\\t]+\\n", b"\\n", file.read())
                if not data_current == data:
'''), ("update_conventions.py", '''            for convention in update:
                shutil.copy(os.path.join(temp, convention),
                            os.path.join(conventions_path, convention))
''', '''            for convention in update:
                target = os.path.join(conventions_path, convention)
                shutil.copyfile(os.path.join(temp, convention), target)
'''), ("update_conventions.py", '''    csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \\
        glob.glob(os.path.join(conventions_path, "deprecated", "*.csv"))

    for csv_file in csv_files:
''', '''    csv_files = []
    for folder in (conventions_path,
                   os.path.join(conventions_path, "deprecated")):
        csv_files.extend(glob.glob(os.path.join(folder, "*.csv")))

    for csv_file in csv_files:
'''), ("update_conventions.py", '''        convention_dict = _convention_csv2dict(csv_file)
        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4)
''', '''        text = json.dumps(_convention_csv2dict(csv_file), indent=4)
        with open(os.path.splitext(csv_file)[0] + ".json", 'w') as file:
            file.write(text)
'''))
