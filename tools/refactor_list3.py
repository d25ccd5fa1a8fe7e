# edits with other library functions and idioms that keep the behaviour
ref("e-shape-compare", ("sofa.py", '''                shape_compare = shape_act
                if all(s == 1 for s in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
                for _ in range(len(shape_ref) - len(shape_compare)):
                    shape_compare += (1, )
''', '''                n = len(shape_ref)
                head, tail = shape_act[:n], shape_act[n:]
                shape_compare = head if not any(
                    s != 1 for s in tail) else shape_act
                shape_compare = tuple(shape_compare) + (1, ) * max(
                    0, n - len(shape_compare))
'''))
ref("e-string-size", ("sofa.py", '''            S = np.max(np.vectorize(len)(value))
            shape = value.shape''', '''            S = max(len(v) for v in value.flatten().tolist())
            shape = value.shape'''))
ref("e-nd-reshape", ("utils.py", '''    array = np.array(array)

    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array
''', '''    array = np.array(array)
    missing = max(ndim - array.ndim, 0)
    return array.reshape(array.shape + (1, ) * missing)
'''))
ref("e-equals-array", ("utils.py", '''                assert np.all(
                    np.squeeze(a).astype("U") == np.squeeze(b).astype("U"))
''', '''                npt.assert_array_equal(np.squeeze(a).astype("U"),
                                       np.squeeze(b).astype("U"))
'''))
ref("e-keys-vars", ("utils.py", '''    keys_a = [k for k in sofa_a.__dict__.keys() if not k.startswith("_")]
    keys_b = [k for k in sofa_b.__dict__.keys() if not k.startswith("_")]
''', '''    keys_a = [k for k in vars(sofa_a) if k[:1] != "_"]
    keys_b = [k for k in vars(sofa_b) if k[:1] != "_"]
'''))
ref("e-symmetric", ("utils.py", '''    if set(keys_a) != set(keys_b):
''', '''    if set(keys_a).symmetric_difference(keys_b):
'''))
ref("e-filename", ("io.py", '''    filename = pathlib.Path(filename)
    if filename.suffix != '.sofa':
        filename = filename.with_name(filename.name + '.sofa')

    if verify:
''', '''    filename = pathlib.Path(filename)
    if not filename.suffix == '.sofa':
        filename = filename.parent / f"{filename.name}.sofa"

    if verify:
'''))
ref("e-exists", ("io.py", '''    if not os.path.isfile(filename):
''', '''    if not filename.is_file():
'''))
ref("e-dims-items", ("io.py", '''        for dim in sofa._api:
            file.createDimension(dim, sofa._api[dim])
''', '''        for dim, size in sofa._api.items():
            file.createDimension(dimname=dim, size=size)
'''))
ref("e-setncattr", ("io.py", '''        keys = [key for key in all_keys if key.startswith("GLOBAL_")]
        for key in keys:
            file.setncattr(key[7:], str(getattr(sofa, key)))
''', '''        attributes = {key[len("GLOBAL_"):]: str(getattr(sofa, key))
                      for key in all_keys if key.startswith("GLOBAL_")}
        for key, value in attributes.items():
            file.setncattr(key, value)
'''))
ref("e-ellipsis", ("io.py", '''            if dtype == "f8":
                tmp_var[:] = value
            else:
''', '''            if dtype == "f8":
                tmp_var[...] = value
            else:
'''))
ref("e-squeeze-tail", ("io.py", '''        while value.ndim > len(dimensions) and value.shape[-1] == 1:
            value = value[..., 0]
''', '''        while value.ndim > len(dimensions):
            if value.shape[-1] != 1:
                break
            value = np.squeeze(value, axis=-1)
'''))
ref("e-copy", ("io.py", '''    with contextlib.suppress(AttributeError):
        value = value.copy()

    # parse''', '''    if hasattr(value, "copy"):
        value = value.copy()

    # parse'''))
ref("e-kind", ("io.py", '''    if "float" in str(value.dtype) or "int" in str(value.dtype):
''', '''    if any(x in str(value.dtype) for x in ("float", "int")):
'''))
ref("e-first", ("io.py", '''        value = np.atleast_1d(value)[0]

    return value
''', '''        value, = np.atleast_1d(value)

    return value
'''))
ref("e-sanitize", ("io.py", '''        for var in file.variables.keys():

            value = _format_value_from_netcdf(file[var][:], var)
            all_attr.append(var.replace(".", "_"))

            if hasattr(sofa, var.replace(".", "_")):
                setattr(sofa, var.replace(".", "_"), value)
            else:
                dimensions = "".join(list(file[var].dimensions))
''', '''        for var, variable in file.variables.items():

            name = "_".join(var.split("."))
            value = _format_value_from_netcdf(variable[...], var)
            all_attr += [name]

            if hasattr(sofa, name):
                setattr(sofa, name, value)
            else:
                dimensions = str().join(variable.dimensions)
'''))
ref("e-verify-auto", ("io.py", '''    if verify == 'auto':
        verify = True if parse(version) >= parse('1.0') else False

    # update api
''', '''    verify = not parse(version) < parse('1.0') if verify == 'auto' \\
        else verify

    # update api
'''))
ref("e-not-contained", ("io.py", '''    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]
    for attr in attrs:
        if attr not in all_attr:
            delattr(sofa, attr)
''', '''    contained = frozenset(all_attr)
    for attr in list(sofa.__dict__):
        if not (attr.startswith("_") or attr in contained):
            delattr(sofa, attr)
'''))
ref("e-setattr-scalar", ("sofa.py", '''            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]

        super''', '''            value = np.atleast_2d(value)
            value = value.ravel()[0] if value.size == 1 else value

        super'''))
ref("e-delattr", ("sofa.py", '''            if hasattr(self, "_custom"):
                if name in self._custom:
                    self._custom.pop(name)
                    self._convention.pop(name, None)
        else:''', '''            custom = self.__dict__.get("_custom", {})
            if custom.pop(name, None) is not None:
                self._convention.pop(name, None)
        else:'''))
ref("e-verbose-n", ("sofa.py", '''        if self.GLOBAL_DataType.startswith("FIR"):
            N_verbose = "samples"
        elif self.GLOBAL_DataType.startswith("TF"):
            N_verbose = "frequencies"
        elif self.GLOBAL_DataType.startswith("SOS"):
            N_verbose = "SOS coefficients"
        else:
            N_verbose = "samples, frequencies, or SOS coefficients"
''', '''        N_verbose = next(
            (text for start, text in (("FIR", "samples"),
                                      ("TF", "frequencies"),
                                      ("SOS", "SOS coefficients"))
             if self.GLOBAL_DataType.startswith(start)),
            "samples, frequencies, or SOS coefficients")
'''))
ref("e-get-dimension", ("sofa.py", '''        if dimension not in self._api:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return self._api[dimension]
''', '''        try:
            return self._api[dimension]
        except KeyError as error:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid "
                "dimensions.")) from error
'''))
ref("e-custom-dim", ("sofa.py", '''            for dimension in dimensions:
                if dimension not in "ERMNCIS":
                    warnings.warn(
                        f"Added custom dimension {dimensions} to SOFA object",
                        stacklevel=2)
''', '''            for _ in filter(lambda d: d not in "ERMNCIS", dimensions):
                warnings.warn(
                    f"Added custom dimension {dimensions} to SOFA object",
                    stacklevel=2)
'''))
ref("e-map-case", ("sofa.py", '''            dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()
                          for d in dimensions]
            dimensions = "".join(dimensions)
''', '''            dimensions = "".join(map(
                lambda d: d.upper() if d.upper() in "ERMNCIS" else d.lower(),
                dimensions))
'''))
ref("e-missing-pad", ("sofa.py", '''                while data.ndim < np.max(moveaxis) + 1:
                    data = data[..., None]
''', '''                for _ in range(data.ndim, max(moveaxis) + 1):
                    data = np.expand_dims(data, -1)
'''))
ref("e-types", ("sofa.py", '''                if not isinstance(
                        value, (int, float, np.ndarray, np.number)) or \\
                        (isinstance(value, (np.ndarray, np.number)) and
                         value.dtype.kind not in ['i', 'u', 'f']):
''', '''                is_numpy = isinstance(value, (np.ndarray, np.number))
                if is_numpy and value.dtype.kind not in 'iuf' or not (
                        is_numpy or isinstance(value, (int, float))):
'''))
ref("e-rsplit", ("sofa.py", '''            if (key[:key.rindex("_")] not in variables and
                    not key.startswith("GLOBAL_")):
''', '''            if (key.rsplit("_", 1)[0] not in variables and
                    key[:7] != "GLOBAL_"):
'''))
ref("e-isdisjoint", ("sofa.py", '''            for key in self._custom.keys():
                if key.replace("GLOBAL_", "") in normative:
                    current_error += "- " + key + "\\n"
''', '''            current_error += "".join(
                f"- {key}\\n" for key in self._custom
                if not {key.replace("GLOBAL_", "")}.isdisjoint(normative))
'''))
ref("e-max-s", ("sofa.py", '''                    S = max(S, np.max(self._get_size_and_shape_of_string_var(
                        value, key)[0]))
''', '''                    size, _ = self._get_size_and_shape_of_string_var(
                        value, key)
                    S = size if size > S else S
'''))
ref("e-specific-get", ("sofa.py", '''            if "specific" in rules[key] \\
                    and test in rules[key]["specific"]:
                items = rules[key]["specific"][test].items()
            else:
                items = {}.items()
''', '''            items = rules[key]["specific"].get(test, {}).items() \\
                if "specific" in rules[key] else ()
'''), ("sofa.py", '''            items = rules[key]["general"] if "general" in rules[key] else []
''', '''            items = rules[key].get("general", [])
'''))
ref("e-units-write", ("sofa.py", '''                if unit.lower() != unit:
''', '''                if not unit == unit.lower():
'''))
ref("e-unit-all", ("sofa.py", '''        for unit_test, unit_ref in zip(units_test, units_ref):
            if unit_test not in unit_aliases \\
                    or unit_aliases[unit_test] != unit_ref:
                return False

        return True
''', '''        return [unit_aliases.get(unit) for unit in units_test] == units_ref
'''))
ref("e-argmax", ("sofa.py", '''            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
''', '''            path = max(zip(path, map(float, versions)),
                       key=lambda x: x[1])[0]
'''))
ref("e-translate", ("sofa.py", '''        convention = {
            key.replace(':', '_'): value for key, value in convention.items()}
        convention = {
            key.replace('.', '_'): value for key, value in convention.items()}
''', '''        convention = {
            key.translate(str.maketrans(":.", "__")): value
            for key, value in convention.items()}
'''))
ref("e-update", ("sofa.py", '''            for key in self._custom:
                self._convention[key] = self._custom[key]
''', '''            self._convention.update(self._custom)
'''))
ref("e-deepcopy", ("sofa.py", '''        return deepcopy(self)
''', '''        other = deepcopy(self)
        return other
'''))
ref("e-stream-partition", ("sofastream.py", '''                if name.startswith(f"{key}_") and \\
                        name[len(key) + 1:] in variable.ncattrs():
                    self._data = variable.getncattr(name[len(key) + 1:])
                    return self._data
''', '''                before, _, after = name.partition(f"{key}_")
                if before == "" and after and after in variable.ncattrs():
                    self._data = variable.getncattr(after)
                    return self._data
'''))
