# mut(name, checks, (file, old, new)...)
mut("s-last", "C02 C01", ("sofa.py", "S = max(S, np.max(self", "S = (np.max(self"),
    ("sofa.py", "_get_size_and_shape_of_string_var(\n                        value, key)[0]))", "_get_size_and_shape_of_string_var(\n                        value, key)[0]))"))
mut("latest-string", "C28", ("io.py", "if parse(current) < parse(latest):", "if current < latest:"))
mut("auto-greater", "C28", ("io.py", "verify = True if parse(version) >= parse('1.0') else False", "verify = True if parse(version) > parse('1.0') else False"))
mut("auto-global", "C28", ("io.py", "verify = True if parse(version) >= parse('1.0') else False", "verify = True if parse(sofa.GLOBAL_Version) >= parse('1.0') else False"))
mut("read-write-mode", "C28", ("io.py", 'sofa.verify(mode="read")', 'sofa.verify(mode="write")'))
mut("outdated-equal", "C28", ("io.py", "if parse(current) < parse(latest):", "if parse(current) != parse(latest) and len(current) == len(latest):"))
mut("outdated-raise", "C28", ("io.py", "warnings.warn((\n                    \"Writing SOFA object", "raise ValueError((\n                    \"Writing SOFA object"), ("io.py", '"writing to disk if possible."), stacklevel=2)', '"writing to disk if possible."))'))
mut("masked-all", "C03 C01", ("io.py", "if np.ma.is_masked(value):", "if np.ma.is_masked(value) and value.ndim > 1:"))
mut("mask-first", "C03", ("io.py", "if np.ma.is_masked(value):", "if np.ma.getmaskarray(value).flat[0]:"))
mut("int-round", "C03", ("io.py", "            value = np.asarray(value)\n", "            value = np.asarray(value, dtype='float32')\n"))
mut("custom-dims", "C03 C01", ("io.py", '"".join(list(file[var].dimensions))', '"".join(sorted(file[var].dimensions))'))
mut("attr-prefix", "C02 C01", ("io.py", '[k for k in all_keys if k.rpartition("_")[0] == key', '[k for k in all_keys if k.startswith(key + "_")'))
mut("attr-prefix2", "C02 C01", ("io.py", '[k for k in all_keys if k.rpartition("_")[0] == key', '[k for k in all_keys if k.split("_")[0] == key.split("_")[-1]'))
mut("data-replace", "C02 C03", ("io.py", 'key.replace("Data_", "Data.")', 'key.replace("_", ".")'))
mut("skip-attr", "C03", ("io.py", 'skip = ["_Encoding"]', 'skip = ["_Encoding", "description"]'))
mut("skip-underscore", "C03", ("io.py", "for attr in [a for a in file[var].ncattrs() if a not in skip]", "for attr in [a for a in file[var].ncattrs() if '_' not in a]"))
mut("scalar-last", "C03 C01", ("io.py", "value = value[0]\n\n    return", "value = value.flatten()[-1] if value.ndim < 4 else value[0, 0]\n\n    return"))
mut("size-two", "C03 C01", ("io.py", "if value.size == 1 and key not", "if len(value) == 1 and value.ndim == 1 and key not"))
mut("ncattr-order", "C03", ("io.py", "        if attr not in all_attr:", "        if attr not in all_attr and not attr.endswith('Description'):"))
mut("remove-startswith", "C03", ("io.py", "        if attr not in all_attr:", "        if not any(a.startswith(attr) for a in all_attr):"))
mut("squeeze-write", "C01 C02", ("io.py", "while value.ndim > len(dimensions) and value.shape[-1] == 1:", "while value.ndim > len(dimensions):"))
mut("suffix-lower", "C02 C01", ("io.py", "    filename = pathlib.Path(filename)\n    if filename.suffix != '.sofa':\n        filename = filename.with_name(filename.name + '.sofa')\n\n    if verify:", "    filename = pathlib.Path(filename)\n    if filename.suffix.lower() != '.sofa':\n        filename = filename.with_name(filename.name + '.sofa')\n\n    if verify:"))
mut("suffix-with", "C02 C01", ("io.py", "    filename = pathlib.Path(filename)\n    if filename.suffix != '.sofa':\n        filename = filename.with_name(filename.name + '.sofa')\n\n    if verify:", "    filename = pathlib.Path(filename)\n    if '.sofa' not in filename.name:\n        filename = filename.with_name(filename.name + '.sofa')\n\n    if verify:"))
mut("append-mode", "C02 C25", ("io.py", 'with Dataset(filename, "w", format="NETCDF4")', 'with Dataset(filename, "a" if os.path.isfile(filename) else "w", format="NETCDF4")'))
mut("custom-notice", "C03", ("io.py", "    if custom and verbose:", "    if len(custom) > 1 and verbose:"))
mut("stream-prefix", "C21", ("sofastream.py", "                if name == key:", "                if name.startswith(key) and '_' not in name[len(key):]:"))
mut("stream-global", "C21", ("sofastream.py", '        if name.startswith("GLOBAL_"):\n            if name[7:] in', '        if name.startswith("GLOBAL"):\n            if name.replace("GLOBAL_", "") in'))
mut("stream-data", "C21", ("sofastream.py", 'key = key.replace(".", "_")', 'key = key.replace("Data.", "Data_")'))
mut("stream-harmonic", "C21", ("sofastream.py", "in self._file.variables['EmitterPosition'].getncattr('Type')", "in self._file.variables['ReceiverPosition'].getncattr('Type')"))
mut("stream-size", "C21", ("sofastream.py", "        return dims[dimension].size", "        return max(dims[dimension].size, 1) if dimension in 'MRNE' else dims[dimension].size"))
mut("stream-upper", "C21", ("sofastream.py", "        if dimension not in dims.keys():", "        dimension = dimension.upper()\n        if dimension not in dims.keys():"))
mut("equals-rtol", "C16", ("utils.py", "np.ma.filled(np.squeeze(b), 0))", "np.ma.filled(np.squeeze(b), 0), rtol=1e-5)"))
mut("equals-atol", "C16", ("utils.py", "np.ma.filled(np.squeeze(b), 0))", "np.ma.filled(np.squeeze(b), 0), atol=1e-8)"))
mut("equals-last", "C16", ("utils.py", "            if a != b:\n                is_identical = _equals_raise_warning(\n                    f\"not identical: different values for {key}\", verbose)", "            is_identical = a == b\n            if not is_identical:\n                _equals_raise_warning(\n                    f\"not identical: different values for {key}\", verbose)"))
mut("equals-case", "C16", ("utils.py", "            if a != b:", "            if a.lower() != b.lower():"))
mut("equals-verbose", "C16", ("utils.py", "        warnings.warn(message, stacklevel=2)\n    return False", "        warnings.warn(message, stacklevel=2)\n    return not verbose and 'ame attr' in message"))
mut("equals-strtrunc", "C16", ("utils.py", 'np.squeeze(a).astype("U") == np.squeeze(b).astype("U")', 'np.squeeze(a).astype("U") == np.squeeze(b).astype(np.squeeze(a).astype("U").dtype)'))
mut("equals-date", "C16", ("utils.py", '            keys_b = [k for k in keys_b if "Date" not in k]', '            keys_b = [k for k in keys_b if not k.startswith("GLOBAL_Date")]'))
mut("equals-date2", "C16", ("utils.py", '            keys_a = [k for k in keys_a if "Date" not in k]\n            keys_b = [k for k in keys_b if "Date" not in k]', '            keys_a = [k for k in keys_a if "Data" not in k]\n            keys_b = [k for k in keys_b if "Data" not in k]'))
mut("equals-date3", "C16", ("utils.py", '            keys_a = [k for k in keys_a if "Date" not in k]\n            keys_b = [k for k in keys_b if "Date" not in k]', '            keys_a = [k for k in keys_a if not k.startswith("GLOBAL_Date")]\n            keys_b = [k for k in keys_b if not k.startswith("GLOBAL_Date")]'))
mut("equals-set", "C16", ("utils.py", "    if set(keys_a) != set(keys_b):", "    if keys_a != keys_b:"))
mut("equals-subset", "C16", ("utils.py", "    if len(keys_a) != len(keys_b):", "    if len(keys_a) > len(keys_b):"), ("utils.py", "    if set(keys_a) != set(keys_b):", "    if not set(keys_a) <= set(keys_b):"))
mut("equals-attr", "C16", ("utils.py", '                      sofa_b._convention[k]["type"] != "attribute"]', '                      sofa_b._convention[k]["type"] != "attribute"\n                      and k in keys_a]'))
