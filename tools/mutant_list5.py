# faults that need large sizes, long texts or rare values
U, S, I, T, L = ("update_conventions.py", "sofa.py", "io.py", "sofastream.py",
                 "utils.py")
mut("g-str-64", "C01 C02", (I, 'dtype=f"S{str(S)}"', 'dtype=f"S{str(min(S, 64))}"'))
mut("g-str-250", "C01 C02", (I, 'dtype=f"S{str(S)}"', 'dtype=f"S{str(min(S, 250))}"'))
mut("g-attr-1000", "C02 C01", (I, "            file.setncattr(key[7:], str(getattr(sofa, key)))", "            file.setncattr(key[7:], str(getattr(sofa, key))[:1000])"))
mut("g-attr-sub-100", "C02 C01", (I, "                                  str(getattr(sofa, sub_key)))", "                                  str(getattr(sofa, sub_key))[:100])"))
mut("g-attr-newline", "C02 C01", (I, "            file.setncattr(key[7:], str(getattr(sofa, key)))", "            file.setncattr(key[7:], str(getattr(sofa, key)).replace(chr(13), chr(10)))"))
mut("g-read-nul", "C03", (I, "            value = file.getncattr(attr)\n", "            value = file.getncattr(attr)\n            value = value.rstrip() if isinstance(value, str) else value\n"))
mut("g-read-sub-strip", "C03", (I, "                value = file[var].getncattr(attr)\n", "                value = file[var].getncattr(attr)\n                value = value.strip(' ,') if isinstance(value, str) else value\n"))
mut("g-big-size", "C04 C01", (S, "                        _nd_newaxis(value, idx + 1).shape[idx]\n", "                        min(_nd_newaxis(value, 4).shape[idx], 65536)\n"))
mut("g-big-float32", "C01 C02", (I, '        netcdf_dtype = "f8"\n', '        netcdf_dtype = "f8" if value.size < 10**6 else "f4"\n'))
mut("g-big-chunk", "C01", (I, "                tmp_var[:] = value\n            else:", "                tmp_var[:] = value if value.size < 10**7 else value.astype('f4')\n            else:"))
mut("g-name-long", "C14", (S, "        # add attribute to class\n        self._add_custom", "        name = name[:30]\n        # add attribute to class\n        self._add_custom"))
mut("g-dims-5", "C14 C04", (S, "            dimensions = dimensions.upper()\n", "            dimensions = dimensions.upper()[:4]\n"))
mut("g-nd5", "C01 C02 C04", (L, "    if ndim >= 3:\n        array = np.atleast_3d(array)\n    for _ in range(ndim - array.ndim):", "    if ndim >= 3:\n        array = np.atleast_3d(array)\n    for _ in range(min(ndim, 4) - array.ndim):"))
mut("g-eq-rtol", "C16", (L, "                                    np.ma.filled(np.squeeze(b), 0))", "                                    np.ma.filled(np.squeeze(b), 0), rtol=1e-6)"))
mut("g-eq-atol", "C16", (L, "                                    np.ma.filled(np.squeeze(b), 0))", "                                    np.ma.filled(np.squeeze(b), 0), atol=1e-12)"))
mut("g-eq-first", "C16", (L, "                npt.assert_allclose(np.ma.filled(np.squeeze(a), 0),\n                                    np.ma.filled(np.squeeze(b), 0))", "                npt.assert_allclose(np.ma.filled(np.squeeze(a), 0).flatten()[:100000],\n                                    np.ma.filled(np.squeeze(b), 0).flatten()[:100000])"))
mut("g-eq-attr-len", "C16", (L, "            if a != b:\n", "            if str(a)[:200] != str(b)[:200]:\n"))
mut("g-eq-case", "C16", (L, "            if a != b:\n", "            if a != b and not (key.endswith('Units') and str(a).lower() == str(b).lower()):\n"))
mut("g-eq-strip", "C16", (L, "            if a != b:\n", "            if a != b and str(a).rstrip() != str(b).rstrip():\n"))
mut("g-inspect-6", "C23", (S, "value.size < 7", "value.size < 6"))
mut("g-version-10", "C18", (S, "            versions = np.array([float(v) for v in versions])\n            path = path[np.argmax(versions)]", "            path = path[versions.index(max(versions))]"))
mut("g-latest-warn", "C28", (I, "            if parse(current) < parse(latest):\n", "            if current < latest:\n"))
mut("g-unit-space", "C09", (S, "        units_test = re.split(', ?', test)\n\n        # check", "        units_test = re.split(', *', test)\n\n        # check"))
mut("g-unit-zip", "C09", (S, "        if len(units_ref) != len(units_test):\n", "        if len(units_ref) > len(units_test):\n"))
mut("g-unit-many", "C09", (S, "        for unit_test, unit_ref in zip(units_test, units_ref):\n            if", "        for unit_test, unit_ref in zip(units_test[:3], units_ref):\n            if"))
mut("g-scalar-int", "C13", (S, "                value = value.flatten()[0]\n\n        super", "                value = value.flatten()[0]\n                if value == int(value) if isinstance(value, np.floating) and np.isfinite(value) else False:\n                    value = np.int64(value)\n\n        super"))
mut("g-list-long", "C13", (S, "            value = np.atleast_2d(value)\n", "            value = np.atleast_2d(value)\n            if value.ndim > 3:\n                value = value.squeeze()\n"))
mut("g-set-f", "C13", (S, "            value = np.atleast_2d(value)\n", "            value = np.atleast_2d(value)\n            if value.dtype.kind == 'i' and value.size > 1:\n                value = value.astype('int32')\n"))
mut("g-stream-dup", "C21", (T, "            for key, variable in self._file.variables.items():\n                # name of the variable in sofar", "            for key, variable in list(self._file.variables.items())[:20]:\n                # name of the variable in sofar"))
mut("g-read-many", "C03 C01", (I, "        for var in file.variables.keys():\n", "        for var in list(file.variables.keys())[:64]:\n"))
mut("g-read-custom-many", "C03", (I, "    if custom and verbose:\n        print((\"SOFA file", "    if len(custom) < 5 and custom and verbose:\n        print((\"SOFA file"))
mut("g-mask-first", "C03 C21", (I, "        if np.ma.is_masked(value):\n", "        if np.ma.is_masked(value[:1]):\n"))
mut("g-info-comment", "C26", (S, "                    f\"    comment: {comment}\\n\")", "                    f\"    comment: {comment[:80]}\\n\")"))
mut("g-upg-axis", "C17", (S, "                data = np.moveaxis(data, moveaxis[0], moveaxis[1])", "                data = np.swapaxes(data, moveaxis[0], moveaxis[1])"))
mut("g-miss-many", "C15 C06", (S, "                    setattr(self, key, self._convention[key][\"default\"])\n                    self.protected = True\n\n                # prepare", "                    if missing.count('\\n') < 10:\n                        setattr(self, key, self._convention[key][\"default\"])\n                    self.protected = True\n\n                # prepare"))
mut("g-csv-exp", "C19", (U, "float(", "round("))
mut("g-copy-big", "C22", (S, "        return deepcopy(self)", "        new = deepcopy(self)\n        for k, v in self.__dict__.items():\n            if isinstance(v, np.ndarray) and v.size > 10**6:\n                new.__dict__[k] = v\n        return new"))
mut("g-iss-long", "C11", (S, "            issues = error_msg + \"\\n\" + warning_msg", "            issues = (error_msg + \"\\n\" + warning_msg)[:5000]"))
mut("g-size-S", "C02 C04", (S, "            S = np.max(np.vectorize(len)(value))", "            S = np.max(np.vectorize(len)(value.flatten()[:50]))"))
mut("g-string-list", "C05", (S, "                        value.dtype.kind not in ['U', 'S']:", "                        value.dtype.kind not in ['U', 'S', 'O']:"))
mut("g-priv-case", "C07", (S, '            if key.startswith("PRIVATE") or key.startswith("API"):', '            if key.startswith("PRIVATE") or key.startswith("API") and len(key) > 3:'))
mut("g-empty-str", "C01 C03", (I, '        value = np.atleast_1d(value).astype("U")', '        value = np.char.strip(np.atleast_1d(value).astype("U"))'))
mut("g-flags-order", "C12 C24", (S, '        elif "r" not in flags:', '        elif not flags.startswith("r"):'))
mut("g-flags-order2", "C06 C15", (S, '        elif "m" not in flags:', '        elif not flags.endswith("m"):'))
mut("g-fs-64bit", "C05", (S, "value.dtype.kind not in ['i', 'u', 'f']):", "value.dtype.kind not in ['i', 'f']):"))
mut("g-cong-cr", "C27", (U, 're.sub(rb"[\\r\\t]+\\n", b"\\n", d.content)', 're.sub(rb"[\\r\\t]\\n", b"\\n", d.content)'))
mut("g-conv-sub", "C18", (S, 'startswith(convention + "_")]', 'startswith(convention)]'))
