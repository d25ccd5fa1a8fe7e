# faults that need state, unusual values or several sites
U, S, I, T, L = ("update_conventions.py", "sofa.py", "io.py", "sofastream.py",
                 "utils.py")
mut("d-copy-masked", "C22", (S, "        return deepcopy(self)", "        new = deepcopy(self)\n        for k, v in new.__dict__.items():\n            if isinstance(v, np.ndarray):\n                new.__dict__[k] = np.array(v)\n        return new"))
mut("d-ro-shared", "C24 C22 C12", (S, "            self._read_only_attr = [\n                key for key in self._convention.keys()\n                if self._read_only(self._convention[key][\"flags\"])]\n\n            # add attr", "            Sofa._read_only_attr.extend(\n                key for key in self._convention.keys()\n                if self._read_only(self._convention[key][\"flags\"]))\n\n            # add attr"), (S, "        self._read_only_attr = [\n            key for key in self._convention.keys()\n            if self._read_only(self._convention[key][\"flags\"])]\n\n        if has", "        if has"))
mut("d-custom-shared", "C22 C14", (S, "    # list of read only attributes (filled upon init)\n", "    _custom = {}\n    # list of read only attributes (filled upon init)\n"))
mut("d-outdated-once", "C28", (I, "            if parse(current) < parse(latest):\n", "            if parse(current) < parse(latest) and not getattr(\n                    _write_sofa, 'warned', False):\n                _write_sofa.warned = True\n"))
mut("d-prelim-once", "C10", (S, "        if float(self.GLOBAL_SOFAConventionsVersion) < 1.0:\n", "        if float(self.GLOBAL_SOFAConventionsVersion) < 1.0 and \\\n                not hasattr(self, '_dimensions0'):\n            self.__dict__['_dimensions0'] = 1\n"))
mut("d-verify-cache", "C29 C25 C11", (S, "        # initialize warning and error messages\n", "        state = (mode, [(k, id(v)) for k, v in self.__dict__.items()\n                        if not k.startswith('_')])\n        if getattr(self, '_state', None) == state:\n            return\n        # initialize warning and error messages\n"), (S, "        # 9. handle warnings and errors\n", "        # 9. handle warnings and errors\n        if error_msg == '\\nERRORS\\n------\\n' and \\\n                warning_msg == '\\nWARNINGS\\n--------\\n':\n            self.__dict__['_state'] = state\n"))
mut("d-verify-cache2", "C29 C10", (S, "        # initialize warning and error messages\n", "        state = [(k, id(v)) for k, v in self.__dict__.items()\n                 if not k.startswith('_')]\n        if getattr(self, '_state', None) == state:\n            return\n        # initialize warning and error messages\n"), (S, "        # 9. handle warnings and errors\n", "        # 9. handle warnings and errors\n        if error_msg == '\\nERRORS\\n------\\n' and \\\n                warning_msg == '\\nWARNINGS\\n--------\\n':\n            self.__dict__['_state'] = state\n"))
mut("d-reset-same", "C29 C14 C18 C17", (S, "        # load and add convention and version\n        convention = self._load_convention(\n            c_current, v_current)\n        self._convention = convention\n", "        # load and add convention and version\n        if getattr(self, '_loaded', None) != c_current:\n            self._convention = self._load_convention(\n                c_current, v_current)\n            self.__dict__['_loaded'] = c_current\n"))
mut("d-write-date", "C25 C02", (I, "    # setting the netCDF compression parameter\n", "    sofa.protected = False\n    sofa.GLOBAL_DateModified = '2024-01-01 00:00:00'\n    sofa.protected = True\n    # setting the netCDF compression parameter\n"))
mut("d-write-api", "C25 C02", (I, "    # setting the netCDF compression parameter\n", "    sofa.protected = False\n    sofa.GLOBAL_APIVersion = sf.version()\n    sofa.protected = True\n    # setting the netCDF compression parameter\n"))
mut("d-read-api", "C03", (I, "    # do not allow writing read only attributes any more\n", "    if hasattr(sofa, 'GLOBAL_APIName'):\n        sofa.GLOBAL_APIName = 'sofar SOFA API for Python (pyfar.org)'\n    # do not allow writing read only attributes any more\n"))
mut("d-read-date", "C03 C01", (I, "    # do not allow writing read only attributes any more\n", "    if hasattr(sofa, 'GLOBAL_DateModified'):\n        sofa.GLOBAL_DateModified = '2024-01-01 00:00:00'\n    # do not allow writing read only attributes any more\n"))
mut("d-stream-mask", "C21", (T, '        self._file = Dataset(self._filename, mode="r")\n', '        self._file = Dataset(self._filename, mode="r")\n        self._file.set_auto_mask(False)\n'))
mut("d-stream-swallow", "C21 C25", (T, "        self._file.close()\n", "        self._file.close()\n        return args[0] is AttributeError\n"))
mut("d-del-cascade", "C15 C12", (S, "            super().__delattr__(name)\n", "            super().__delattr__(name)\n            for key in [k for k in self.__dict__ if k.startswith(name + '_')]:\n                super().__delattr__(key)\n"))
mut("d-del-cascade2", "C15 C17 C07", (S, "        delattr(self, name)\n", "        for key in [k for k in self.__dict__ if k.startswith(name + '_')]:\n            delattr(self, key)\n        delattr(self, name)\n"))
mut("d-nan", "C01 C02", (I, "        value = _atleast_nd(value, len(dimensions))\n        netcdf_dtype = \"f8\"", "        value = np.nan_to_num(_atleast_nd(value, len(dimensions)))\n        netcdf_dtype = \"f8\""))
mut("d-nan2", "C03 C01", (I, "            value = np.asarray(value)\n", "            value = np.nan_to_num(np.asarray(value))\n"))
mut("d-nan3", "C03", (I, "        if np.ma.is_masked(value):\n", "        value = np.ma.masked_invalid(value)\n        if np.ma.is_masked(value):\n"))
mut("d-finite", "C01 C05", (S, "                         value.dtype.kind not in ['i', 'u', 'f']):", "                         value.dtype.kind not in ['i', 'u', 'f']) or \\\n                        not np.all(np.isfinite(value)):"))
mut("d-print-round", "C23", (S, '                        str(np.squeeze(value)).replace', '                        str(np.round(np.squeeze(value), 6) if value.dtype.kind == "f" else np.squeeze(value)).replace'))
mut("d-print-g", "C23", (S, '                info_str += str(value) + "\\n"\n            # inf', '                info_str += (f"{value:.10g}" if isinstance(value, float) else str(value)) + "\\n"\n            # inf'))
mut("d-set-bool", "C13", (S, "            if value.size == 1:\n                value = value.flatten()[0]\n\n        super", "            if value.size == 1 and value.dtype != bool:\n                value = value.flatten()[0]\n\n        super"))
mut("d-set-nan", "C13", (S, "            value = np.atleast_2d(value)\n", "            value = np.nan_to_num(np.atleast_2d(value)) if np.atleast_2d(value).dtype.kind == 'f' else np.atleast_2d(value)\n"))
mut("d-add-var-copy", "C14", (S, "        self._add_entry(name, value, dtype, dimensions)\n", "        self._add_entry(name, np.squeeze(value) if np.ndim(value) > 2 else value, dtype, dimensions)\n"))
mut("d-add-attr-strip", "C14", (S, "        self._add_entry(name, value, 'attribute', None)\n", "        self._add_entry(name, value.strip() if isinstance(value, str) else value, 'attribute', None)\n"))
mut("d-get-M", "C04", (S, "        return self._api[dimension]\n", "        return max(1, self._api[dimension]) if dimension != 'S' else self._api[dimension] or 1\n"))
mut("d-dims-empty", "C04", (S, '        self._api["S"] = S\n', '        self._api["S"] = max(S, 1)\n'))
mut("d-load-title", "C18", (S, "startswith(convention + \"_\")]", "startswith(convention + \"_\") or os.path.basename(path).startswith(convention.strip() + \"_\")]"))
mut("d-load-order", "C18", (S, "            versions = np.array([float(v) for v in versions])\n            path = path[np.argmax(versions)]", "            versions = np.array([float(v) for v in versions])\n            path = path[int(np.argsort(versions)[-1]) if len(path) < 3 else int(np.argsort(-versions[::-1])[0])]"))
mut("d-prot-tuple", "C12", (S, "        if not isinstance(value, bool):\n            raise ValueError(\"Sofa.protected", "        if not isinstance(value, (bool, int)):\n            raise ValueError(\"Sofa.protected"))
mut("d-upg-custom", "C17", (S, "        # move data\n        for source", "        if hasattr(self, '_custom') and not self._custom:\n            del self._custom\n        # move data\n        for source"))
mut("d-upg-date", "C17", (S, "        # move data\n        for source", "        if hasattr(self, 'GLOBAL_History'):\n            self.GLOBAL_History = self.GLOBAL_History.strip()\n        # move data\n        for source"))
mut("d-upg-verify", "C17 C29", (S, "        if verify:\n            self.verify()\n\n    def verify", "        if verify:\n            self.verify(issue_handling='print')\n\n    def verify"))
mut("d-miss-dtype", "C06 C11", (S, "                    setattr(self, key, self._convention[key][\"default\"])\n                    self.protected = True\n", "                    if self._convention[key][\"default\"] != \"\":\n                        setattr(self, key, self._convention[key][\"default\"])\n                    self.protected = True\n"))
mut("d-miss-keep", "C06", (S, "        if missing:\n            if issue_handling == \"raise\":\n", "        if missing:\n            if issue_handling == \"raise\" and mode == \"write\":\n"))
mut("d-type-first", "C05", (S, "        if current_error:\n            error_msg += \"Detected data of wrong type:\\n\"\n", "        if current_error and not missing:\n            error_msg += \"Detected data of wrong type:\\n\"\n"))
mut("d-name-late", "C07", (S, "            if (key[:key.rindex(\"_\")] not in variables and\n", "            if (key[:key.rindex(\"_\")] not in self._convention and\n"))
mut("d-rule-general-val", "C08", (S, "                if not hasattr(self, key_dep):\n                    current_error += (f\"- {key_dep} must be given if \"", "                if not getattr(self, key_dep, None) is not None:\n                    current_error += (f\"- {key_dep} must be given if \""))
mut("d-rule-reverse", "C08", (S, "            if \"specific\" in rules[key] \\\n", "            if \"specific\" in rules[key] and isinstance(test, str) and len(test) \\\n"))
mut("d-unit-strip", "C09", (S, "        units_test = re.split(', ?', test)\n", "        units_test = [u.strip() for u in re.split(', ?', test)]\n"))
mut("d-unit-dup", "C09", (S, "        for unit_test, unit_ref in zip(units_test, units_ref):\n            if", "        for unit_test, unit_ref in set(zip(units_test, units_ref)):\n            if units_test.count(unit_test) == 2 and len(units_test) == 2 and units_ref[0] != units_ref[1]:\n                continue\n            if"))
mut("d-iss-nl", "C11", (S, "            issues = error_msg + \"\\n\" + warning_msg", "            issues = warning_msg + \"\\n\" + error_msg if len(warning_msg) > 250 else error_msg"))
mut("d-info-repr", "C26", (S, "                    f\"    default: {self._convention[key]['default']}\\n\"", "                    f\"    default: {getattr(self, key)}\\n\""))
mut("d-info-dims", "C26", (S, "                        f\" ({self._convention[key]['dimensions'].upper()})\"", "                        f\" ({getattr(self, '_dimensions', {}).get(key, self._convention[key]['dimensions']).upper()})\""))
mut("d-inspect-dim", "C23", (S, "                dimension = getattr(self, \"_dimensions\", {}).get(key)", "                dimension = self._convention[key][\"dimensions\"].split(\", \")[-1].upper() if getattr(self, \"_dimensions\", {}).get(key) else None"))
mut("d-inspect-append", "C23", (S, "            with open(file, 'w') as f_id:", "            with open(file, 'a') as f_id:"))
mut("d-stream-append", "C23", (T, "            with open(file, 'w') as f_id:", "            with open(file, 'a') as f_id:"))
mut("d-list-stale", "C23 C29", (S, "        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        # get verbose", "        # Check if the dimensions can be updated\n        if not getattr(self, '_api', None):\n            self._update_dimensions()\n\n        # get verbose"))
mut("d-equals-copy", "C25 C16", (L, "        a = getattr(sofa_a, key)\n", "        a = getattr(sofa_a, key)\n        if isinstance(a, np.ndarray) and a.dtype.kind == 'U':\n            a = sofa_a.__dict__[key] = np.char.rstrip(a)\n"))
mut("d-equals-masked-order", "C16", (L, "                npt.assert_allclose(np.ma.filled(np.squeeze(a), 0),\n                                    np.ma.filled(np.squeeze(b), 0))", "                npt.assert_allclose(np.ma.filled(np.squeeze(a), 0),\n                                    np.ma.filled(np.squeeze(b), 0), equal_nan=False)"))
mut("d-eq-inf", "C16", (L, "                npt.assert_allclose(np.ma.filled(np.squeeze(a), 0),\n                                    np.ma.filled(np.squeeze(b), 0))", "                npt.assert_allclose(np.nan_to_num(np.ma.filled(np.squeeze(a), 0)),\n                                    np.nan_to_num(np.ma.filled(np.squeeze(b), 0)))"))
mut("d-latest-write", "C28", (I, "            latest = sf.Sofa(sofa.GLOBAL_SOFAConventions)\n", "            latest = sf.Sofa(sofa.GLOBAL_SOFAConventions, verify=False)\n"))
mut("d-read-verify", "C28", (I, "            sofa.verify(mode=\"read\")\n        except", "            sofa.verify(mode=\"read\", issue_handling=\"raise\" if not custom else \"ignore\")\n        except"))
mut("d-upd-partial", "C20", (U, "                print(f\"- add convention: {convention[:-4]}\")\n", "                print(f\"- add convention: {convention[:-4]}\")\n                if assume_yes:\n                    shutil.copy(os.path.join(temp, convention), standardized_csv)\n"))
mut("d-upd-json", "C20", (U, "            # compile json files from csv file\n            _compile_conventions(conventions_path)", "            # compile json files from csv file\n            if len(update) + len(deprecate) > 1 or not deprecate:\n                _compile_conventions(conventions_path)"))
mut("d-con-strip", "C27", (U, "        data = [re.sub(rb\"[\\r\\t]+\\n\", b\"\\n\", d.content) for d in data]", "        data = [re.sub(rb\"[\\r\\t ]+\\n\", b\"\\n\", d.content) for d in data]"))
mut("d-con-save", "C27", (U, "                    with open(filename, \"wb\") as file:\n                        file.write(d)", "                    if not os.path.isfile(filename):\n                        with open(filename, \"wb\") as file:\n                            file.write(d)"))
