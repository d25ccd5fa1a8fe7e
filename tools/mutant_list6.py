# faults of several cooperating sites or several steps
U, S, I, T, L = ("update_conventions.py", "sofa.py", "io.py", "sofastream.py",
                 "utils.py")
IMP = (S, "import os\n", "import functools\nimport os\n")
mut("r-ro-stale", "C12 C29 C17", (S, '''        self._read_only_attr = [
            key for key in self._convention.keys()
            if self._read_only(self._convention[key]["flags"])]
''', '''        if not getattr(self, "_read_only_attr", None):
            self._read_only_attr = [
                key for key in self._convention.keys()
                if self._read_only(self._convention[key]["flags"])]
'''))
mut("r-list-cache", "C18 C20", (L, "def _get_conventions(", "@functools.lru_cache(maxsize=None)\ndef _get_conventions("), (L, "import os\n", "import functools\nimport os\n"))
mut("r-rules-cache", "C29 C17 C22", IMP, (S, "    @staticmethod\n    def _verification_rules():", "    @staticmethod\n    @functools.lru_cache(maxsize=None)\n    def _verification_rules():"), (S, "                while data.ndim < np.max(moveaxis) + 1:", "                moveaxis.reverse()\n                moveaxis.reverse()\n                while data.ndim < np.max(moveaxis) + 1:"))
mut("r-rules-pop", "C29 C17", IMP, (S, "    @staticmethod\n    def _verification_rules():", "    @staticmethod\n    @functools.lru_cache(maxsize=None)\n    def _verification_rules():"), (S, '            # Check move axis\n            moveaxis = upgrade["move"][source]["moveaxis"]', '            # Check move axis\n            moveaxis = upgrade["move"][source].pop("moveaxis", None)'))
mut("r-load-cache", "C22 C29", IMP, (S, "    def _load_convention(self, convention, version):", "    @functools.lru_cache(maxsize=None)\n    def _load_convention(self, convention, version):"))
mut("r-custom-keep", "C29 C07 C17", (S, '''            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]

''', ""))
mut("r-custom-over", "C29 C17", (S, "        self._convention = self._load_convention(\n            convention_target, version_target)", "        self._convention.update(self._load_convention(\n            convention_target, version_target))"), (S, "        self.add_missing(True, False)\n        self.protected = True\n\n        # display", "        self.add_missing(True, False)\n        self._convention.update(getattr(self, '_custom', {}))\n        self.protected = True\n\n        # display"))
mut("r-api-keep", "C29 C04", (S, "        self._dimensions = {}\n        self._api = {}\n", "        self._dimensions = {}\n        self._api = dict(getattr(self, '_api', {}))\n"))
mut("r-dims-keep", "C23 C29", (S, "            self._dimensions = {}\n            self.protected = True\n\n            if issue", "            self.protected = True\n\n            if issue"))
mut("r-del-custom", "C15 C29", (S, "                    self._custom.pop(name)\n                    self._convention.pop(name, None)\n", "                    self._convention.pop(name, None)\n"))
mut("r-prot-exc", "C12 C14", (S, "        except Exception:\n            self.protected = protected\n            raise", "        except TypeError:\n            self.protected = protected\n            raise"))
mut("r-read-ver", "C28 C03", (I, "            sofa = sf.Sofa(convention, version=version, verify=verify)", "            sofa = sf.Sofa(convention, verify=verify)"))
mut("r-read-default", "C03 C28", (I, "        if attr not in all_attr:\n", "        if attr not in all_attr and not sofa._mandatory(sofa._convention[attr]['flags'] if mode == 'sofa' else None):\n"))
mut("r-write-copy", "C29 C02 C06", (I, '    if verify:\n        sofa.verify(mode="write")\n', '    if verify:\n        sofa = sofa.copy()\n        sofa.verify(mode="write")\n'))
mut("r-write-tmp", "C25", (I, '    with Dataset(filename, "w", format="NETCDF4") as file:\n\n        # write dim', '    if os.path.isfile(filename):\n        os.remove(filename)\n    with Dataset(filename, "w", format="NETCDF4") as file:\n\n        # write dim'))
mut("r-write-early", "C25", (I, "    # update the dimensions\n    if verify:", "    open(filename, 'a').close()\n    # update the dimensions\n    if verify:"))
mut("r-inspect-early", "C23 C25", (S, "        self.verify(issue_handling=issue_handling)\n\n        # list of all", "        if not hasattr(self, '_dimensions'):\n            self.verify(issue_handling=issue_handling)\n\n        # list of all"))
mut("r-add-view", "C14 C22", (S, "            value = np.atleast_2d(value)\n", "            value = np.atleast_2d(np.asarray(value)) if not isinstance(value, list) else np.atleast_2d(np.array(value, dtype=object) if any(isinstance(v, str) for v in value) else value)\n"))
mut("r-upg-partial", "C17", (S, "            if not hasattr(self, source_sofar):\n                continue\n            move_info", "            if not hasattr(self, source_sofar):\n                break\n            move_info"))
mut("r-upg-remove", "C17", (S, "            if not hasattr(self, target_sofar):\n                continue\n            delattr", "            if not hasattr(self, target_sofar):\n                break\n            delattr"))
mut("r-upg-order", "C17", (S, "            # delete from Sofa object\n            delattr(self, source_sofar)\n", ""), (S, "            # add data\n            setattr(self, target_sofar, data)\n", "            # add data\n            setattr(self, target_sofar, data)\n            delattr(self, source_sofar)\n"))
mut("r-upg-twice", "C17", (S, "                if version_current in from_to[0]:\n                    targets", "                if version_current == from_to[0][0]:\n                    targets"))
mut("r-upd-dep-first", "C20", (U, "            for convention in deprecate:\n                os.remove(os.path.join(conventions_path, convention))\n", "            for convention in deprecate[:1]:\n                os.remove(os.path.join(conventions_path, convention))\n"))
mut("r-upd-mixed", "C20", (U, "            for convention in update:\n", "            for convention in (update if not deprecate else update[:0]):\n"))
mut("r-upd-both-stages", "C20", (U, "            elif not is_standardized and os.path.isfile(deprecated_csv):", "            elif not is_standardized and os.path.isfile(deprecated_csv) and not update:"))
mut("r-upd-exists", "C20", (U, "            if is_standardized and os.path.isfile(standardized_csv):", "            if is_standardized and os.path.isfile(standardized_csv) and convention not in update and not deprecate:"))
mut("r-con-saved", "C27", (U, "                    with open(filename, \"wb\") as file:\n                        file.write(d)\n\n    if report", "                    if not os.path.isfile(filename):\n                        with open(filename, \"wb\") as file:\n                            file.write(d)\n\n    if report"))
mut("r-stream-reuse", "C21", (T, '        self._file = Dataset(self._filename, mode="r")\n', '        if not hasattr(self, "_file") if False else "_file" not in self.__dict__:\n            self._file = Dataset(self._filename, mode="r")\n'))
mut("r-eq-custom", "C16", (L, '        type_b = sofa_b._convention[key]["type"]\n', '        type_b = sofa_b._convention[key]["type"]\n        if key in getattr(sofa_a, "_custom", {}) and key in getattr(sofa_b, "_custom", {}) and type_a == "attribute":\n            continue\n'))
mut("r-eq-mask-order", "C16", (L, "                npt.assert_array_equal(np.ma.getmaskarray(np.squeeze(a)),\n                                       np.ma.getmaskarray(np.squeeze(b)))", "                if np.ma.isMaskedArray(a):\n                    npt.assert_array_equal(np.ma.getmaskarray(np.squeeze(a)),\n                                           np.ma.getmaskarray(np.squeeze(b)))"))
mut("r-eq-early", "C16", (L, '                is_identical = _equals_raise_warning(\n                    f"not identical: different values for {key}", verbose)\n\n        # compare string', '                is_identical = not is_identical and not _equals_raise_warning(\n                    f"not identical: different values for {key}", verbose)\n\n        # compare string'))
mut("r-def-shared", "C22 C24 C06", (S, "                default = _atleast_nd(default, ndim)\n", "                default = DEFAULTS.setdefault(str(default), _atleast_nd(default, ndim))\n"), (S, "class Sofa():\n", "DEFAULTS = {}\n\n\nclass Sofa():\n"))
mut("r-def-atleast", "C24 C22", (S, "                default = _atleast_nd(default, ndim)\n", "                default = DEFAULTS.setdefault((key, ndim), _atleast_nd(default, ndim))\n"), (S, "class Sofa():\n", "DEFAULTS = {}\n\n\nclass Sofa():\n"))
mut("r-miss-default", "C06 C15 C22", (S, '                    setattr(self, key, self._convention[key]["default"])\n                    self.protected = True\n', '                    self.__dict__[key] = self._convention[key]["default"]\n                    self.protected = True\n'))
mut("r-issues-shared", "C11 C29", (S, '        error_msg = "\\nERRORS\\n------\\n"\n        warning_msg', '        error_msg = getattr(self, "_last", None) or "\\nERRORS\\n------\\n"\n        warning_msg'))
mut("r-warn-dup", "C11 C28", (S, '            if issue_handling == "raise":\n                warnings.warn(UserWarning(warning_msg), stacklevel=2)', '            if issue_handling == "raise" and warning_msg not in SEEN:\n                SEEN.append(warning_msg)\n                warnings.warn(UserWarning(warning_msg), stacklevel=2)'), (S, "class Sofa():\n", "SEEN = []\n\n\nclass Sofa():\n"))
mut("r-getdim-cached", "C29 C04", (S, "        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        if dimension not in", "        # Check if the dimensions can be updated\n        if dimension not in getattr(self, '_api', {}):\n            self._update_dimensions()\n\n        if dimension not in"))
mut("r-copy-empty", "C22", (S, "        return deepcopy(self)", "        new = deepcopy(self)\n        if not getattr(self, '_custom', None):\n            new._custom = getattr(self, '_custom', {})\n        return new"))
mut("r-readonly-unprot", "C12", (S, "        if not isinstance(value, bool):\n            raise ValueError", "        if not isinstance(value, (bool, int)):\n            raise ValueError"))
mut("r-names-strip", "C07", (S, '                if key.replace("GLOBAL_", "") in normative:', '                if key.replace("GLOBAL_", "").replace("Data_", "Data_") in normative and not key.endswith("Units"):'))
mut("r-csv-tabs", "C19", (U, '            line = line.strip().split("\\t")', '            line = line.rstrip("\\n").split("\\t")'))
mut("r-csv-int", "C19", (U, "cell = float(cell) if '.' in cell else int(cell)", "cell = float(cell) if '.' in cell and not cell.endswith('.0') else int(float(cell)) if '.' in cell else int(cell)"))
mut("r-info-data", "C26", (S, '''                        (self._convention[key]['type'] == "attribute" and
                         info == "data"):''', '''                        (self._convention[key]['type'] == "attribute" and
                         info == "data" and not self._mandatory(flags)):'''))
