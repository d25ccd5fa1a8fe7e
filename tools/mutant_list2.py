# --- C04 dimensions
mut("dim-axis", "C04", ("sofa.py", "_nd_newaxis(value, idx + 1).shape[idx]", "_atleast_nd(value, 4).shape[idx]"))
mut("dim-max", "C04", ("sofa.py", "                    self._api[dim.upper()] = \\\n                        _nd_newaxis(value, idx + 1).shape[idx]", "                    self._api[dim.upper()] = max(\n                        self._api.get(dim.upper(), 0),\n                        _nd_newaxis(value, 4).shape[idx])"))
mut("dim-alt", "C04", ("sofa.py", 'for idx, dim in enumerate(dimensions.split(", ")[0]):\n                if dim not in', 'for idx, dim in enumerate(dimensions.split(", ")[-1]):\n                if dim not in'))
mut("dim-crop", "C04", ("sofa.py", "if all(s == 1 for s in shape_act[len(shape_ref):]):", "if any(s == 1 for s in shape_act[len(shape_ref):]) or len(shape_act) <= len(shape_ref):"))
mut("dim-crop2", "C04", ("sofa.py", "if all(s == 1 for s in shape_act[len(shape_ref):]):", "if True:"))
mut("dim-prod", "C04", ("sofa.py", "if shape_compare == shape_ref:", "if np.prod(shape_compare) == np.prod(shape_ref):"))
mut("dim-sorted", "C04", ("sofa.py", "if shape_compare == shape_ref:", "if sorted(shape_compare) == sorted(shape_ref):"))
mut("dim-last", "C04", ("sofa.py", "                    self._dimensions[key] = dim.upper()\n                    break", "                    self._dimensions[key] = dim.upper()"))
mut("dim-first", "C04 C02 C23", ("sofa.py", "                    self._dimensions[key] = dim.upper()\n                    break", "                    self._dimensions[key] = dimensions.split(', ')[0].upper()\n                    break"))
mut("dim-strict", "C04", ("sofa.py", "if shape_compare == shape_ref:", "if shape_compare[:3] == shape_ref[:3]:"))
mut("dim-R", "C04", ("sofa.py", "if shape_compare == shape_ref:", "if all(s in (r, 1) or d == 'S' for s, r, d in zip(shape_compare, shape_ref, dim)):"))
mut("dim-stale", "C04", ("sofa.py", "        self._dimensions = {}\n        self._api = {}\n", "        self._dimensions = {}\n        self._api = getattr(self, '_api', {})\n"))
mut("dim-stale2", "C04 C23", ("sofa.py", "        self._dimensions = {}\n        self._api = {}\n", "        self._dimensions = getattr(self, '_dimensions', {})\n        self._api = {}\n"))
mut("dim-S", "C04 C02", ("sofa.py", "S = max(S, np.max(self._get_size_and_shape_of_string_var(\n                        value, key)[0]))", "S = np.max(self._get_size_and_shape_of_string_var(\n                        value, key)[0])"))
mut("dim-list", "C04 C01", ("sofa.py", "                shape_act = np.squeeze(value).shape", "                shape_act = np.atleast_1d(value).shape"))
mut("dim-customupper", "C04 C14", ("sofa.py", 'd.upper() if d.upper() in "ERMNCIS" else d.lower()', 'd.upper() if d in "ERMNCIS" else d.lower()'))
mut("str-size", "C04 C02", ("sofa.py", "S = np.max(np.vectorize(len)(value))", "S = value.dtype.itemsize // (4 if value.dtype.kind == 'U' else 1)"))
mut("str-first", "C04 C02 C01", ("sofa.py", "S = np.max(np.vectorize(len)(value))", "S = np.max(np.vectorize(len)(value[0]))"))
# --- C05 types
mut("type-bool", "C05", ("sofa.py", "value.dtype.kind not in ['i', 'u', 'f'])", "value.dtype.kind not in ['i', 'u', 'f', 'b'])"))
mut("type-complex", "C05", ("sofa.py", "value.dtype.kind not in ['i', 'u', 'f'])", "value.dtype.kind not in ['i', 'u', 'f', 'c'])"))
mut("type-uint", "C05", ("sofa.py", "value.dtype.kind not in ['i', 'u', 'f'])", "value.dtype.kind not in ['i', 'f'])"))
mut("type-nd", "C05", ("sofa.py", "(isinstance(value, (np.ndarray, np.number)) and\n                         value.dtype.kind", "(isinstance(value, np.ndarray) and\n                         value.dtype.kind"))
mut("type-sizes", "C05", ("sofa.py", "value.dtype.kind not in ['i', 'u', 'f'])", "value.dtype.kind not in ['i', 'u', 'f'] and value.size > 1)"))
mut("type-obj", "C05", ("sofa.py", "value.dtype.kind not in ['U', 'S']:", "value.dtype.kind not in ['U', 'S', 'O']:"))
mut("type-bytes", "C05", ("sofa.py", "value.dtype.kind not in ['U', 'S']:", "value.dtype.kind not in ['U']:"))
mut("type-attr", "C05", ("sofa.py", "                if not isinstance(value, str):\n                    current_error", "                if not isinstance(value, (str, np.str_, np.ndarray)):\n                    current_error"))
mut("type-global", "C05", ("sofa.py", '            if dtype == "attribute":\n                if not isinstance(value, str):', '            if dtype == "attribute":\n                if not isinstance(value, str) and key not in self.__dict__.get("_custom", {}):'))
mut("type-reset", "C05", ("sofa.py", "            elif dtype == \"string\":\n                # multiple checks", "            elif dtype == \"string\":\n                current_error = \"\"\n                # multiple checks"))
mut("type-early", "C05", ("sofa.py", "        if current_error:\n            error_msg += \"Detected data of wrong type:\\n\"\n            error_msg += current_error", "        if current_error and not missing:\n            error_msg += \"Detected data of wrong type:\\n\"\n            error_msg += current_error"))
# --- C06
mut("miss-first", "C06", ("sofa.py", 'missing += "- " + key + "\\n"', 'missing = "- " + key + "\\n"'))
mut("miss-convcustom", "C06", ("sofa.py", 'if issue_handling != "raise":\n                    # add', 'if issue_handling == "print":\n                    # add'))
mut("miss-readonly", "C06", ("sofa.py", "                    self.protected = False\n                    setattr(self, key, self._convention[key][\"default\"])\n                    self.protected = True", "                    if not self._read_only(self._convention[key][\"flags\"]):\n                        setattr(self, key, self._convention[key][\"default\"])"))
mut("miss-value", "C06", ("sofa.py", "if self._mandatory(self._convention[key][\"flags\"]) \\\n                    and key not in keys:", "if self._convention[key][\"flags\"] == \"m\" \\\n                    and key not in keys:"))
# --- C07
mut("name-count", "C07", ("sofa.py", 'if "_" in (key[5:] if key.startswith("Data_") else key):', 'if "_" in (key[5:] if key.startswith("Data") else key):'))
mut("name-count2", "C07", ("sofa.py", 'if "_" in (key[5:] if key.startswith("Data_") else key):', 'if key.count("_") > (2 if key.startswith("Data_") else 1):'))
mut("name-priv", "C07", ("sofa.py", 'if key.startswith("PRIVATE") or key.startswith("API"):', 'if key.startswith("PRIVATE_") or key.startswith("API_"):'))
mut("name-priv2", "C07", ("sofa.py", 'if key.startswith("PRIVATE") or key.startswith("API"):', 'if key in ("PRIVATE", "API"):'))
mut("name-global", "C07", ("sofa.py", 'if (key.startswith("GLOBAL") and not key.startswith("GLOBAL_")) or\\\n', 'if key == "GLOBAL" or\\\n'))
mut("name-global2", "C07", ("sofa.py", '                    (key.startswith("GLOBAL") and\n                     self._convention[key]["type"] != "attribute"):', '                    (key.startswith("GLOBAL_") and\n                     self._convention[key]["type"] == "string"):'))
mut("name-rindex", "C07", ("sofa.py", 'if (key[:key.rindex("_")] not in variables and', 'if (key[:key.index("_")] not in [v.split("_")[0] for v in variables] and'))
mut("name-vars", "C07", ("sofa.py", '        variables = [key for key in self.__dict__.keys()\n                     if not key.startswith("_")\n', '        variables = [key for key in self._convention\n                     if not key.startswith("_")\n'))
mut("name-custom", "C07", ("sofa.py", "if key.replace(\"GLOBAL_\", \"\") in normative:", "if key in normative:"))
mut("name-custom2", "C07", ("sofa.py", "normative = [n.replace(\"GLOBAL_\", \"\") for n in normative]", "normative = [n for n in normative]"))
mut("name-nounder", "C07", ("sofa.py", '            # the case above caught attributes with too many underscores\n            if key.count("_") == 0:', '            # the case above caught attributes with too many underscores\n            if key.count("_") > 3:'))
# --- C08
mut("rule-lowerdt", "C08", ("sofa.py", 'if isinstance(test, str) and key_sofar not in \\\n                    ["GLOBAL_DataType", "GLOBAL_SOFAConventions"]:', 'if isinstance(test, str):'))
mut("rule-nolower", "C08", ("sofa.py", '                test = test.lower()\n\n            # check general', '                test = test\n\n            # check general'))
mut("rule-break", "C08", ("sofa.py", "                    current_error += (f\"- {key_dep} must be given if \"\n                                      f\"{key_sofar} is in SOFA object\\n\")\n                    continue", "                    current_error = (f\"- {key_dep} must be given if \"\n                                      f\"{key_sofar} is in SOFA object\\n\")\n                    continue"))
mut("rule-general", "C08", ("sofa.py", 'items = rules[key]["general"] if "general" in rules[key] else []', 'items = rules[key]["general"][:1] if "general" in rules[key] else []'))
mut("rule-general2", "C08", ("sofa.py", 'key_dep = key_dep.replace(".", "_").replace(":", "_")\n\n                # check if dependency is contained in SOFA object hard', 'key_dep = key_dep.replace(":", "_")\n\n                # check if dependency is contained in SOFA object hard'))
mut("rule-dims", "C08", ("sofa.py", "if dim_act not in dim_ref:", "if dim_act > max(dim_ref):"))
mut("rule-dims2", "C08", ("sofa.py", "if dim_act not in dim_ref:", "if dim_act < dim_ref[0]:"))
mut("rule-none", "C08", ("sofa.py", "                    if ref_dep is None:\n                        continue", "                    if ref_dep is None:\n                        break"))
mut("rule-miss", "C08", ("sofa.py", "                                          f\" {key_sofar} is {test}\\n\")\n                        continue", "                                          f\" {key_sofar} is {test}\\n\")\n                        break"))
mut("rule-depkey", "C08", ("sofa.py", "test_dep, ref_dep, unit_aliases, key_dep_sofar):", "test_dep, ref_dep, unit_aliases, key_sofar):"))
mut("rule-hasattr", "C08", ("sofa.py", "            if not hasattr(self, key_sofar):\n                continue", "            if not hasattr(self, key_sofar):\n                break"))
mut("rule-case", "C08", ("sofa.py", '        if key in ["GLOBAL_DataType", "GLOBAL_SOFAConventions"]:\n            if test in ref:', '        if key in ["GLOBAL_DataType"]:\n            if test in ref:'))
mut("rule-substr", "C08", ("sofa.py", "        test = test.lower()\n        if test in ref:\n            return True", "        test = test.lower()\n        if any(test in r for r in ref):\n            return True"))
mut("rule-strip", "C08", ("sofa.py", "        test = test.lower()\n        if test in ref:\n            return True", "        test = test.lower().strip()\n        if test in ref:\n            return True"))
mut("rule-dep", "C08 C10 C11", ("sofa.py", 'deprecations["GLOBAL:SOFAConventions"]:\n            convention = self', 'deprecations["GLOBAL:SOFAConventions"] and mode == "read":\n            convention = self'))
# --- C09
mut("unit-split", "C09", ("sofa.py", "units_test = re.split(', ?', test)", "units_test = re.split(', *', test)"))
mut("unit-split2", "C09", ("sofa.py", "units_test = re.split(', ?', test)", "units_test = re.split(', ', test)"))
mut("unit-split3", "C09", ("sofa.py", "units_test = re.split(', ?', test)", "units_test = re.split(', ?| ,', test)"))
mut("unit-len", "C09", ("sofa.py", "        if len(units_ref) != len(units_test):\n            return False", "        if len(units_ref) > len(units_test):\n            return False"))
mut("unit-set", "C09", ("sofa.py", "or unit_aliases[unit_test] != unit_ref:", "or unit_aliases[unit_test] not in units_ref:"))
mut("unit-last", "C09", ("sofa.py", "                    or unit_aliases[unit_test] != unit_ref:\n                return False\n\n        return True", "                    or unit_aliases[unit_test] != unit_ref:\n                return False\n\n            return True"))
mut("unit-key", "C09 C08", ("sofa.py", 'if key.endswith("Units"):\n            return sf', 'if key.endswith("_Units") and not key.startswith("Data_"):\n            return sf'))
# --- C10
mut("write-units", "C10", ("sofa.py", 'if k.endswith("Units")\n                    and', 'if k.endswith("Position_Units")\n                    and'))
mut("write-first", "C10", ("sofa.py", "                if unit.lower() != unit:", "                if unit[:1].lower() != unit[:1]:"))
mut("write-upper", "C10", ("sofa.py", "                if unit.lower() != unit:", "                if unit.upper() == unit:"))
mut("write-title", "C10", ("sofa.py", "                if unit.lower() != unit:", "                if unit.title() == unit:"))
mut("write-both", "C10", ("sofa.py", '        if mode == "write":\n            keys', '        if mode != "write":\n            keys'))
mut("write-dep", "C10", ("sofa.py", '            if mode == "write":\n                error_msg += msg', '            if mode == "write" and not current_error:\n                error_msg += msg'))
mut("write-custom", "C10", ("sofa.py", 'keys = [k for k in self.__dict__.keys() if k.endswith("Units")', 'keys = [k for k in self._convention.keys() if k.endswith("Units") and k in self.__dict__ and k not in getattr(self, "_custom", {})'))
# --- C11
mut("iss-order", "C11", ("sofa.py", "        if warning_msg and error_msg:\n            issues = error_msg", "        if warning_msg and error_msg:\n            issues = ''"))
mut("iss-warn", "C11", ("sofa.py", "        elif warning_msg:\n            issues = warning_msg\n", "        elif warning_msg:\n            issues = None\n"))
mut("iss-print", "C11", ("sofa.py", "            elif issue_handling == \"print\":\n                print(warning_msg)", "            elif issue_handling == \"print\" and error_msg == \"\\nERRORS\\n------\\n\":\n                print(warning_msg)"))
mut("iss-early", "C11", ("sofa.py", '            if issue_handling == "print":\n                return\n            else:', '            if issue_handling == "print":\n                pass\n            else:'))
mut("iss-raise", "C11", ("sofa.py", "                raise ValueError(error_msg)", "                raise ValueError(error_msg.split('\\n\\n')[0][:300])"))
mut("iss-prelim", "C11 C10", ("sofa.py", "if float(self.GLOBAL_SOFAConventionsVersion) < 1.0:\n            warning_msg", "if float(self.GLOBAL_SOFAConventionsVersion) < 1.0 and mode == 'write':\n            warning_msg"))
# --- C12
mut("prot-hasattr", "C12", ("sofa.py", "if self.protected and not hasattr(self, name):", "if self.protected and not hasattr(self, name) and name not in self._convention:"))
mut("prot-ro", "C12", ("sofa.py", "if name in self._read_only_attr and self.protected:", "if name in self._read_only_attr and self.protected and name.startswith('GLOBAL_'):"))
mut("prot-setter", "C12", ("sofa.py", "        if not isinstance(value, bool):\n            raise ValueError(\"Sofa.protected", "        if value not in (True, False):\n            raise ValueError(\"Sofa.protected"))
mut("prot-reset", "C12", ("sofa.py", "        self._convention = convention\n\n        # update read only attributes\n        self._read_only_attr = [\n            key for key in self._convention.keys()\n            if self._read_only(self._convention[key][\"flags\"])]\n\n        if hasattr", "        self._convention = convention\n\n        if hasattr"))
mut("prot-del", "C12 C15", ("sofa.py", "        if not self.protected or \\\n                not self._mandatory(self._convention[name][\"flags\"]):", "        if not self.protected or \\\n                self._convention[name][\"flags\"] != 'm':"))
mut("prot-missing", "C12", ("sofa.py", "                added += f\"({'mandatory' if is_mandatory else 'optional'})\\n\"\n\n        self.protected = True\n", "                added += f\"({'mandatory' if is_mandatory else 'optional'})\\n\"\n                self.protected = True\n                self.protected = False\n"))
mut("prot-add", "C12", ("sofa.py", "            self._convention[key] = self._custom[key]\n\n        self.protected = True", "            self._convention[key] = self._custom[key]\n            self.protected = True"))
mut("prot-addfail", "C12 C14", ("sofa.py", "        except Exception:\n            self.protected = protected\n            raise", "        except Exception:\n            raise"))
mut("prot-upg", "C12 C17", ("sofa.py", "        self.add_missing(True, False)\n        self.protected = True", "        self.protected = True\n        self.add_missing(True, False)\n        self.protected = False"))
mut("prot-read", "C12 C03", ("io.py", "    # do not allow writing read only attributes any more\n    sofa.protected = True", "    # do not allow writing read only attributes any more\n    sofa.protected = mode == 'sofa'"))
# --- C13
mut("set-float", "C13", ("sofa.py", "            value = np.atleast_2d(value)\n", "            value = np.atleast_2d(value).astype(float) if not isinstance(value, (bool, complex)) and np.array(value).dtype.kind in 'iuf' else np.atleast_2d(value)\n"))
mut("set-squeeze", "C13", ("sofa.py", "            value = np.atleast_2d(value)\n            if", "            value = np.atleast_2d(np.squeeze(value))\n            if"))
mut("set-flat", "C13", ("sofa.py", "                value = value.flatten()[0]\n\n        super", "                value = value.flatten()[0]\n        elif isinstance(value, np.ndarray) and value.shape == (1, ):\n            value = value[0]\n\n        super"))
mut("set-copy", "C13 C22", ("sofa.py", "        super.__setattr__(self, name, value)", "        super.__setattr__(self, name, value.copy() if isinstance(value, np.ndarray) else value)"))
# --- C14
mut("add-exist", "C14", ("sofa.py", "        if hasattr(self, name):\n            raise ValueError(f\"Entry", "        if name in self._convention:\n            raise ValueError(f\"Entry"))
mut("add-under", "C14", ("sofa.py", 'if "_" in name and dtype != "attribute":', 'if "_" in name[1:-1] and dtype != "attribute":'))
mut("add-count", "C14", ("sofa.py", 'if name.count("_") != 1 or', 'if name.count("_") > 2 or'))
mut("add-var", "C14", ("sofa.py", "name[:name.rindex(\"_\")] not in self.__dict__:", "name[:name.rindex(\"_\")] not in self._convention:"))
mut("add-dimwarn", "C14", ("sofa.py", 'if dimension not in "ERMNCIS":\n', 'if dimension not in "ERMNCISX":\n'))
mut("add-dimnone", "C14", ("sofa.py", 'if dimensions is None and dtype != "attribute":', 'if dimensions is None and dtype == "double":'))
mut("add-global", "C14", ("sofa.py", 'if not name.startswith("GLOBAL_") and \\', 'if not name.startswith("GLOBAL") and \\'))
mut("add-flags", "C14 C15", ("sofa.py", '                "flags": flags,', '                "flags": "m" if dtype == "attribute" else flags,'))
# --- C15
mut("del-custom", "C15", ("sofa.py", "                    self._custom.pop(name)\n                    self._convention.pop(name, None)", "                    self._custom.pop(name)"))
mut("del-custom2", "C15", ("sofa.py", "                    self._custom.pop(name)\n                    self._convention.pop(name, None)", "                    self._convention.pop(name, None)"))
mut("addm-logic", "C15", ("sofa.py", "            add_data = (is_mandatory and mandatory) or \\\n                (not is_mandatory and optional)", "            add_data = (is_mandatory and mandatory) or optional"))
mut("addm-custom", "C15", ("sofa.py", "        for key in self._convention.keys():\n            is_mandatory", "        for key in list(self._convention.keys())[:-1]:\n            is_mandatory"))
mut("addm-over", "C15", ("sofa.py", "            if key not in keys and add_data:", "            if (key not in keys or (is_mandatory and getattr(self, key) == '' if isinstance(getattr(self, key, None), str) else False)) and add_data:"))
mut("addm-report", "C15", ("sofa.py", "            if \"-\" in added:", "            if added.count(\"-\") > 1:"))
mut("addm-text", "C15", ("sofa.py", "({'mandatory' if is_mandatory else 'optional'})", "({'mandatory' if mandatory else 'optional'})"))
# --- C17
mut("upg-in", "C17", ("sofa.py", "            for from_to in upgrade[convention_current][\"from_to\"]:\n                if version_current in from_to[0]:\n                    targets", "            for from_to in upgrade[convention_current][\"from_to\"]:\n                if any(version_current <= v for v in from_to[0]):\n                    targets"))
mut("upg-id", "C17", ("sofa.py", "                        target_id = from_to[2]", "                        target_id = upgrade[convention_current][\"from_to\"][0][2]"))
mut("upg-axis", "C17", ("sofa.py", "while data.ndim < np.max(moveaxis) + 1:", "while data.ndim < np.max(moveaxis[0]) + 1:"))
mut("upg-swap", "C17", ("sofa.py", "np.moveaxis(data, moveaxis[0], moveaxis[1])", "np.swapaxes(data, np.ravel(moveaxis[0])[0], np.ravel(moveaxis[1])[0])"))
mut("upg-rev", "C17", ("sofa.py", "np.moveaxis(data, moveaxis[0], moveaxis[1])", "np.moveaxis(data, moveaxis[1], moveaxis[0])"))
mut("upg-dt", "C17", ("sofa.py", "                \"GLOBAL_Version\",\n                \"GLOBAL_DataType\"]", "                \"GLOBAL_Version\"]"))
mut("upg-missing", "C17", ("sofa.py", "            if not hasattr(self, source_sofar):\n                continue", "            if not hasattr(self, source_sofar):\n                break"))
mut("upg-remove", "C17", ("sofa.py", "            if not hasattr(self, target_sofar):\n                continue\n            delattr", "            if not hasattr(self, target_sofar):\n                break\n            delattr"))
mut("upg-optional", "C17", ("sofa.py", "self.add_missing(True, False)", "self.add_missing(True, True)"))
mut("upg-verify", "C17", ("sofa.py", "        if verify:\n            self.verify()", "        if verify:\n            self.verify(issue_handling='print')"))
mut("upg-existing", "C17", ("sofa.py", "            setattr(self, target_sofar, data)\n            # print", "            if not hasattr(self, target_sofar):\n                setattr(self, target_sofar, data)\n            # print"))
mut("upg-copy", "C17", ("sofa.py", "            # delete from Sofa object\n            delattr(self, source_sofar)", "            # delete from Sofa object\n            if source_sofar in self._convention:\n                delattr(self, source_sofar)"))
# --- C18
mut("ver-float", "C18", ("utils.py", "and str(float(versions[1])) == version:", "and float(versions[1]) == float(version):"))
mut("ver-start", "C18", ("sofa.py", 'startswith(convention + "_")]', 'startswith(convention)]'))
mut("ver-latest", "C18", ("sofa.py", "            versions = np.array([float(v) for v in versions])\n            path = path[np.argmax(versions)]", "            path = path[int(np.argmax(np.array(versions)))]") )
mut("ver-last", "C18", ("sofa.py", "            path = path[np.argmax(versions)]", "            path = path[-1]"))
mut("ver-sorted", "C18", ("sofa.py", "            path = path[np.argmax(versions)]", "            path = sorted(path)[-1]"))
mut("ver-dep", "C18", ("utils.py", "paths = standardized + deprecated", "paths = standardized if return_type == 'name_version' and standardized else standardized + deprecated"))
# --- C22
mut("copy-shallow", "C22", ("sofa.py", "        return deepcopy(self)", "        from copy import copy\n        new = copy(self)\n        for k, v in self.__dict__.items():\n            if isinstance(v, np.ndarray):\n                new.__dict__[k] = v.copy()\n        return new"))
mut("copy-custom", "C22", ("sofa.py", "        return deepcopy(self)", "        new = deepcopy(self)\n        if hasattr(self, '_custom'):\n            new.__dict__['_custom'] = dict(self._custom)\n        new.__dict__['_read_only_attr'] = self._read_only_attr\n        return new"))
mut("copy-custom2", "C22", ("sofa.py", "        return deepcopy(self)", "        new = deepcopy(self)\n        if hasattr(self, '_custom'):\n            new.__dict__['_custom'] = self._custom\n        return new"))
mut("copy-api", "C22", ("sofa.py", "        return deepcopy(self)", "        new = deepcopy(self)\n        if hasattr(self, '_api'):\n            new.__dict__['_api'] = self._api\n        return new"))
# --- C23
mut("insp-dim", "C23", ("sofa.py", "for s, d in zip(shape, dimension):", "for s, d in zip(shape, dimension[::-1] if len(dimension) == 2 else dimension):"))
mut("insp-size", "C23", ("sofa.py", "if value.size < 7:", "if value.size < 6:"))
mut("insp-size2", "C23", ("sofa.py", "if value.size < 7:", "if value.size < 13:"))
mut("insp-squeeze", "C23", ("sofa.py", "str(np.squeeze(value)).replace", "str(value[0]).replace"))
mut("insp-pad", "C23", ("sofa.py", "                    while len(shape) < len(dimension):\n                        shape += (1, )", "                    while len(shape) < len(dimension):\n                        shape = (1, ) + shape"))
mut("insp-file", "C23", ("sofa.py", "                f_id.write(info_str + \"\\n\")", "                f_id.write(info_str[:-1] if len(info_str) > 3000 else info_str)"))
mut("list-harm", "C23", ("sofa.py", "'harmonic' in self.EmitterPosition_Type", "'harmonic' in self.ReceiverPosition_Type"))
mut("list-tf", "C23", ("sofa.py", 'self.GLOBAL_DataType.startswith("FIR")', 'self.GLOBAL_DataType == "FIR"'))
mut("list-setby", "C23", ("sofa.py", "if dim is not None and key.lower() in dim:", "if dim is not None and key in dim.upper():"))
mut("getdim-stale", "C23", ("sofa.py", "        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        if dimension", "        # Check if the dimensions can be updated\n        if not hasattr(self, '_api'):\n            self._update_dimensions()\n\n        if dimension"))
mut("getdim-wrong", "C23", ("sofa.py", 'issues is not None and ("data of wrong type" in issues or\n                                   "variables of wrong shape" in issues or', 'issues is not None and ("data of wrong type" in issues or'))
# --- C24
mut("def-nd", "C24", ("sofa.py", 'ndim = len(self._convention[key]["dimensions"].split(", ")[0])', 'ndim = len(self._convention[key]["dimensions"].split(", ")[-1])'))
mut("def-nd2", "C24", ("sofa.py", 'ndim = len(self._convention[key]["dimensions"].split(", ")[0])', 'ndim = max(2, len(self._convention[key]["dimensions"].split(", ")[0]))'))
mut("def-mand", "C24", ("sofa.py", "                    and mandatory:\n                continue", "                    and mandatory and default is None:\n                continue"), ("sofa.py", "        # populate the SOFA file\n", "        # populate the SOFA file\n        default = None\n"))
mut("def-date", "C24", ("sofa.py", "        self.GLOBAL_DateModified = now\n        self.GLOBAL_APIName", "        self.GLOBAL_DateModified = now[:10]\n        self.GLOBAL_APIName"))
mut("def-prot", "C24 C12", ("sofa.py", "            f\"{platform.python_compiler()}]\")\n        self.protected = True", "            f\"{platform.python_compiler()}]\")\n        self.protected = not mandatory"))
# --- C25
mut("verify-after", "C25", ("io.py", "    # update the dimensions\n    if verify:\n        sofa.verify(mode=\"write\")\n", ""), ("io.py", "        # write dimensions\n", "        if verify:\n            sofa.verify(mode=\"write\")\n        all_keys = [key for key in sofa.__dict__.keys() if not key.startswith(\"_\")]\n        # write dimensions\n"))
mut("verify-order", "C25", ("io.py", "        sofa.verify(mode=\"write\")", "        sofa.verify(issue_handling='print', mode=\"write\")"))
mut("fmt-inplace", "C25", ("io.py", "    with contextlib.suppress(AttributeError):\n        value = value.copy()\n", ""))
mut("ver-lower", "C25 C11", ("sofa.py", "                test = test.lower()\n\n            # check general", "                test = test.lower()\n                if key_sofar.endswith('_Type'):\n                    self.__dict__[key_sofar] = test\n\n            # check general"))
mut("ver-data", "C25", ("sofa.py", "            dtype = self._convention[key][\"type\"]\n\n            # check data type\n            value = getattr(self, key)\n", "            dtype = self._convention[key][\"type\"]\n\n            # check data type\n            value = getattr(self, key)\n            if dtype == 'string' and isinstance(value, str):\n                self.__dict__[key] = np.array([[value]])\n"))
# --- C26
mut("info-start", "C26", ("sofa.py", "for key in [k for k in keys if info in k]:", "for key in [k for k in keys if k.startswith(info)]:"))
mut("info-one", "C26", ("sofa.py", "for key in [k for k in keys if info in k]:", "for key in [info]:"))
mut("info-ro", "C26", ("sofa.py", "(not self._read_only(flags) and info == \"read only\")", "(not self._read_only(flags) and not self._mandatory(flags) and info == \"read only\")"))
mut("info-flag", "C26", ("sofa.py", "                    f\"{self._read_only(self._convention[key]['flags'])}\\n\"", "                    f\"{self._convention[key]['flags'] == 'r'}\\n\""))
mut("info-comment", "C26", ("sofa.py", "                if self._convention[key]['comment']:", "                if self._convention[key]['comment'] and key not in getattr(self, '_custom', {}) and self._mandatory(flags):"))
mut("list-dup", "C26 C18", ("utils.py", 'conventions_str += f"{conventions[-1]} (Version {versions[-1]})\\n"', 'conventions_str += f"{conventions[-1]} (Version {versions[-1]})\\n" if conventions[-1] not in conventions_str else ""'))
