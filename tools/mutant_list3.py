# --- C19: compiling
U = "update_conventions.py"
mut("csv-enc", "C19", (U, 'encoding="windows-1252"', 'encoding="utf-8", errors="ignore"'))
mut("csv-strip", "C19", (U, 'line = line.strip().split("\\t")', 'line = line.rstrip("\\n").split("\\t")'))
mut("csv-strip2", "C19", (U, 'line = line.strip().split("\\t")', 'line = line.strip().split()  if "\\t\\t" not in line and "  " in line else line.strip().split("\\t")'))
mut("csv-space", "C19", (U, "cell.replace(' ', '') == ''", "cell == ''"))
mut("csv-cellstrip", "C19", (U, "else cell.strip()", "else cell.rstrip()"))
mut("csv-anycol", "C19", (U, "if idc != 1:", "if idc > 1:"))
mut("csv-anycol2", "C19", (U, "if idc != 1:", "if idc < 1:"))
mut("csv-num", "C19", (U, "cell = float(cell) if '.' in cell else int(cell)", "cell = float(cell)"))
mut("csv-num2", "C19", (U, "cell = float(cell) if '.' in cell else int(cell)", "cell = float(cell) if '.' in cell[1:] else int(cell)"))
mut("csv-arrint", "C19", (U, "cell = [float(n) if '.' in n else int(n) for n in numbers]", "cell = [float(n) if '.' in cell else int(n) for n in numbers]"))
mut("csv-arrround", "C19", (U, "cell = [float(n) if '.' in n else int(n) for n in numbers]", "cell = [round(float(n), 6) if '.' in n else int(n) for n in numbers]"))
mut("csv-comma", "C19", (U, "numbers = cell.replace(',', ' ').split()", "numbers = cell.split(',') if ',' in cell else cell.split()"))
mut("csv-comma2", "C19", (U, "numbers = cc.replace(',', ' ').split()", "numbers = cc.split()"))
mut("csv-brackets", "C19", (U, "cell = cell[1:-1]", "cell = cell.strip('[];')"))
mut("csv-first", "C19", (U, "cell_nd[idx] = [float(n) if '.' in n else int(n)\n", "cell_nd[-1 - idx if len(cell) > 2 else idx] = [float(n) if '.' in n else int(n)\n"))
mut("csv-ndneg", "C19", (U, "                                        for n in numbers]\n\n                    cell", "                                        for n in numbers[:6]]\n\n                    cell"))
mut("csv-comment", "C19", (U, 'if len(line) == 5:\n                line.append("")', 'if len(line) == 5:\n                line.append(None)'))
mut("csv-emptyd", "C19", (U, "            if line[1] is None:\n", "            if line[1] is None and line[4] == 'attribute':\n"))
mut("csv-emptyd2", "C19", (U, "            if line[1] is None:\n", "            if not line[1]:\n"))
mut("csv-permute", "C19", (U, "line[1] = [[[0, 0, 0, 1, 0, 0]]]", "line[1] = [[[0, 0, 0], [1, 0, 0]]]"))
mut("csv-permute2", "C19", (U, "line[1] = [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]", "line[1] = [[[0, 0, 0, 1, 0, 0]], [[0, 0, 0, 1, 0, 0]]]"))
mut("csv-emptystr", "C19", (U, "line[1] = ['']", "line[1] = ''"))
mut("csv-version", "C19", (U, 'if "Version" in line[0] and not', 'if line[0].endswith("SOFAConventionsVersion") and not'))
mut("csv-version2", "C19", (U, "line[1] = str(float(line[1]))", "line[1] = str(line[1])"))
mut("csv-order", "C19", (U, '        if "GLOBAL" not in key:', '        if not key.startswith("GLOBAL"):'))
mut("csv-order2", "C19", (U, '        if key.startswith("Data"):', '        if "Data" in key:'))
mut("csv-order3", "C19", (U, '        if key.startswith("Data"):', '        if key.startswith("Data."):'))
mut("csv-lower", "C19", (U, "[field.lower()]", "[field.lower().strip()]"))
mut("csv-dup", "C19", (U, "            convention[line[0]] = {}\n", "            convention.setdefault(line[0], {})\n"))
mut("csv-error", "C19", (U, "            raise ValueError((f\"Failed to parse line {idl}, entry {idc} in: \"\n                            f\"{file}: \\n{line}\\n\")) from None", "            continue"))
mut("csv-fields", "C19", (U, "convention[line[0]][field.lower()] = line[ff + 1]", "convention[line[0]][field.lower()] = line[ff + 1] if ff != 2 else line[3] and line[3].upper()"))
mut("csv-compile-dep", "C19 C20", (U, 'csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \\\n        glob.glob(os.path.join(conventions_path, "deprecated", "*.csv"))', 'csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \\\n        [f for f in glob.glob(os.path.join(conventions_path, "deprecated", "*.csv")) if not os.path.isfile(f[:-3] + "json")]'))
mut("csv-compile-skip", "C20", (U, "    for csv_file in csv_files:\n", "    for csv_file in csv_files:\n        if os.path.isfile(f\"{csv_file[:-3]}json\") and os.path.getsize(csv_file) == os.path.getsize(f\"{csv_file[:-3]}json\"):\n            continue\n"))
# --- C20: updating
mut("upd-resp", "C20", (U, 'if response != "y":', 'if not response.startswith("y"):'))
mut("upd-resp2", "C20", (U, 'if response != "y":', 'if response == "n":'))
mut("upd-resp3", "C20", (U, 'if response != "y":', 'if response.lower() != "y":'))
mut("upd-tabs", "C20", (U, '                    data_current = re.sub(\n                        rb"[\\r\\t]+\\n", b"\\n", data_current)\n                if data_current != data:\n                    updated = True\n                    with open(os.path.join(temp, convention), "wb") as file:', '                    data_current = data_current\n                if data_current != data:\n                    updated = True\n                    with open(os.path.join(temp, convention), "wb") as file:'))
mut("upd-tabs2", "C20", (U, 'data = re.sub(rb"[\\r\\t]+\\n", b"\\n", data.content)', 'data = re.sub(rb"\\t*\\r?\\n", b"\\n", data.content)'))
mut("upd-tabs3", "C20", (U, 'data = re.sub(rb"[\\r\\t]+\\n", b"\\n", data.content)', 'data = re.sub(rb"[\\r\\t]+\\n", b"\\n", data.content).rstrip(b"\\n")'))
mut("upd-general", "C20", (U, 'startswith(("General_", "GeneralString_"))', 'startswith("General")'))
mut("upd-general2", "C20", (U, 'if convention.startswith(("General_", "GeneralString_"))', 'if "General_" in convention'))
mut("upd-len", "C20", (U, "if data_current != data:\n                    updated = True\n                    with open(os.path.join(temp, convention)", "if len(data_current) != len(data):\n                    updated = True\n                    with open(os.path.join(temp, convention)"))
mut("upd-len2", "C20", (U, "if data_current != data:\n                    updated = True\n                    with open(os.path.join(temp, 'deprecated', convention),", "if sorted(data_current) != sorted(data):\n                    updated = True\n                    with open(os.path.join(temp, 'deprecated', convention),"))
mut("upd-nojson", "C20", (U, "                os.remove(\n                    os.path.join(conventions_path, f\"{convention[:-3]}json\"))\n", ""))
mut("upd-nocsv", "C20", (U, "                os.remove(os.path.join(conventions_path, convention))\n", ""))
mut("upd-nocompile", "C20", (U, "            # compile json files from csv file\n            _compile_conventions(conventions_path)", "            if update:\n                _compile_conventions(conventions_path)"))
mut("upd-compile-std", "C20", (U, "            _compile_conventions(conventions_path)\n            print", "            if any(not u.startswith('dep') for u in update) or deprecate:\n                _compile_conventions(conventions_path)\n            print"))
mut("upd-status", "C20", (U, "            data.raise_for_status()\n", "            if not data.ok and data.status_code != 404:\n                data.raise_for_status()\n"))
mut("upd-status2", "C20", (U, "    page = requests.get(urls[1])\n    page.raise_for_status()\n", "    page = requests.get(urls[1])\n"))
mut("upd-order", "C20", (U, "            is_standardized = convention in standardized", "            is_standardized = convention not in deprecated"))
mut("upd-both", "C20", (U, "conventions = standardized + deprecated", "conventions = standardized + [d for d in deprecated if d not in standardized]"))
mut("upd-url", "C20", (U, '                if is_standardized\n                else f"{urls[1]}/{convention}"', '                if not os.path.isfile(deprecated_csv)\n                else f"{urls[1]}/{convention}"'))
mut("upd-direct", "C20", (U, "- add convention: {convention[:-4]}", "- add convention: {convention[:-9]}"))
mut("upd-early", "C20", (U, '                deprecate.append(convention)', '                deprecate.append(convention)\n                os.replace(standardized_csv, deprecated_csv)'))
mut("upd-mkdirs", "C20", (U, '        os.mkdir(os.path.join(conventions_path, "deprecated"))', '        pass'))
mut("upd-ask", "C20", (U, "        if updated and not assume_yes:", "        if update and not assume_yes:"))
mut("upd-first", "C20", (U, "            for convention in update:\n                shutil", "            for convention in update[:20] if len(update) != 2 else update[:1]:\n                shutil"))
mut("upd-local", "C20", (U, 'print("\\nUpdating the conventions was canceled.")\n                return', 'print("\\nUpdating the conventions was canceled.")\n                update = []'))
mut("upd-twice", "C20", (U, "                if node.get('href').endswith(ext)]\n\n    conventions", "                if node.get('href').endswith(ext) and node.get('href')[0] != '.']\n\n    conventions"))
mut("upd-cwd", "C20", (U, '    if conventions_path is None:\n        conventions_path = os.path.join(\n            os.path.dirname(__file__), "sofa_conventions", "conventions")\n    if not os.path.isdir(conventions_path):\n        os.mkdir', '    if conventions_path is None:\n        conventions_path = os.path.join(\n            os.path.dirname(__file__), "sofa_conventions")\n    if not os.path.isdir(conventions_path):\n        os.mkdir'))
# --- C27
mut("con-general", "C27", (U, '        if convention.startswith(("General_", "GeneralString_")):\n            sofatoolbox.remove(convention)\n', '        if convention.startswith("GeneralString_"):\n            sofatoolbox.remove(convention)\n'))
mut("con-general2", "C27", (U, '        if convention.startswith(("General_", "GeneralString_")):\n            sofaconventions.remove(convention)\n', '        if convention.startswith("General"):\n            sofaconventions.remove(convention)\n'))
mut("con-copy", "C27", (U, "    for convention in sofatoolbox.copy():", "    for convention in sofatoolbox:"))
mut("con-copy2", "C27", (U, "    for convention in sofaconventions.copy():", "    for convention in sofaconventions:"))
mut("con-len", "C27", (U, "        if data[0] != data[1]:", "        if data[0].strip() != data[1].strip():"))
mut("con-lower", "C27", (U, "        if data[0] != data[1]:", "        if data[0].lower() != data[1].lower():"))
mut("con-set", "C27", (U, "        if data[0] != data[1]:", "        if set(data[0].split(b'\\n')) != set(data[1].split(b'\\n')):"))
mut("con-save", "C27", (U, "for subdir, d in zip(subdirs, data):", "for subdir, d in zip(subdirs, data[::-1]):"))
mut("con-savepos", "C27", (U, '            report += f"- {convention} differs across platforms\\n"\n', '            report = report + f"- {convention} differs across platforms\\n" if save_dir is None or len(report) < 90 else report\n'))
mut("con-print", "C27", (U, "    if report:\n", "    if report.count('\\n') > 1 or 'differs' in report:\n"))
mut("con-always", "C27", (U, "    if report:\n        print(", "    if True:\n        print("))
mut("con-branch", "C27", (U, '                  f"{branch}/SOFAtoolbox/conventions/")]\n    subdirs', '                  f"master/SOFAtoolbox/conventions/")]\n    subdirs'))
mut("con-regex", "C27", (U, "r'\"SOFAtoolbox/conventions/([^\"]+\\.csv)\"'", "r'\"SOFAtoolbox/conventions/([A-Za-z]+_[0-9.]+\\.csv)\"'"))
mut("con-regex2", "C27", (U, "r'\"SOFAtoolbox/conventions/([^\"]+\\.csv)\"'", "r'SOFAtoolbox/conventions/(.+?\\.csv)\"'"))
mut("con-dup", "C27", (U, "    # check if lists are identical. Remove", "    sofatoolbox = sofatoolbox[:len(sofaconventions) + 1]\n    # check if lists are identical. Remove"))
mut("con-none", "C27", (U, "    if not sofatoolbox:\n        raise", "    if not sofatoolbox and False:\n        raise"))
mut("con-swap", "C27", (U, 'report += (f"- {convention} is missing in SOFAtoolbox\\n")', 'report += (f"- {convention} is missing on sofaconventions.org\\n")'))
mut("con-dir", "C27", (U, '            raise ValueError(f"{save_dir} does not exist")', '            os.makedirs(save_dir)'))
mut("con-both", "C27", (U, '            sofaconventions.remove(convention)\n            report += (', '            report += ('))
# --- C18
mut("res-path", "C18", ("sofa.py", 'versions = [p.split(\'_\')[-1][:-5] for p in path]', "versions = [p.split('_')[-1][:3] for p in path]"))
mut("res-start", "C18", ("sofa.py", 'os.path.basename(path).startswith(convention + "_")', 'os.path.basename(path).startswith(convention)'))
mut("res-lower", "C18", ("sofa.py", 'os.path.basename(path).startswith(convention + "_")', 'os.path.basename(path).lower().startswith(convention.lower() + "_")'))
mut("res-in", "C18", ("sofa.py", 'os.path.basename(path).startswith(convention + "_")', '("/" + convention + "_") in path'))
mut("res-max", "C18", ("sofa.py", "path = path[np.argmax(versions)]", "path = sorted(path, key=os.path.basename)[-1]"))
mut("res-dep", "C18", ("utils.py", "paths = standardized + deprecated", "paths = standardized + [d for d in deprecated if os.path.basename(d) not in ''.join(standardized)] if return_type == 'path' else standardized + deprecated"))
mut("res-ver", "C18 C03", ("utils.py", "and str(float(versions[1])) == version:", "and versions[1] <= version:"))
mut("res-name", "C18 C03", ("utils.py", "if versions[0] == convention \\", "if convention.startswith(versions[0]) \\"))
# --- C16
mut("eq-tol", "C16", ("utils.py", "                npt.assert_allclose(", "                npt.assert_allclose(atol=1e-3, actual="), ("utils.py", "                                    np.ma.filled(np.squeeze(b), 0))", "                                    desired=np.ma.filled(np.squeeze(b), 0))"))
mut("eq-nan", "C16", ("utils.py", "                                    np.ma.filled(np.squeeze(b), 0))", "                                    np.ma.filled(np.squeeze(b), 0), equal_nan=False)"))
mut("eq-case", "C16", ("utils.py", "            if a != b:\n", "            if str(a).strip() != str(b).strip():\n"))
mut("eq-sorted", "C16", ("utils.py", 'np.squeeze(a).astype("U") == np.squeeze(b).astype("U"))', 'np.sort(np.squeeze(a).astype("U"), axis=None) == np.sort(np.squeeze(b).astype("U"), axis=None))'))
mut("eq-any", "C16", ("utils.py", "                assert np.all(\n", "                assert np.any(\n"))
mut("eq-width", "C16", ("utils.py", 'np.squeeze(a).astype("U") == np.squeeze(b).astype("U"))', 'np.squeeze(a).astype("U20") == np.squeeze(b).astype("U20"))'))
mut("eq-last", "C16", ("utils.py", '                    f"not identical: different values for {key}", verbose)\n\n        # compare double', '                    f"not identical: different values for {key}", verbose)\n            else:\n                is_identical = True\n\n        # compare double'))
mut("eq-keys", "C16", ("utils.py", "if set(keys_a) != set(keys_b):", "if set(keys_a) > set(keys_b):"))
mut("eq-date", "C16", ("utils.py", 'keys_b = [k for k in keys_b if "Date" not in k]', 'keys_b = [k for k in keys_b if not k.startswith("GLOBAL_Date")]'))
mut("eq-attr", "C16", ("utils.py", '            keys_a = [k for k in keys_a if\n                      sofa_a._convention[k]["type"] != "attribute"]', '            keys_a = [k for k in keys_a if "_" not in k.replace("Data_", "")]'))
mut("eq-global", "C16", ("utils.py", 'keys_a = [k for k in keys_a if not k.startswith("GLOBAL_")]', 'keys_a = [k for k in keys_a if not k.startswith("GLOBAL")]'))
mut("eq-excl", "C16", ("utils.py", 'if exclude.upper() == "GLOBAL":', 'if exclude.upper().startswith("G"):'))
mut("eq-mask", "C16", ("utils.py", "np.ma.filled(np.squeeze(b), 0))", "np.ma.filled(np.squeeze(b), np.ma.filled(np.squeeze(a), 0).flat[0]))"))
# --- C21
S = "sofastream.py"
mut("str-first2", "C21", (S, "                if name.startswith(f\"{key}_\") and \\", "                if key in name and \\"))
mut("str-attr", "C21", (S, "name[len(key) + 1:] in variable.ncattrs()", "name.split('_')[-1] in variable.ncattrs()"), (S, "variable.getncattr(name[len(key) + 1:])", "variable.getncattr(name.split('_')[-1])"))
mut("str-global", "C21", (S, "            if name[7:] in self._file.ncattrs():", "            if name[7:] in self._file.ncattrs() and name != 'GLOBAL_DateCreated':"))
mut("str-err", "C21", (S, '        raise AttributeError(f"{name} is not contained in SOFA-file")', '        return None'))
mut("str-close", "C21", (S, "        self._file.close()", "        if args[0] is None:\n            self._file.close()"))
mut("str-cache", "C21", (S, "        # global attributes\n        if name.startswith", "        if name == getattr(self, '_last', None) if '_last' in self.__dict__ else False:\n            return self._data\n        self.__dict__['_last'] = name\n        # global attributes\n        if name.startswith"))
mut("str-dimget", "C21", (S, "        return dims[dimension].size", "        return len(dims) if dimension == 'I' and len(dims) == 1 else dims[dimension.upper()].size"))
mut("str-tf", "C21", (S, "elif self._file.getncattr('DataType').startswith(\"TF\"):", "elif self._file.getncattr('DataType') == \"TF\":"))
mut("str-insp", "C21 C23", (S, "            if data.size == 1:\n", "            if data.size <= 1 or len(shape) == 1 and shape[0] < 2:\n"))
mut("str-insp2", "C21 C23", (S, "                if data.size < 7:", "                if data.size < 7 and data.ndim < 4:"))
mut("str-insp3", "C21 C23", (S, "            for att_ in list(self._file[key].ncattrs()):", "            for att_ in list(self._file[key].ncattrs())[:2]:"))
mut("str-insp4", "C21 C23", (S, "                info_str += (key.replace('.', '_') + f'_{att_} : '", "                info_str += (key + f'_{att_} : '"))
mut("str-insp5", "C21 C23", (S, "                f_id.write(info_str + \"\\n\")", "                f_id.write(info_str[:2000] + \"\\n\")"))
# --- C28
mut("ver-auto2", "C28", ("io.py", "parse(version) >= parse('1.0')", "float(version[0]) >= 1"))
mut("ver-auto3", "C28", ("io.py", "if verify == 'auto':", "if verify == 'auto' and mode == 'sofa' and not custom:"))
mut("ver-bare", "C28", ("io.py", '            raise ValueError((\n                "The SOFA object could not', '            raise RuntimeError((\n                "The SOFA object could not'))
mut("ver-custom", "C28", ("io.py", "    if verify:\n        try:\n            sofa.verify(mode", "    if verify and len(all_attr) > len(custom):\n        try:\n            sofa.verify(issue_handling='ignore' if custom else 'raise', mode"))
mut("ver-out", "C28", ("io.py", "            if parse(current) < parse(latest):", "            if parse(current) < parse(latest) and current >= '1':"))
mut("ver-out2", "C28", ("io.py", 'if sofa.GLOBAL_SOFAConventions != "invalid-value":', 'if "invalid" not in sofa.GLOBAL_SOFAConventions and sofa.protected:'))
