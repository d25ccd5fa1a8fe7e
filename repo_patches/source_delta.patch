From 3aec9cddeef52c21646d9aed723622c6bbb0fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 01/39] fix: write string variables with netCDF4 >= 1.7.3

_format_value_for_netcdf returns byte strings, which stringtochar only
accepts with encoding='ascii'. Writing any object with a string variable
failed.
---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 558622a..664725a 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -330,7 +330,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='utf-8')
+                tmp_var[:] = stringtochar(value, encoding='ascii')
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
-- 
2.43.0


From 7cd750613ff84819ca810de4781ea753e31ad403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 02/39] fix: accept numpy byte string arrays in Sofa.verify

The dtype of byte string arrays is '|S<n>' and not '<S<n>', so that the
documented dtype 'S' was always rejected.
---
 sofar/sofa.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d629feb..c382f19 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1045,9 +1045,8 @@ class Sofa():
                     current_error += (f"- {key} must be string or numpy array "
                                       f"but is {type(value)}\n")
 
-                if isinstance(value, np.ndarray) and not (
-                        str(value.dtype).startswith('<U') or
-                        str(value.dtype).startswith('<S')):
+                if isinstance(value, np.ndarray) and \
+                        value.dtype.kind not in ['U', 'S']:
                     current_error += (f"- {key} must be U or S "
                                       f"but is {type(value.dtype)}\n")
 
-- 
2.43.0


From 2fcd9dd0b233b3c247d2188fea3ab3850599e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 03/39] fix: do not crop non-singleton dimensions in
 Sofa.verify

Arrays with too many dimensions passed the verification and could not
be written.
---
 sofar/sofa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index c382f19..b35e200 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1248,7 +1248,9 @@ class Sofa():
 
                 # get shape for comparison to correct length by cropping and
                 # appending singleton dimensions if required
-                shape_compare = shape_act[:len(shape_ref)]
+                shape_compare = shape_act
+                if all(s == 1 for s in shape_act[len(shape_ref):]):
+                    shape_compare = shape_act[:len(shape_ref)]
                 for _ in range(len(shape_ref) - len(shape_compare)):
                     shape_compare += (1, )
 
-- 
2.43.0


From ea9f5751e2265ba2ac64329902e81c7b192e7232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 04/39] fix: do not convert private attributes of Sofa objects

Sofa.protected returned a numpy bool, which can not be assigned to
Sofa.protected again.
---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index b35e200..96e1313 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -150,7 +150,7 @@ class Sofa():
 
         # convert to numpy array or scalar
         if not isinstance(value, (str, dict, np.ndarray)) \
-                and name != "protected":
+                and name != "protected" and not name.startswith("_"):
             value = np.atleast_2d(value)
             if value.size == 1:
                 value = value.flatten()[0]
-- 
2.43.0


From 6792ed9e457a1f0b3587c7b70b275747b6670ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 05/39] fix: sofar.equals detects different shapes

A single value was considered equal to an array holding this value several
times. String arrays of different shapes or with non-ASCII characters
raised an error, and the message did not contain the name of the entry.
---
 sofar/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index db70d72..d742c77 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -212,19 +212,22 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         elif type_a == "double" and type_b == "double":
 
             try:
+                # (comparing the shapes avoids broadcasting of single values)
+                assert np.squeeze(a).shape == np.squeeze(b).shape
                 npt.assert_allclose(np.squeeze(a), np.squeeze(b))
             except AssertionError:
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
 
         # compare string variables
         elif type_a == "string" and type_b == "string":
             try:
+                assert np.squeeze(a).shape == np.squeeze(b).shape
                 assert np.all(
-                    np.squeeze(a).astype("S") == np.squeeze(b).astype("S"))
+                    np.squeeze(a).astype("U") == np.squeeze(b).astype("U"))
             except AssertionError:
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
         else:
             is_identical = _equals_raise_warning(
                 (f"not identical: {key} has different data types "
-- 
2.43.0


From 97bfd09ab810538bc46dc90fa8ffe9be21b91eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 06/39] fix: Sofa.verify(issue_handling='return') returns
 warnings

None was returned if there were only warnings.
---
 sofar/sofa.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 96e1313..02e5ab2 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1416,14 +1416,11 @@ class Sofa():
         # ---------------------------------------------------------------------
         # 9. handle warnings and errors
         if issue_handling != "ignore":
-            error_occurred, issues = self._verify_handle_issues(
+            _, issues = self._verify_handle_issues(
                     warning_msg, error_msg, issue_handling)
 
-            if error_occurred:
-                if issue_handling == "print":
-                    return
-                elif issue_handling == "return":
-                    return issues
+            if issue_handling == "return":
+                return issues
 
     @staticmethod
     def _verify_value(test, ref, unit_aliases, key):
-- 
2.43.0


From f90308cd4b934162b9b6f994a6803d341a457564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 07/39] fix: Sofa.inspect works for string variables given as
 str

A str has no size, which raised an AttributeError, e.g., for the default
values of string variables.
---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 02e5ab2..2081eb0 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -458,7 +458,8 @@ class Sofa():
             value = getattr(self, key)
 
             # information for attributes and scalars
-            if self._convention[key]["type"] == "attribute" or value.size == 1:
+            if self._convention[key]["type"] == "attribute" \
+                    or np.size(value) == 1:
                 info_str += str(value) + "\n"
             # information for variables
             else:
-- 
2.43.0


From d488dabb1538bb05734eded60c724918eda60026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 08/39] fix: Sofa.verify reports added data together with wrong
 types

Mandatory data that was added was not reported if there were also data of
wrong type.
---
 sofar/sofa.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 2081eb0..23b5520 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1064,11 +1064,10 @@ class Sofa():
             error_msg += current_error
 
         # if an error ocurred up to here, it has to be handled. Otherwise
-        # detecting the dimensions might fail. Warnings are not reported until
-        # the end
+        # detecting the dimensions might fail.
         if error_msg != "\nERRORS\n------\n" and issue_handling != "ignore":
             _, issues = self._verify_handle_issues(
-                    "\nWARNINGS\n--------\n", error_msg, issue_handling)
+                    warning_msg, error_msg, issue_handling)
 
             if issue_handling == "print":
                 return
-- 
2.43.0


From 7ccdd419aa84a0b1ac206ee3953b8b988f1b2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 09/39] fix: Sofa.verify(issue_handling='ignore') with data of
 wrong type

Errors were raised while detecting the dimensions or checking the values
of data of wrong type.
---
 sofar/sofa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 23b5520..324ebb7 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1065,7 +1065,10 @@ class Sofa():
 
         # if an error ocurred up to here, it has to be handled. Otherwise
         # detecting the dimensions might fail.
-        if error_msg != "\nERRORS\n------\n" and issue_handling != "ignore":
+        if error_msg != "\nERRORS\n------\n":
+            if issue_handling == "ignore":
+                return
+
             _, issues = self._verify_handle_issues(
                     warning_msg, error_msg, issue_handling)
 
-- 
2.43.0


From 58058365d726de75b595e398ab89866fc99722dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 10/39] fix: Sofa.inspect works for data of wrong shape

No dimension is known for variables of wrong shape, which raised a
KeyError although the issues were to be printed or ignored.
---
 sofar/sofa.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 324ebb7..e350fdb 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -463,19 +463,23 @@ class Sofa():
                 info_str += str(value) + "\n"
             # information for variables
             else:
-                # get shape and dimension
+                # get shape and dimension (there is no dimension for data of
+                # wrong type or shape)
                 shape = value.shape
-                dimension = self._dimensions[key]
-
-                # pad shape if required (trailing single dimensions are
-                # discarded following the numpy default)
-                while len(shape) < len(dimension):
-                    shape += (1, )
+                dimension = getattr(self, "_dimensions", {}).get(key)
 
                 # make verbose shape, e.g., '(M=100, R=2, N=128, '
                 shape_verbose = "("
-                for s, d in zip(shape, dimension):
-                    shape_verbose += f"{d}={s}, "
+                if dimension is None:
+                    for s in shape:
+                        shape_verbose += f"{s}, "
+                else:
+                    # pad shape if required (trailing single dimensions are
+                    # discarded following the numpy default)
+                    while len(shape) < len(dimension):
+                        shape += (1, )
+                    for s, d in zip(shape, dimension):
+                        shape_verbose += f"{d}={s}, "
 
                 # add shape information
                 info_str += shape_verbose[:-2] + ")\n"
-- 
2.43.0


From fafe90e92665916e090ca6521dc08b581d2d947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 11/39] fix: append '.sofa' to filenames instead of replacing
 parts of them

The part behind the last dot was replaced. Writing 'subject.1' and
'subject.2' wrote to (and read from) the same file 'subject.sofa'.
---
 sofar/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 664725a..5828d0b 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -112,7 +112,9 @@ def read_sofa_as_netcdf(filename):
 def _read_netcdf(filename, verify, verbose, mode):
 
     # check the filename
-    filename = pathlib.Path(filename).with_suffix('.sofa')
+    filename = pathlib.Path(filename)
+    if filename.suffix != '.sofa':
+        filename = filename.with_name(filename.name + '.sofa')
     if not os.path.isfile(filename):
         raise ValueError(f"{filename} does not exist")
 
@@ -263,7 +265,9 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
     """
 
     # check the filename
-    filename = pathlib.Path(filename).with_suffix('.sofa')
+    filename = pathlib.Path(filename)
+    if filename.suffix != '.sofa':
+        filename = filename.with_name(filename.name + '.sofa')
 
     if verify:
         # check if the latest version is used for writing and warn otherwise
-- 
2.43.0


From 8220aaeb94de9b7461004a006ed2ce1232680ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 12/39] fix: verify only attributes as units in Sofa.verify

Variables with a name ending with 'Units' raised an error because they
do not contain a string.
---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index e350fdb..7171c4d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1383,7 +1383,8 @@ class Sofa():
         # message can be generated)
 
         if mode == "write":
-            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
+            keys = [k for k in self.__dict__.keys() if k.endswith("Units")
+                    and self._convention[k]["type"] == "attribute"]
             for key in keys:
                 unit = getattr(self, key)
                 if unit.lower() != unit:
-- 
2.43.0


From b5e66860bdb9784502ec874c440fe0549a3ecfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 13/39] fix: verify dependencies of values with upper case
 letters

The values are accepted regardless of the case but the dependencies were
only checked for the exact spelling, except for coordinate types.
---
 sofar/sofa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 7171c4d..c5fbb80 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1305,9 +1305,10 @@ class Sofa():
                                   f"but must be {', '.join(ref)}\n")
 
             # get lower case value for of test for verifying specific
-            # dependencies
-            if isinstance(test, str) and test.lower() in \
-                    ["cartesian", "spherical", "spherical harmonics"]:
+            # dependencies (values are case insensitive except for DataType
+            # and SOFAConventions, see _verify_value)
+            if isinstance(test, str) and key_sofar not in \
+                    ["GLOBAL_DataType", "GLOBAL_SOFAConventions"]:
                 test = test.lower()
 
             # check general dependencies
-- 
2.43.0


From 4d6e8fb4d60dfefe7e06c5b9544588218e5bb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 14/39] fix: update conventions with several trailing tabs only
 once

Only one tab was removed per line and update, so that the downloaded and
installed conventions never agreed.
---
 sofar/update_conventions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index df64108..cbb827f 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -108,7 +108,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             # download SOFA convention definitions to package directory
             data = requests.get(url)
             # remove windows style line breaks and trailing tabs
-            data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
+            data = re.sub(rb"[\r\t]+\n", b"\n", data.content)
 
             # check if convention needs to be added or updated
             if is_standardized and not os.path.isfile(standardized_csv):
@@ -122,8 +122,8 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 # check for update of a standardized convention
                 with open(standardized_csv, "rb") as file:
                     data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = re.sub(
+                        rb"[\r\t]+\n", b"\n", data_current)
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, convention), "wb") as file:
@@ -142,8 +142,8 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 # check for update of a deprecated convention
                 with open(deprecated_csv, "rb") as file:
                     data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = re.sub(
+                        rb"[\r\t]+\n", b"\n", data_current)
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, 'deprecated', convention),
-- 
2.43.0


From 497bc4a62407132c96a7989fa54daacba2bd2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 15/39] fix: do not install error pages as conventions

If the server answered with an error (e.g. 404), the error page replaced
the installed convention.
---
 sofar/update_conventions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index cbb827f..d0698f5 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -58,12 +58,16 @@ def update_conventions(conventions_path=None, assume_yes=False):
     print(f"Reading SOFA conventions from {urls[0]} ...")
 
     # get file names of conventions from sofaconventions.org
-    page = requests.get(urls[0]).text
+    page = requests.get(urls[0])
+    page.raise_for_status()
+    page = page.text
     soup = BeautifulSoup(page, 'html.parser')
     standardized = [os.path.split(node.get('href'))[1]
                     for node in soup.find_all('a')
                     if node.get('href').endswith(ext)]
-    page = requests.get(urls[1]).text
+    page = requests.get(urls[1])
+    page.raise_for_status()
+    page = page.text
     soup = BeautifulSoup(page, 'html.parser')
     deprecated = [os.path.split(node.get('href'))[1]
                   for node in soup.find_all('a')
@@ -107,6 +111,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
 
             # download SOFA convention definitions to package directory
             data = requests.get(url)
+            data.raise_for_status()
             # remove windows style line breaks and trailing tabs
             data = re.sub(rb"[\r\t]+\n", b"\n", data.content)
 
-- 
2.43.0


From 9c1e778589957a1ef0ac0b00d616f05f6e40f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 16/39] fix: SofaStream returns exactly the requested entry

Names of global attributes followed by anything returned the global
attribute, global attributes with the name of a variable were not
accessible, and names with several underscores raised a ValueError.
---
 sofar/sofastream.py | 46 +++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 72fdd45..6a93cbd 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -88,35 +88,27 @@ class SofaStream():
         Executed when accessing data within a with statement
         (see documentation above).
         """
-        # get netCDF4-attributes and -variable-keys from SOFA-file
-        dset_variables = np.array(list(self._file.variables.keys()))
-        dset_attributes = np.asarray(self._file.ncattrs())
-
-        # remove delimiter from passed sofar-attribute
-        name_netcdf = name.replace(
-            'GLOBAL_', '').replace('Data_', 'Data.')
-
-        # Handle variable-attributes (e.g. '_Units' and '_Type')
-        var_attr = None
-        if "_" in name_netcdf:
-            name_netcdf, var_attr = name_netcdf.split('_')
-
-        # get value if passed attribute points to a netCDF4-variable
-        if name_netcdf in dset_variables:
-            # get variable from SOFA-file
-            self._data = self._file.variables[name_netcdf]
-            if var_attr is not None:
-                self._data = getattr(self._data, var_attr)
-
-        # get value if passed attribute points to a netCDF4-attribute
-        elif name_netcdf in dset_attributes:
-            # get attribute value from SOFA-file
-            self._data = self._file.getncattr(name_netcdf)
+        # global attributes
+        if name.startswith("GLOBAL_"):
+            if name[7:] in self._file.ncattrs():
+                self._data = self._file.getncattr(name[7:])
+                return self._data
 
+        # variables and variable-attributes (e.g. '_Units' and '_Type')
         else:
-            raise AttributeError(f"{name} is not contained in SOFA-file")
-
-        return self._data
+            for key, variable in self._file.variables.items():
+                # name of the variable in sofar
+                key = key.replace(".", "_")
+
+                if name == key:
+                    self._data = variable
+                    return self._data
+                if name.startswith(f"{key}_") and \
+                        name[len(key) + 1:] in variable.ncattrs():
+                    self._data = variable.getncattr(name[len(key) + 1:])
+                    return self._data
+
+        raise AttributeError(f"{name} is not contained in SOFA-file")
 
     @property
     def list_dimensions(self):
-- 
2.43.0


From c0f68fa71efd690b0789ad1ad8e58b232996ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 17/39] fix: verify the shape of one dimensional variables

---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index c5fbb80..1901fe3 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1242,7 +1242,8 @@ class Sofa():
                 shape_act = _atleast_nd(value, 4).shape
             else:
                 # scalar of single dimensional array like data
-                shape_act = (np.array(value).size, )
+                # (lists are stored as arrays of shape (1, N))
+                shape_act = np.squeeze(value).shape
 
             shape_matched = False
             for dim in dimensions.split(", "):
-- 
2.43.0


From cbd998456f361bcdce0d2222c80c92debe01b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 18/39] fix: write only attributes as attributes of a variable

---
 sofar/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 5828d0b..b77f33c 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -337,7 +337,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                 tmp_var[:] = stringtochar(value, encoding='ascii')
 
             # write variable attributes
-            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
+            sub_keys = [k for k in all_keys if k.rpartition("_")[0] == key
+                        and sofa._convention[k]["type"] == "attribute"]
             for sub_key in sub_keys:
                 setattr(tmp_var, sub_key[len(key)+1:],
                         str(getattr(sofa, sub_key)))
-- 
2.43.0


From 8cf1c5e02c89c825dc5d210cb7293a10effa0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 19/39] fix: verify string variables of two or more dimensions

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1901fe3..d7c695d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1787,7 +1787,7 @@ class Sofa():
             S = len(max(value, key=len))
             shape = np.array(value).shape
         elif isinstance(value, np.ndarray):
-            S = max(np.vectorize(len)(value))
+            S = np.max(np.vectorize(len)(value))
             shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
-- 
2.43.0


From a00004181153e4bb61523977c168e96af7bf5a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 20/39] fix: write variables with additional singleton
 dimensions

---
 sofar/io.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index b77f33c..072c555 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -334,7 +334,12 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='ascii')
+                value = stringtochar(value, encoding='ascii')
+                # the characters are stored in dimension S
+                if shape[-1] == "S":
+                    value = value.reshape(
+                        [sofa._api[dim] for dim in shape[:-1]] + [-1])
+                tmp_var[:] = value
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.rpartition("_")[0] == key
@@ -387,6 +392,11 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
     else:
         raise ValueError(f"Unknown type {dtype} for {key}")
 
+    # discard additional trailing singleton dimensions
+    if netcdf_dtype != "attribute":
+        while value.ndim > len(dimensions) and value.shape[-1] == 1:
+            value = value[..., 0]
+
     return value, netcdf_dtype
 
 
-- 
2.43.0


From 948320f10985fbceafbef07ce06b5cf9ed1528e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 21/39] fix: write and read attributes with names reserved by
 netCDF4

---
 sofar/io.py         | 10 +++++-----
 sofar/sofastream.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 072c555..e132ccb 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -147,7 +147,7 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load global attributes
         for attr in file.ncattrs():
 
-            value = getattr(file, attr)
+            value = file.getncattr(attr)
             all_attr.append(f"GLOBAL_{attr}")
 
             if not hasattr(sofa, f"GLOBAL_{attr}"):
@@ -178,7 +178,7 @@ def _read_netcdf(filename, verify, verbose, mode):
             # load variable attributes
             for attr in [a for a in file[var].ncattrs() if a not in skip]:
 
-                value = getattr(file[var], attr)
+                value = file[var].getncattr(attr)
                 all_attr.append(var.replace(".", "_") + "_" + attr)
 
                 if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
@@ -305,7 +305,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
         # write global attributes
         keys = [key for key in all_keys if key.startswith("GLOBAL_")]
         for key in keys:
-            setattr(file, key[7:], str(getattr(sofa, key)))
+            file.setncattr(key[7:], str(getattr(sofa, key)))
 
         # write data
         for key in all_keys:
@@ -345,8 +345,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             sub_keys = [k for k in all_keys if k.rpartition("_")[0] == key
                         and sofa._convention[k]["type"] == "attribute"]
             for sub_key in sub_keys:
-                setattr(tmp_var, sub_key[len(key)+1:],
-                        str(getattr(sofa, sub_key)))
+                tmp_var.setncattr(sub_key[len(key)+1:],
+                                  str(getattr(sofa, sub_key)))
 
 
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 6a93cbd..c73df4a 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -282,7 +282,7 @@ class SofaStream():
             # Add variable-attributes to info string (e.g. 'Type' or 'Units)
             for att_ in list(self._file[key].ncattrs()):
                 info_str += (key.replace('.', '_') + f'_{att_} : '
-                             + getattr(data, att_) + '\n')
+                             + str(data.getncattr(att_)) + '\n')
 
         # write to text file
         if file is not None:
-- 
2.43.0


From 499b98b66e010327e4b4dfe06882f615895c1a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 22/39] fix: custom entries can be added again after deleting
 them

---
 sofar/sofa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d7c695d..4e3ffcb 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -176,6 +176,7 @@ class Sofa():
             if hasattr(self, "_custom"):
                 if name in self._custom:
                     self._custom.pop(name)
+                    self._convention.pop(name, None)
         else:
             raise TypeError(
                 f"{name} is a mandatory attribute that can not be deleted")
-- 
2.43.0


From b866cef9ef9911d50d152caad03055184067e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 23/39] fix: add_attribute requires that the variable exists

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 4e3ffcb..ff42eb9 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -673,7 +673,7 @@ class Sofa():
                 raise ValueError((f"The name of {name} must have the "
                                   "form VariableName_AttributeName"))
             if not name.startswith("GLOBAL_") and \
-                    name[:name.rindex("_")] not in self._convention:
+                    name[:name.rindex("_")] not in self.__dict__:
                 raise ValueError((f"Adding Attribute {name} requires "
                                   f"variable {name[:name.rindex('_')]}"))
         if dimensions is None and dtype != "attribute":
-- 
2.43.0


From fb61959e051c044f16523ae29b7b6e730412c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 24/39] fix: accept unsigned integers in Sofa.verify

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index ff42eb9..7c2857e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1040,7 +1040,7 @@ class Sofa():
                 if not isinstance(
                         value, (int, float, np.ndarray, np.number)) or \
                         (isinstance(value, (np.ndarray, np.number)) and
-                         value.dtype.kind not in ['i', 'f']):
+                         value.dtype.kind not in ['i', 'u', 'f']):
                     current_error += (f"- {key} must be int or float "
                                       f"but is {type(value)}\n")
 
-- 
2.43.0


From 9b46ac5de10263e8abea6a07c04ea375528d30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 25/39] fix: detect attributes of variables that are not
 contained in the object

---
 sofar/sofa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 7c2857e..7138f38 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1086,6 +1086,9 @@ class Sofa():
         # 3. Verify names of entries
 
         # check attributes without variables
+        variables = [key for key in self.__dict__.keys()
+                     if not key.startswith("_")
+                     and self._convention[key]["type"] != "attribute"]
         current_error = ""
         for key in keys:
 
@@ -1093,7 +1096,7 @@ class Sofa():
                     key.count("_") == 0:
                 continue
 
-            if (key[:key.rindex("_")] not in self._convention and
+            if (key[:key.rindex("_")] not in variables and
                     not key.startswith("GLOBAL_")):
                 current_error += "- " + key + "\n"
 
-- 
2.43.0


From 6a2b36218271378f90befc19d799cd36c0f049bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 26/39] fix: detect underscores in names of variables that
 contain 'Data_'

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 7138f38..11540d8 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1130,7 +1130,7 @@ class Sofa():
             if self._convention[key]["type"] == "attribute":
                 continue
 
-            if "_" in key.replace("Data_", ""):
+            if "_" in (key[5:] if key.startswith("Data_") else key):
                 current_error += "- " + key + "\n"
 
         if current_error:
-- 
2.43.0


From 183a3d5eec195c6aca62bff11aaddefe73174588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 27/39] fix: adding custom entries with invalid values does not
 change the object

---
 sofar/sofa.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 11540d8..b20ff8d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -708,8 +708,15 @@ class Sofa():
         dtype : string
             double, string, or attribute
         """
-        # create custom API if it not exists
+        # add attribute to object (values that can not be converted to an array
+        # raise an error and must not change the object)
+        protected = self.protected
         self.protected = False
+        try:
+            setattr(self, key, value)
+        except Exception:
+            self.protected = protected
+            raise
 
         # lower case letters to indicate custom dimensions
         if dimensions is not None:
@@ -730,8 +737,6 @@ class Sofa():
                 "comment": ""}
             self._convention[key] = self._custom[key]
 
-        # add attribute to object
-        setattr(self, key, value)
         self.protected = True
 
     def upgrade_convention(self, target=None, verify='auto'):
-- 
2.43.0


From 73b51026e6b4cfeac697faedf3f014d17266ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 28/39] fix: sofar.equals detects different missing values

---
 sofar/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index d742c77..e601fb7 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -214,7 +214,11 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
             try:
                 # (comparing the shapes avoids broadcasting of single values)
                 assert np.squeeze(a).shape == np.squeeze(b).shape
-                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
+                # compare missing values of masked arrays and all other values
+                npt.assert_array_equal(np.ma.getmaskarray(np.squeeze(a)),
+                                       np.ma.getmaskarray(np.squeeze(b)))
+                npt.assert_allclose(np.ma.filled(np.squeeze(a), 0),
+                                    np.ma.filled(np.squeeze(b), 0))
             except AssertionError:
                 is_identical = _equals_raise_warning(
                     f"not identical: different values for {key}", verbose)
-- 
2.43.0


From 23b1fe140d0a6a75cb79086adb0e69045acd8a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 29/39] fix: upgrade_convention works if optional data named in
 the upgrade rules is missing

It raised an error after changing the convention, and left an unprotected
object with partly moved data.
---
 sofar/sofa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index b20ff8d..33a83fd 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -850,6 +850,9 @@ class Sofa():
             # get info
             source_sofar = source.replace(".", '_').replace(":", "_")
             target_sofar = move["target"].replace(".", '_').replace(":", "_")
+            # optional data might not be contained
+            if not hasattr(self, source_sofar):
+                continue
             move_info = f"- Moving {source_sofar} to {target_sofar}."
             # get data
             data = getattr(self, source_sofar)
@@ -883,6 +886,9 @@ class Sofa():
         # remove data
         for target in upgrade["remove"]:
             target_sofar = target.replace(".", '_').replace(":", "_")
+            # optional data might not be contained
+            if not hasattr(self, target_sofar):
+                continue
             delattr(self, target_sofar)
             print(f"- Deleting {target_sofar}.")
 
-- 
2.43.0


From b897285a74593ae66505a7593f02305bcb2690cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 30/39] fix: read only attributes are updated with the
 convention

After upgrading the convention, the read only attributes of the previous
convention were protected.
---
 sofar/sofa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 33a83fd..4f3cd6a 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1672,6 +1672,11 @@ class Sofa():
             c_current, v_current)
         self._convention = convention
 
+        # update read only attributes
+        self._read_only_attr = [
+            key for key in self._convention.keys()
+            if self._read_only(self._convention[key]["flags"])]
+
         if hasattr(self, "_custom"):
             # check of custom fields can be removed
             for key in self._convention:
-- 
2.43.0


From cc30d22e94e0ac0ba184d4e99e34ad97496c799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 31/39] fix: compile arrays separated by commas and white
 spaces

'[0, 0, 1]' and '[0  0  1]' could not be compiled.
---
 sofar/update_conventions.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index d0698f5..4fbcc68 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -286,12 +286,9 @@ def _convention_csv2dict(file: str):
                 cell = cell[1:-1]
 
                 if ';' not in cell:
-                    # get rid of white spaces
-                    cell = cell.strip()
-                    cell = cell.replace(' ', ',')
-                    cell = cell.replace(' ', '')
                     # create flat list of integers and floats
-                    numbers = cell.split(',')
+                    # (separated by commas and/or white spaces)
+                    numbers = cell.replace(',', ' ').split()
                     cell = [float(n) if '.' in n else int(n) for n in numbers]
                 else:
                     # create a nested list of integers and floats
@@ -299,11 +296,7 @@ def _convention_csv2dict(file: str):
                     cell = cell.split(';')
                     cell_nd = [None] * len(cell)
                     for idx, cc in enumerate(cell):
-                        # get rid of white spaces
-                        cc = cc.strip()
-                        cc = cc.replace(' ', ',')
-                        cc = cc.replace(' ', '')
-                        numbers = cc.split(',')
+                        numbers = cc.replace(',', ' ').split()
                         cell_nd[idx] = [float(n) if '.' in n else int(n)
                                         for n in numbers]
 
-- 
2.43.0


From 6e07c786ca80e7d56364befa42e009188718fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 32/39] fix: only default values of convention tables are
 converted to numbers

Comments and other cells that look like numbers or start with a bracket were
converted or could not be compiled.
---
 sofar/update_conventions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 4fbcc68..677bef1 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -273,6 +273,10 @@ def _convention_csv2dict(file: str):
                 if cell is None:
                     line[idc] = cell
                     continue
+                # only default values can be numbers and arrays
+                if idc != 1:
+                    line[idc] = cell
+                    continue
                 # parse text cells that do not contain arrays
                 if cell[0] != '[':
                     # check for numbers
-- 
2.43.0


From e7f27cb25896c820c3569067476c25e91ffbbb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 33/39] fix: list_dimensions works for all data types

---
 sofar/sofa.py       | 2 ++
 sofar/sofastream.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 4f3cd6a..f23851a 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -228,6 +228,8 @@ class Sofa():
             N_verbose = "frequencies"
         elif self.GLOBAL_DataType.startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "samples, frequencies, or SOS coefficients"
 
         # get verbose description for dimensions R and E
         R_verbose = "receiver spherical harmonics coefficients" if \
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index c73df4a..7ab9f05 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -150,6 +150,8 @@ class SofaStream():
             N_verbose = "frequencies"
         elif self._file.getncattr('DataType').startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "samples, frequencies, or SOS coefficients"
 
         # get verbose description for dimensions R and E
         R_verbose = (
-- 
2.43.0


From d3f9580ea6f5284d2cde66aee6cc61878fb8bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 34/39] fix: check congruency of all conventions

Items were removed from the lists while iterating over them, so that every
convention following a removed one was skipped and incongruent conventions
were not reported.
---
 sofar/update_conventions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 677bef1..bd10a73 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -414,13 +414,13 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # check if lists are identical. Remove items not contained in both lists
     report = ""
-    for convention in sofaconventions:
+    for convention in sofaconventions.copy():
         if convention.startswith(("General_", "GeneralString_")):
             sofaconventions.remove(convention)
         elif convention not in sofatoolbox:
             sofaconventions.remove(convention)
             report += (f"- {convention} is missing in SOFAtoolbox\n")
-    for convention in sofatoolbox:
+    for convention in sofatoolbox.copy():
         if convention.startswith(("General_", "GeneralString_")):
             sofatoolbox.remove(convention)
         elif convention not in sofaconventions:
-- 
2.43.0


From 65033fb4d75274c57738e579b94ec9fe5fbc2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 35/39] fix: check congruency of conventions with several
 trailing tabs

Only one trailing tab was removed, so that conventions were reported to differ
that are identical apart from trailing tabs.
---
 sofar/update_conventions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index bd10a73..97d3fbb 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -433,8 +433,7 @@ def _check_congruency(save_dir=None, branch="master"):
         # download SOFA convention definitions to package directory
         data = [requests.get(url + convention) for url in urls_load]
         # remove trailing tabs and windows style line breaks
-        data = [d.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
-                for d in data]
+        data = [re.sub(rb"[\r\t]+\n", b"\n", d.content) for d in data]
 
         # check for equality
         if data[0] != data[1]:
-- 
2.43.0


From 928264b02be612ae4975ec64e2cb490b361bd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:49 +0000
Subject: [PATCH 36/39] fix: inspect does not show outdated dimensions for data
 of wrong type

---
 sofar/sofa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index f23851a..b811a50 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1084,6 +1084,11 @@ class Sofa():
         # if an error ocurred up to here, it has to be handled. Otherwise
         # detecting the dimensions might fail.
         if error_msg != "\nERRORS\n------\n":
+            # discard dimensions that were detected before the data changed
+            self.protected = False
+            self._dimensions = {}
+            self.protected = True
+
             if issue_handling == "ignore":
                 return
 
-- 
2.43.0


From 3c0515b46b47dfa5423eb715310a6012ab9b2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:54 +0000
Subject: [PATCH 37/39] fix: read and inspect scalar variables without
 dimensions

---
 sofar/io.py         | 2 +-
 sofar/sofastream.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index e132ccb..404cbdc 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -437,6 +437,6 @@ def _format_value_from_netcdf(value, key):
     # as scalar metadata, e.g., the SamplingRate
     data_keys = ["Data_IR", "Data_Real", "Data_Imag", "Data_SOS" "Data_Delay"]
     if value.size == 1 and key not in data_keys:
-        value = value[0]
+        value = np.atleast_1d(value)[0]
 
     return value
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 7ab9f05..dc2a39a 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -265,7 +265,7 @@ class SofaStream():
 
             # add value for scalars
             if data.size == 1:
-                info_str += str(data[:][0]) + '\n'
+                info_str += str(np.atleast_1d(data[:])[0]) + '\n'
 
             # Handle multidimensional data
             else:
-- 
2.43.0


From 9cfe6476a4394ea98a86a47fe83c536be6c1ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:35 +0000
Subject: [PATCH 38/39] fix: verify variables of five or more dimensions with
 trailing singleton dimensions

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index b811a50..aea6fb1 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1229,7 +1229,7 @@ class Sofa():
                 if dim not in "ICS" and dim.islower():
                     # numeric data
                     self._api[dim.upper()] = \
-                        _nd_newaxis(value, 4).shape[idx]
+                        _nd_newaxis(value, idx + 1).shape[idx]
                 if dim == "S":
                     # string data
                     S = max(S, np.max(self._get_size_and_shape_of_string_var(
-- 
2.43.0


From 7bcf31307589c48d3ea9acb7a4b975d12ff1ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:20 +0000
Subject: [PATCH 39/39] fix: no additional warnings from Sofa.verify for custom
 data and deprecated conventions

---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index aea6fb1..4c86df0 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1183,7 +1183,8 @@ class Sofa():
             # get normative variables and attributes
             normative = sf.Sofa(
                 self.GLOBAL_SOFAConventions,
-                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()
+                version=self.GLOBAL_SOFAConventionsVersion,
+                verify=False)._convention.keys()
             normative = [n.replace("GLOBAL_", "") for n in normative]
 
             # compare against custom
-- 
2.43.0

