"""Writes /verif/properties.jsonl (kept as a script to make editing sane)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w}
                                  for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None}})


IO, SO, UT, ST, UP = ("sofar/io.py", "sofar/sofa.py", "sofar/utils.py",
                      "sofar/sofastream.py", "sofar/update_conventions.py")
NOCONV = ("The convention tables are not part of this checkout, so no "
          "existing test that needs a SOFA object runs; even with them a "
          "test samples a few fixed objects.")

prop("C01", "Write-read round trip preserves the data",
     "Every SOFA object that passes verification can be written to disk, and "
     "reading the file back returns an object with exactly the same set of "
     "entries, the same text in every attribute and string variable, and "
     "numerically identical values in every numeric variable. Numeric arrays "
     "may differ only in singleton dimensions (missing trailing singleton "
     "dimensions are added, arrays with one element become scalars).",
     ["inputs", "configurations"],
     "every verified object: any numeric values, any consistent sizes of the "
     "dimensions, any rank a user may assign, any attribute text, custom "
     "variables and attributes, any compression level, any file name",
     NOCONV, [IO, SO, UT],
     [("_write_sofa / write_sofa", IO), ("_format_value_for_netcdf", IO),
      ("_read_netcdf", IO), ("_format_value_from_netcdf", IO),
      ("_atleast_nd", UT)],
     ["write_sofa", "read_sofa"])

prop("C02", "Written files follow the SOFA file layout",
     "In a written file every variable is stored as a 64-bit float (or "
     "character) variable with the dimension names found by verification, "
     "every dimension has the size reported by the object, GLOBAL_ entries "
     "are global attributes without the prefix, Variable_Attribute entries "
     "are attributes of their variable only, and Data_X becomes Data.X. "
     "Nothing else is in the file, and the content does not depend on the "
     "compression level; '.sofa' is appended to names that lack it.",
     ["inputs", "configurations"],
     "every verified object (sizes, values, texts, custom entries), every "
     "compression level 0-9, every file name",
     NOCONV, [IO],
     [("_write_sofa", IO), ("_format_value_for_netcdf", IO)],
     ["netCDF content of the file written by write_sofa"])

prop("C03", "Reading returns exactly what the file contains",
     "read_sofa returns an object whose entries are exactly the global "
     "attributes, variables and variable attributes in the file: convention "
     "defaults that the file does not contain do not appear, entries unknown "
     "to the convention are kept as custom entries, and each value equals the "
     "stored one. Numeric variables with missing values are returned as "
     "masked arrays with a warning, and read_sofa_as_netcdf does the same "
     "for files that violate the convention.",
     ["inputs"],
     "every netCDF file that names a known convention: any subset of the "
     "convention's entries present, any custom entries, sizes, values, "
     "texts, integer or float storage, missing values",
     NOCONV, [IO],
     [("_read_netcdf", IO), ("_format_value_from_netcdf", IO),
      ("_add_custom_api_entry", SO)],
     ["read_sofa", "read_sofa_as_netcdf"])

prop("C04", "Verification accepts exactly consistent dimensions",
     "verify() accepts the shapes of an object if and only if one assignment "
     "of sizes to the dimensions (C=3, I=1, each other dimension given by the "
     "variables that define it) makes every variable match one of its "
     "allowed dimension strings, missing trailing dimensions counting as "
     "singletons. For accepted objects get_dimension returns these sizes; "
     "otherwise the variables of wrong shape are reported.",
     ["inputs", "configurations"],
     "every combination of ranks and sizes of the variables, every "
     "convention and custom variable with own dimensions",
     NOCONV, [SO, UT],
     [("verify, parts 4 and 5", SO), ("_nd_newaxis/_atleast_nd", UT),
      ("_get_size_and_shape_of_string_var", SO), ("get_dimension", SO)],
     ["verify", "get_dimension", "list_dimensions"])

prop("C05", "Verification rejects data of the wrong type",
     "verify() reports an entry as having the wrong type if and only if an "
     "attribute is not a string, a numeric variable is not made of real "
     "integers or floats, or a string variable is not a string or an array "
     "of strings. Objects with such entries are never written.",
     ["inputs"],
     "every entry of every kind and every Python/numpy value type that can "
     "be assigned to it",
     NOCONV, [SO], [("verify, part 2", SO)], ["verify", "write_sofa"])

prop("C06", "Missing mandatory data is detected and repaired",
     "For every subset of mandatory entries removed from an object, verify() "
     "with issue_handling='raise' raises an error that names exactly the "
     "missing entries and leaves the object unchanged; otherwise it adds "
     "exactly the missing entries with the convention's defaults, reports "
     "them, and leaves all other entries alone.",
     ["inputs", "histories"],
     "every subset of removed entries (mandatory and optional), every "
     "convention, every way of issue handling",
     NOCONV, [SO], [("verify, part 1", SO), ("add_missing", SO)],
     ["verify", "add_missing"])

prop("C07", "Verification enforces the naming rules",
     "verify() accepts an object if and only if all names are legal: "
     "attributes have the form Variable_Attribute with an existing variable "
     "or the prefix GLOBAL_, variables contain no underscore except the "
     "prefix Data_, no name starts with PRIVATE or API, GLOBAL is only used "
     "for attributes in the form GLOBAL_Name, and custom entries do not "
     "reuse names of the convention.",
     ["inputs"],
     "every name of a custom entry, read from a file or added directly",
     NOCONV, [SO], [("verify, part 3", SO)], ["verify", "read_sofa"])

prop("C08", "Restricted values and dependencies are enforced",
     "verify() reports a violation if and only if an entry has a value "
     "outside its list of allowed values (letter case being ignored except "
     "for the data type and the convention name), an entry lacks one it "
     "generally depends on, or the value of an entry demands another entry, "
     "value or dimension size that is not there. Letter case of an accepted "
     "value never changes which dependencies are enforced.",
     ["inputs", "configurations"],
     "every attribute text and every presence/absence combination of the "
     "entries named in the rules, for arbitrary rule tables",
     NOCONV, [SO], [("verify, part 6", SO), ("_verify_value", SO)],
     ["verify"])

prop("C09", "Units are accepted exactly if they alias the reference unit",
     "A Units attribute is accepted if and only if it equals the reference "
     "unit or, split at commas with one optional following space, has the "
     "same number of parts and every part is a known alias of the reference "
     "part at the same position (letter case being ignored when reading). "
     "Converting an accepted unit to the reference spelling always gives the "
     "reference unit.",
     ["inputs"],
     "every unit text up to the bound, every reference unit",
     "Tests try a handful of spellings of a unit; that every other text is "
     "rejected, or accepted, is a statement about all texts.", [SO],
     [("_verify_unit", SO), ("_get_reference_unit", SO)], ["verify"])

prop("C10", "Write mode is stricter than read mode in the documented ways",
     "An object accepted by verify(mode='write') is accepted by "
     "mode='read'. Conversely an object accepted by mode='read' is rejected "
     "by mode='write' if and only if a Units attribute contains upper case "
     "letters or its convention is deprecated; in read mode a deprecated "
     "convention gives a warning, and in both modes a version below 1.0 "
     "gives a warning.",
     ["inputs", "configurations"],
     "every unit text, custom entry, convention and version",
     NOCONV, [SO], [("verify, parts 7 and 8", SO)], ["verify", "write_sofa"])

prop("C11", "All ways of issue handling agree",
     "For every object verify() detects the same issues whatever the issue "
     "handling: 'raise' raises an error exactly if there is an error and "
     "otherwise warns exactly if there is a warning, 'print' neither raises "
     "nor warns and prints exactly those messages, 'return' returns exactly "
     "them (or None) without raising, warning or printing, and 'ignore' does "
     "none of this.",
     ["inputs", "configurations"],
     "every combination of error and warning causes and every mode",
     NOCONV, [SO], [("_verify_handle_issues", SO), ("verify", SO)],
     ["verify", "inspect"])

prop("C12", "Protected objects only change in permitted ways",
     "As long as an object is protected, assigning to an unknown name, "
     "assigning to a read-only entry, or deleting a mandatory or unknown "
     "entry raises an error and changes nothing, while assigning to other "
     "existing entries and deleting optional ones succeeds and affects only "
     "that entry. Every public method leaves the object protected, and "
     "saving and restoring the protected flag works.",
     ["inputs", "histories"],
     "every name and every sequence of assignments, deletions and method "
     "calls",
     NOCONV, [SO],
     [("__setattr__", SO), ("__delattr__", SO), ("protected", SO)],
     ["attribute assignment and deletion", "delete", "protected"])

prop("C13", "Assigned values are stored without changing their content",
     "Assigning a value to an entry stores strings, dictionaries and numpy "
     "arrays as they are; every other value is stored as an array with at "
     "least two dimensions holding the same elements in the same order, or "
     "as a scalar if it has only one element.",
     ["inputs"], "every number, (nested) list or array of any size",
     NOCONV, [SO, UT], [("__setattr__", SO), ("_atleast_nd", UT)],
     ["attribute assignment"])

prop("C14", "Custom entries are accepted exactly if they are legal",
     "add_variable and add_attribute accept exactly new names of legal form "
     "(no underscore for variables, Variable_Attribute with an existing "
     "variable or GLOBAL_ for attributes), a valid type, and given "
     "dimensions; accepted entries hold the given value, are part of the "
     "object, survive copying and, unless their name is reserved, "
     "verification, and appear in files. A rejected call raises an error and leaves the object unchanged.",
     ["inputs"],
     "every name, type, dimension string and value",
     NOCONV, [SO],
     [("_add_entry", SO), ("_add_custom_api_entry", SO)],
     ["add_variable", "add_attribute"])

prop("C15", "Deleting and adding missing data are exact",
     "delete removes exactly the named optional entry (and forgets it, if it "
     "is custom), so that it does not come back and its name can be used "
     "again. add_missing adds exactly the absent mandatory and/or optional "
     "entries of the convention, as selected, with their defaults, never "
     "overwrites data, and calling it again adds nothing.",
     ["inputs", "histories"],
     "every subset of entries present, every option, every sequence of "
     "calls",
     NOCONV, [SO], [("add_missing", SO), ("delete", SO),
                    ("_reset_convention", SO)],
     ["delete", "add_missing"])

prop("C16", "equals() is true exactly for identical data",
     "equals returns True for an object and its copy, gives the same answer "
     "in both orders, and returns False whenever any entry that is not "
     "excluded is missing in one object or differs in text, numeric value "
     "beyond tolerance, type or shape beyond singleton dimensions. The "
     "exclude options leave out exactly the documented entries, and a "
     "difference never raises an error.",
     ["inputs"],
     "every pair of objects differing in arbitrary values, shapes, texts or "
     "entries, every exclude option",
     NOCONV, [UT], [("equals", UT)], ["equals"])

prop("C17", "Upgrading a convention moves all data and loses none",
     "upgrade_convention without target only lists the targets and changes "
     "nothing; with a valid target it changes convention, version, SOFA "
     "version and data type, moves (with axes permuted as the rules say) or "
     "removes exactly the entries the rules name, adds missing mandatory "
     "data, and keeps every other entry's value. Up-to-date conventions and "
     "invalid targets leave the object unchanged.",
     ["inputs", "configurations"],
     "all data values and sizes of deprecated objects, every target text, "
     "arbitrary upgrade rules",
     NOCONV, [SO], [("upgrade_convention", SO)], ["upgrade_convention"])

prop("C18", "Conventions and versions are resolved correctly",
     "Creating an object loads the table whose name and version match "
     "exactly, the highest version for 'latest', and raises an error for "
     "names or versions that do not exist, whatever order the files are "
     "listed in. list_conventions lists every available convention and "
     "version exactly once.",
     ["inputs", "configurations"],
     "every set of installed conventions, listing order, requested name and "
     "version",
     "Tests see one installed set of conventions in one directory order.",
     [SO, UT],
     [("_load_convention", SO), ("_get_conventions", UT),
      ("_verify_convention_and_version", UT)],
     ["Sofa", "list_conventions", "read_sofa"])

prop("C19", "Compiling a convention table keeps its content",
     "Compiling a convention from its tab separated source gives one entry "
     "per line with name, default, flags, dimensions, type and comment taken "
     "from the matching columns: numbers stay numbers of equal value, "
     "bracketed rows become (nested) lists of the same numbers, empty cells "
     "become None (empty text for defaults, added empty comments), versions "
     "become text, and no line is lost. Global entries come first, entries "
     "of Data last; a line that can not be parsed raises a ValueError.",
     ["inputs"],
     "every well formed source table up to the bound (cell texts, numbers, "
     "array sizes, line order)",
     "The repository has no test that compiles a table offline.", [UP],
     [("_convention_csv2dict", UP), ("_compile_conventions", UP)],
     ["_compile_conventions (json files)"])

prop("C20", "Updating the conventions is exact, confirmed and repeatable",
     "update_conventions installs new and changed tables, moves newly "
     "deprecated ones, leaves all others untouched and makes the compiled "
     "tables match; a second run with the same server content changes "
     "nothing. If the user does not answer 'y', or any download fails, no "
     "table is added, changed or removed.",
     ["inputs", "fault_sequences", "histories"],
     "every local and remote set of tables and contents up to the bound, "
     "every user answer, every failing download",
     "The existing test needs the network and is not run.", [UP],
     [("update_conventions", UP)], ["the conventions folder"])

prop("C21", "SofaStream agrees with the file and with read_sofa",
     "For every entry of a file, SofaStream returns the same attribute text "
     "or a variable with the same values as read_sofa, under the same name, "
     "raises AttributeError for names not in the file, reports the file's "
     "dimension sizes, and closes the file when the block is left.",
     ["inputs"],
     "every file content (names, values, sizes, texts) and queried name",
     NOCONV, [ST], [("SofaStream.__getattr__", ST),
                    ("get_dimension", ST), ("list_dimensions", ST)],
     ["SofaStream"])

prop("C22", "Copies are equal and independent",
     "A copy of an object holds equal entries, custom entries and "
     "protection, and no later change of either object, including changes "
     "inside arrays and of custom entries, is visible in the other. Two "
     "objects created independently never share data.",
     ["inputs", "histories"],
     "every object and every modification of it or of its copy",
     NOCONV, [SO], [("copy", SO), ("_convention_to_sofa", SO)], ["copy"])

prop("C23", "Printed summaries report the true shapes and values",
     "inspect lists every entry exactly once with its current text or "
     "value, or with the size of each of its dimensions as verified, prints "
     "values of arrays with up to six elements, and writes the same text to "
     "the file if one is given. list_dimensions prints the verified size of "
     "every dimension.",
     ["inputs"],
     "every verified object (sizes, values, texts, custom entries)",
     NOCONV, [SO, ST], [("inspect", SO), ("list_dimensions", SO),
                        ("SofaStream.inspect", ST)],
     ["inspect", "list_dimensions", "info"])

prop("C24", "New objects hold exactly the convention's defaults",
     "Sofa(name) holds exactly the entries of the convention (only the "
     "mandatory ones if so requested) with their default values, apart from "
     "creation dates and API fields; it is protected, verified by default "
     "if its version is at least 1.0, and otherwise a warning about "
     "preliminary conventions is given.",
     ["inputs", "configurations"],
     "every convention table (entries, flags, defaults, versions) and every "
     "combination of arguments",
     NOCONV, [SO], [("__init__", SO), ("_convention_to_sofa", SO)], ["Sofa"])

prop("C25", "Checking, writing and failing never damage data",
     "Verifying, writing, inspecting and comparing never change the value of "
     "any entry, and an object that fails verification is not written: the "
     "file system stays as it was, an existing file included. Every file "
     "opened is closed again, and an error of the file library at any point "
     "of reading or writing is reported to the caller.",
     ["inputs", "fault_sequences"],
     "every object, valid or not, and every point at which the file library "
     "may fail",
     NOCONV, [IO, SO], [("write_sofa", IO), ("verify", SO),
                        ("_read_netcdf", IO)],
     ["write_sofa", "read_sofa", "verify", "equals", "inspect"])

prop("C26", "Information about conventions is complete and correct",
     "The information printed by an object lists, in order, exactly the "
     "entries of the requested kind (all, mandatory, optional, read only, "
     "data) with the type, dimensions, flags, and comment of the convention "
     "or custom definition; for the name of an entry it prints the full "
     "definition of every entry whose name contains it. Other names are "
     "rejected with a ValueError and nothing about the object changes.",
     ["inputs", "configurations"],
     "every convention table and custom entry (flags, dimensions, comments) "
     "and every requested name",
     NOCONV, [SO], [("info", SO), ("_mandatory", SO), ("_read_only", SO)],
     ["info"])

prop("C27", "Diverging sources of the conventions are all reported",
     "Comparing the two servers that host the conventions reports every "
     "table that only one of them lists and every table whose content "
     "differs (apart from line ends and trailing tabs) exactly once, reports "
     "no other table (General and GeneralString are left out), and prints "
     "nothing if there is no difference. If a folder is given, exactly the "
     "diverging tables of both servers are saved there; a missing folder or "
     "a page listing no tables raises a ValueError.",
     ["inputs", "configurations"],
     "every pair of listings and every content of the tables",
     NOCONV, [UP], [("_check_congruency", UP)], ["_check_congruency"])

prop("C28", "Files are verified exactly if requested; old versions are named",
     "Reading a file raises a ValueError if and only if verification is "
     "requested (by default: if the version of its convention is at least "
     "1.0) and the object does not pass verification in read mode; the "
     "entries returned do not depend on whether verification is requested. "
     "Writing an object warns that its convention is outdated if and only if "
     "a higher version of the same convention is available, which never "
     "changes what is written.",
     ["inputs", "configurations"],
     "every file content (valid or violating the convention), every way of "
     "requesting verification, every set of available versions",
     NOCONV, [IO], [("_read_netcdf", IO), ("_write_sofa", IO)],
     ["read_sofa", "write_sofa"])

prop("C29", "Reports depend on the current data, not on the history",
     "What verify, inspect, list_dimensions and get_dimension report depends "
     "only on the entries an object currently holds and on the definitions "
     "of its custom entries: after any sequence of assignments, additions, "
     "deletions, calls that fail, verifications, printed summaries, copies, "
     "writing and reading, and upgrades they give the same result as for a "
     "new object of the same convention that holds the same entries.",
     ["histories"],
     "every sequence of operations up to the bound, all sizes and values",
     NOCONV, [SO, IO], [("verify", SO), ("inspect", SO),
                        ("_reset_convention", SO), ("add_variable", SO),
                        ("delete", SO), ("upgrade_convention", SO)],
     ["verify", "inspect", "list_dimensions", "get_dimension"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
