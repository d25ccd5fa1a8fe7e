"""Writes DESIGN.md: tools/design.md with tables from properties.jsonl, the
modules of the properties, the last evidence, the log of /repo and seeded/."""
import ast
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# oracle and main bounds
HOW = {
    "C01": "Sequences assign-verify-write-read over objects with symbolic sizes, ranks up to 4, values, texts, custom and deleted entries, names of files. Custom data of up to six axes, 240 custom entries, texts of up to 9000 characters. Oracle: entry sets and values before and after. Sizes unbounded; texts up to 3 characters of any plane (NUL excluded); string variables up to 2x2.",
    "C02": "The file is inspected with netCDF4 (not with sofar) after writing objects with symbolic content. Custom data of up to six axes, 80 texts in one variable, texts of up to 9000 characters. Oracle: names, dimensions, types, attributes computed from the entries. Sizes unbounded; all 10 compression levels; file names with symbolic characters.",
    "C03": "Files are made with netCDF4 (not with sofar), with symbolic content, and read. Files with more than 500 entries, six axes, texts of up to 9000 characters. Oracle: the list of what was put there. Sizes unbounded; masks of unbounded arrays; names of unknown entries up to 2 symbolic characters.",
    "C04": "All shapes of up to four axes for each variable in objects of any size M, R, N, E, and for 14 kinds of dimension strings. Custom data of five and six axes, 80 texts in one variable. Oracle: arithmetic formula 'some assignment and some alternative match' over the symbolic sizes.",
    "C05": "Every entry of two conventions with values of 39 kinds, and pairs. Oracle: table of allowed kinds.",
    "C06": "All single and pairwise removals (thorough: subsets) of mandatory entries, symbolic flags and defaults in the table, four ways of issue handling. Oracle: set difference.",
    "C07": "Names with up to 2 symbolic characters (letters, digits, underscore) next to all interesting prefixes. Oracle: the rules as a formula over characters.",
    "C08": "Symbolic values (all texts up to 10 characters) against lists of allowed values, general and specific dependencies, dimensions with symbolic sizes, symbolic texts in the rules. Oracle: the rules as formula.",
    "C09": "Every text up to 7 characters, and every text near a valid one, against references of one to three parts and a symbolic alias table. One reference of four parts. Oracle: splitting written as formula.",
    "C10": "Symbolic units, types, versions, and other violations; same object verified in both modes; also via files. Oracle: equivalence between the modes.",
    "C11": "All pairs of 11 kinds of problems with symbolic details; the four ways of issue handling on the same object. 150 custom entries with issues at once. Oracle: agreement of results, warnings, errors, printed text.",
    "C12": "Unknown names with symbolic characters, every entry with every kind of value, deletion, symbolic flags, state after each of 26 public calls. Oracle: snapshot of the object.",
    "C13": "Lists up to four levels with symbolic lengths (0 to 3) and elements, scalars, arrays of any shape. Oracle: elements in order.",
    "C14": "Names with up to 2 symbolic characters next to all interesting prefixes, all types, dimensions, and sequences of additions. Custom data of five and six axes, names of up to 200 characters. Oracle: rules as formula; snapshots for rejected calls.",
    "C15": "Subsets of missing entries, symbolic flags and defaults, sequences of up to four operations. All entries missing. Oracle: sets of names.",
    "C16": "Pairs of objects that differ in one or two places, symbolic values, shapes (up to three axes, any size), masks, texts, names. Large arrays and texts with a difference at a symbolic place. Oracle: difference as formula, both orders.",
    "C17": "Generated rules (moves, axes, removals, present or missing data), targets, versions. Oracle: expected object computed from the rules.",
    "C18": "Symbolic names and versions (one or two digits) of up to four tables in any order. Oracle: maximum as formula.",
    "C19": "Symbolic cells of tab separated tables, all columns; numbers as digits; rows and nested rows. Oracle: cells.",
    "C20": "Symbolic server content and answers, all states of one or two tables, failing downloads at every request, sequences of updates. Oracle: states of the folder before and after, a second run.",
    "C21": "Files as in C03, every entry through the stream. Files with more than 120 entries. Oracle: what was put into the file, and read_sofa.",
    "C22": "Every kind of modification after copying, sequences of up to two (thorough: three). Oracle: snapshot of the other object.",
    "C23": "Printed lines compared to entries, symbolic sizes and values. Oracle: one line per entry with the sizes the solver knows.",
    "C24": "Symbolic tables (flags, defaults, names, versions) and all combinations of arguments. Oracle: the table.",
    "C25": "21 kinds of (in)valid objects through five operations; faults of the file library at every operation. Oracle: snapshots of objects and folder, number of open files, propagated error.",
    "C26": "Symbolic flags, comments, dimensions, custom and deleted entries; all kinds and names. Oracle: lines from the table.",
    "C27": "All placements of up to four (thorough: five) tables on two servers, symbolic content and line ends. Oracle: set differences as formula.",
    "C28": "Files with nine kinds of problems (symbolic units, values, sizes), five versions, all ways of requesting verification; writing with three tables of symbolic versions. Oracle: violations known by construction, verify(mode='read'), maximum of the versions as formula.",
    "C29": "Sequences of two to four (thorough: five) of 17 operations with symbolic sizes and values, then verification, summaries and dimensions compared with those of a newly created object with the same entries. Oracle: the new object (product program of the same code).",
}


def main():
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        props = [json.loads(x) for x in f if x.strip()]
    table = ["| | property | how it is decided | cases | paths | queries | "
             "time |", "| --- | --- | --- | --- | --- | --- | --- |"]
    assume = []
    for p in props:
        i = p["id"]
        try:
            with open(os.path.join(ROOT, "evidence", i + ".json")) as f:
                cov = json.load(f)
        except OSError:
            cov = {}
        x = cov.get("coverage", {})
        n = len(x.get("cases", {}))
        table.append(
            f"| {i} | {p['title']} | {HOW[i]} | {n} | {x.get('paths', '')} | "
            f"{x.get('solver_queries', '')} | "
            f"{cov.get('wall_s', 0):.0f} s |")
        with open(os.path.join(ROOT, "props", i.lower() + ".py")) as f:
            t = ast.parse(f.read())
        for node in t.body:
            if isinstance(node, ast.Assign) and \
                    getattr(node.targets[0], "id", "") == "ASSUMPTIONS":
                assume += [f"* {i}: {a}" for a in
                           ast.literal_eval(node.value)]
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        fixed = json.load(f)["fixed"]
    fixes = []
    for x in fixed:
        _, prop, commit, what = x.split(" ", 3)
        fixes.append(f"* {commit} ({prop[9:]}): {what}")
    seeds = ["| bug | property | needs | caught by |",
             "| --- | --- | --- | --- |"]
    caught = {}
    try:
        with open(os.path.join(ROOT, "tools", "caught.json")) as f:
            caught = json.load(f)
    except OSError:
        pass
    folder = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(folder)):
        with open(os.path.join(folder, s, "meta.json")) as f:
            m = json.load(f)
        seeds.append(f"| {s} | {m['property']} | {m['needs']} | "
                     f"{caught.get(s, m['property'])} |")
    with open(os.path.join(ROOT, "tools", "design.md")) as f:
        d = f.read()
    for k, v in (("TABLE", table), ("ASSUMPTIONS", assume),
                 ("FIXES", fixes), ("SEEDS", seeds)):
        d = d.replace(f"@{k}@", "\n".join(v))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(d)


main()
