"""C19: compiling convention tables."""
import os
from sx.run import Case
from sx.env import ASCII, IDENT, ALPHA
from props.common import *

ASSUMPTIONS = [
    "cells contain no tabs and line breaks; names of entries are unique, no "
    "numbers and do not start with a bracket; tables contain no empty lines",
    "numbers are decimal numbers without exponent and underscores, with up "
    "to five symbolic digits; versions have one digit after the point",
    "text is ASCII (and single characters of windows-1252)",
]

HEAD = ("Name", "Default", "Flags", "Dimensions", "Type", "Comment")
DIGIT = ((48, 57),)
PRINT = ((32, 94), (96, 126))
WORD = ((97, 122), (44, 44), (32, 32), (48, 48), (46, 46), (91, 91))


def compiled(c, lines, head=HEAD, name="Ab_1.0", end="\n", raw=False):
    """Compile a table and read the result"""
    d = c.path("conventions")
    os.makedirs(os.path.join(d, "deprecated"), exist_ok=True)
    write_csv(c, os.path.join(d, name + ".csv"), lines, head, end)
    m = c.mod("update_conventions")
    o = c.attempt(m._compile_conventions, d)
    if raw:
        return o
    c.check(o.ok, f"compiling fails ({o.kind}: {c.plain(o.message)[:200]})")
    with c.open(os.path.join(d, name + ".json"), "r") as f:
        return c.json.load(f)


def write_csv(c, path, lines, head=HEAD, end="\n"):
    with c.open(path, "w", encoding="windows-1252", newline="") as f:
        f.write("\t".join(head) + end)
        for x in lines:
            f.write("\t".join(x) + end)


def same(c, got, want):
    """Equal values of the same type"""
    if isinstance(want, str):
        return isinstance(got, str) and c.same_text(got, want)
    if want is None:
        return got is None
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and c.conj(
            *[same(c, x, y) for x, y in zip(got, want)])
    return isinstance(got, (int, float)) and c.eq(got, want)


def check_entry(c, got, name, want):
    c.check(len(got) == 1, "number of entries")
    for k, v in got.items():
        c.check(c.same_text(k, name), "other name")
        c.check(sorted(v) == ["comment", "default", "dimensions", "flags",
                              "type"], "fields of an entry")
        for field, x in want.items():
            c.check(same(c, v[field], x), f"{field} is not the one of "
                    "the table")


def stripped(t, empty=None):
    t = t.strip(" ")
    return t if len(t) else empty


def texts(c):
    """Text in any cell"""
    which = c.choice("cell", ("Flags", "Dimensions", "Type", "Comment",
                              "Default", "Name"))
    cell = {"Name": "GLOBAL:Ab", "Default": "abc", "Flags": "rm",
            "Dimensions": "IC, MC", "Type": "attribute", "Comment": "No, 1."}
    x = c.text("text", (0, 1, 2, 3) if c.thorough else (0, 1, 3), PRINT)
    if which == "Name":
        x = "GLOBAL:" + c.text("first", (1,), ALPHA) + x
    elif which == "Default":
        x = c.text("first", (1,), ((97, 100), (102, 104), (106, 109), (111, 122))) + x
    elif which == "Type":
        x = "a" + x
    cell[which] = x
    order = c.choice("columns", (
        HEAD, HEAD[:2] + ("Type", "Flags", "Dimensions", "Comment"),
        HEAD[:2] + ("Dimensions", "Comment", "Flags", "Type")))
    # the last cells of a line can not be empty but for the comment
    if order[-1] != "Comment" and which == order[-1]:
        c.assume(len(stripped(x, "")) > 0)
    got = compiled(c, [[cell[k] for k in order]], order)
    want = {k.lower(): stripped(cell[k]) for k in HEAD[1:]}
    if want["default"] is None:
        want["default"] = ""
    if want["comment"] is None:
        want["comment"] = "" if order[-1] == "Comment" else None
    check_entry(c, got, stripped(cell["Name"]), want)


def numbers(c):
    """Numbers"""
    sign = c.choice("sign", ("", "-", "+"))
    a = c.text("whole", (0, 1, 2, 3), DIGIT)
    kind = c.choice("kind", ("integer", "real"))
    b = c.text("fraction", (0, 1, 2), DIGIT) if kind == "real" else ""
    c.assume(len(a) + len(b) > 0)
    cell = sign + a + ("." if kind == "real" else "") + b
    n = value(a, b)
    pad = c.choice("pad", ("", " "))
    name = c.choice("name", ("Data.Value", "GLOBAL:Foo"))
    got = compiled(c, [[name, pad + cell + pad, "m", "I, M", "double",
                        "text"]])
    check_entry(c, got, name, {
        "default": n * (-1 if sign == "-" else 1), "flags": "m",
        "dimensions": "I, M", "type": "double", "comment": "text"})


def value(a, b):
    n = 0
    for x in a:
        n = 10 * n + int(x)
    s = 1
    for x in b:
        n = 10 * n + int(x)
        s *= 10
    return n / s if s > 1 else n


def number(c, name, real):
    a = c.text(name, (1,), DIGIT)
    if real:
        b = c.text(name + " fraction", (1,), DIGIT)
        return a + "." + b, value(a, b)
    if c.thorough and c.flag(name + " negative"):
        return "-" + a, -value(a, "")
    return a, value(a, "")


def arrays(c):
    """Rows and nested rows"""
    rows = c.choice("rows", (1, 2, 3))
    cols = c.choice("columns", (1, 2, 3))
    seps = c.choice("separator", ((" ", " "), (",", ","), (", ", ", "),
                                  (",", " "), ("  ", " , ")))
    semi = c.choice("row separator", (";", "; ", " ; ")) if rows > 1 else ""
    pad = c.choice("pad", ("", " "))
    real = c.choice("real", (-1, 0, rows * cols - 1))
    want, cells = [], []
    for r in range(rows):
        x, y = [], []
        for k in range(cols):
            i = r * cols + k
            t, v = number(c, f"n{r}{k}", i == real)
            x.append(v)
            y.append(t)
        want.append(x)
        cells.append("".join(
            t + (seps[k % 2] if k < cols - 1 else "")
            for k, t in enumerate(y)))
    cell = "[" + pad + semi.join(cells) + pad + "]"
    got = compiled(c, [["Ab", cell, "", "IC, MC", "double", ""]])
    check_entry(c, got, "Ab", {
        "default": want if rows > 1 else want[0], "flags": None,
        "dimensions": "IC, MC", "type": "double", "comment": ""})


def long_numbers(c):
    """Many digits and many numbers"""
    a = c.choice("whole", ("", "0", "123456789", "100000"))
    b = c.choice("fraction", ("0000001", "123456789", "9999999"))
    d = c.text("digit", (1,), DIGIT)
    t, v = a + "." + b + d, value(a, b + d)
    if c.flag("negative"):
        t, v = "-" + t, -v
    kind = c.choice("kind", ("number", "row", "nested", "long row",
                             "long nested", "many rows"))
    others = [str(k) for k in range(12)]
    n = list(range(12))
    cell, want = {
        "number": (t, v), "row": ("[1 " + t + "]", [1, v]),
        "nested": ("[1 " + t + "; " + t + " 1]", [[1, v], [v, 1]]),
        "long row": ("[" + " ".join(others) + " " + t + "]", n + [v]),
        "long nested": ("[" + " ".join(others) + "; " + " ".join(
            others[1:]) + " " + t + "]", [n, n[1:] + [v]]),
        "many rows": ("[" + "; ".join(others) + "; " + t + "]",
                      [[k] for k in n] + [[v]])}[kind]
    got = compiled(c, [["Ab", cell, "m", "IC", "double", "x"]])
    check_entry(c, got, "Ab", {"default": want, "flags": "m",
                               "dimensions": "IC", "type": "double",
                               "comment": "x"})


def order(c):
    """Global entries are first, entries of Data last"""
    names = ["GLOBAL:Ab", "Data.Ir", "Source", "Source:Units", "Data.Ir:Units",
             "MetaData", "GLOBAL:Data", "N", "GLOBAL:Version"]
    turn = c.concrete(c.int("turn", 0, 5))
    step = c.choice("step", (1, 2, 4, 5, 7, 8))
    rows = [names[(turn + k * step) % len(names)] for k in range(len(names))]
    x = c.text("default", (1,), ((97, 104),))
    got = compiled(c, [[n, x if k == 0 else "1.0", "m", "I", "attribute",
                        f"comment {k}"] for k, n in enumerate(rows)])
    want = [n for n in rows if n.startswith("GLOBAL:")] + [
        n for n in rows if not n.startswith(("GLOBAL:", "Data."))] + [
        n for n in rows if n.startswith("Data.")]
    c.check(list(got) == want, "order of the entries")
    for k, n in enumerate(rows):
        c.check(same(c, got[n]["default"], x if k == 0 else
                     "1.0" if "Version" in n else 1), "default")
        c.check(got[n]["comment"] == f"comment {k}", "comment")


def malformed(c):
    """Tables that can not be compiled"""
    good = ["GLOBAL:Ab", "x", "rm", "", "attribute", "text"]
    word = c.text("word", (1, 2), ((97, 104), (60, 64)))
    bad = c.choice("line", (
        ["Cd", "[1 " + word + "]", "m", "IC", "double", ""],
        ["Cd", "[1 2; " + word + " 1]", "m", "IC", "double", ""],
        ["Cd", word], ["Cd", word, "m"], ["Cd", "1", "m", "I"],
        ["Cd", "[1.2.3 4]", "m", "IC", "double", ""]))
    at = c.choice("position", (0, 1, 2))
    rows = [good, ["GLOBAL:Ef"] + good[1:]]
    rows.insert(at, bad)
    o = compiled(c, rows, raw=True)
    c.check(not o.ok, "compiled")
    c.check(o.raised(ValueError), f"{o.kind} raised")
    c.check("Ab_1.0.csv" in c.plain(o.message), "the table is not named")


def versions(c):
    """Versions are text"""
    name = c.choice("name", (
        "GLOBAL:Version", "GLOBAL:SOFAConventionsVersion",
        "GLOBAL:APIVersion", "GLOBAL:ApplicationVersion"))
    kind = c.choice("kind", ("1.2", "1", "empty", "text", "1.2.3"))
    if kind in ("1.2", "1", "1.2.3"):
        a = c.text("major", (1, 2), DIGIT, first=((49, 57),))
        b = c.text("minor", (1, 2), DIGIT) + c.text(
            "last", (1,), DIGIT, first=((49, 57),)) if kind == "1.2" and \
            c.flag("digits") else c.text("minor", (1,), DIGIT)
        cell = {"1.2": a + "." + b, "1": a,
                "1.2.3": a + "." + b + ".0"}[kind]
        want = {"1.2": a + "." + b, "1": a + ".0",
                "1.2.3": a + "." + b + ".0"}[kind]
    elif kind == "empty":
        cell, want = c.choice("cell", ("", " ")), ""
    else:
        cell = c.text("text", (1, 2), ALPHA)
        want = cell
    got = compiled(c, [[name, cell, "rm", "", "attribute", "x"]])
    check_entry(c, got, name, {"default": want, "flags": "rm",
                               "dimensions": None, "type": "attribute",
                               "comment": "x"})


def special(c):
    """Defaults in Matlab notation"""
    cell, want = c.choice("default", (
        ("permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);",
         [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]),
        ("permute([0 0 0 1 0 0], [3 1 2]);", [[[0, 0, 0, 1, 0, 0]]]),
        ("{''}", [""]), ("\xe4\u20ac", "\xe4\u20ac"), ("0", 0),
        ("0.5", 0.5), ("-1", -1), ("[0;1]", [[0], [1]])))
    pad = c.choice("pad", ("", " "))
    comment = c.text("comment", (1,), PRINT) \
        if cell[0] not in "\xe4" else "\xe4"
    got = compiled(c, [["Data.SOS", pad + cell + pad, "m", "mRn", "double",
                        comment]])
    check_entry(c, got, "Data.SOS", {
        "default": want, "flags": "m", "dimensions": "mRn", "type": "double",
        "comment": stripped(comment, "")})


def empty(c):
    """Empty and missing cells"""
    blank = ("", " ", "  ")
    row = ["GLOBAL:Ab"]
    want = {}
    for k, t in zip(HEAD[1:], ("text", "m", "IC", "double", "comment")):
        if k != "Type" and c.flag("no " + k):
            x = c.choice("blank " + k, blank)
            want[k.lower()] = "" if k in ("Default", "Comment") else None
        else:
            x = want[k.lower()] = t
        row.append(x)
    if want["comment"] == "" and c.flag("line ends early"):
        row = row[:-1]
    got = compiled(c, [row], end=c.choice("end", ("\n", "\r\n")))
    check_entry(c, got, "GLOBAL:Ab", want)


def lines(c):
    """Every line is found in the result"""
    n = c.choice("lines", (1, 2, 3, 4) if c.thorough else (1, 2, 4))
    order = c.choice("order", ("", "r", "x"))
    pre = ["GLOBAL:", "Data.", "", "A:GLOBAL"]
    pre = pre[::-1] if order == "r" else \
        ["", "Data.", "Data.", "GLOBAL:"] if order == "x" else pre
    rows, names = [], []
    for k in range(n):
        if c.thorough and k < 2:
            x = c.choice(f"prefix {k}", tuple(pre))
        else:
            x = pre[k]
        x += c.text(f"name {k}", (1,), ALPHA) + \
            ("Version" if k == 3 else "")
        for y in names:
            if len(x) == len(y):
                c.assume(c.neg(c.same_text(x, y)))
        names.append(x)
        rows.append([x, c.text(f"default {k}", (1,), ((97, 104),)), "m",
                     "I" * (k + 1), "attribute" if k else "double",
                     f"comment {k}"])
    got = list(compiled(c, rows).items())
    c.check(len(got) == n, "number of entries")
    for k in range(n):
        m = [c.conj(len(x[0]) == len(names[k]) and
                    c.same_text(x[0], names[k]),
                    c.same_text(x[1]["default"], rows[k][1]),
                    x[1]["dimensions"] == rows[k][3],
                    x[1]["comment"] == rows[k][5],
                    x[1]["type"] == rows[k][4], x[1]["flags"] == "m")
             for x in got]
        c.check(c.disj(*m), "a line is lost or changed")


def folder(c):
    """All tables of a folder"""
    d = c.path("conventions")
    os.makedirs(os.path.join(d, "deprecated"))
    names = ["Ab_1.0", "Ab_0.2", "deprecated/Ab_0.1", "deprecated/Cd_1.0"]
    tab = {}
    for k, n in enumerate(names):
        if c.flag("table " + n):
            tab[n] = c.text("default " + n, (1,), ((97, 104),))
            write_csv(c, os.path.join(d, n + ".csv"), [
                ["GLOBAL:Ab", tab[n], "m", "", "attribute", f"{k}"[:0]]])
        if c.flag("old " + n):
            with c.open(os.path.join(d, n + ".json"), "w") as f:
                f.write(f'{{"old": {k}}}\n' + " " * 500)
    with c.open(os.path.join(d, "other.txt"), "w") as f:
        f.write("other")
    before = sorted(os.listdir(d)) + sorted(os.listdir(d + "/deprecated"))
    m = c.mod("update_conventions")
    c.must(m._compile_conventions, d)
    after = sorted(os.listdir(d)) + sorted(os.listdir(d + "/deprecated"))
    c.check(set(before) | {os.path.basename(n) + ".json" for n in tab} ==
            set(after) | set(before), "files")
    for k, n in enumerate(names):
        f = os.path.join(d, n + ".json")
        if n in tab:
            with c.open(f, "r") as fid:
                got = c.json.load(fid)
            check_entry(c, got, "GLOBAL:Ab", {"default": tab[n]})
        elif os.path.isfile(f):
            with c.open(f, "r") as fid:
                c.check(c.json.load(fid) == {"old": k}, "other table changed")
    # the same again
    c.must(m._compile_conventions, d)
    for n in tab:
        with c.open(os.path.join(d, n + ".json"), "r") as fid:
            check_entry(c, c.json.load(fid), "GLOBAL:Ab", {"default": tab[n]})
    o = c.attempt(m._compile_conventions, os.path.join(d, "missing"))
    c.check(not o.ok, "missing folder")


def cases(tier):
    return [Case("texts", texts), Case("numbers", numbers),
            Case("arrays", arrays), Case("versions", versions),
            Case("special", special), Case("empty", empty),
            Case("lines", lines), Case("long_numbers", long_numbers),
            Case("order", order), Case("malformed", malformed), Case("folder", folder)]
