"""C20: updating the conventions."""
import os
import requests
from sx.run import Case
from sx.env import ASCII, ALPHA
from props.common import *

ASSUMPTIONS = [
    "every table is listed once per page of the server, links have a target "
    "and tables on the server can be compiled (see C19)",
    "tables differ in one character of ASCII; up to two tables besides the "
    "excluded ones",
    "what happens with a deprecated table that is standardized again, besides "
    "installing the standardized one, is not specified",
]

URL = "https://www.sofaconventions.org/conventions"
CHARS = ((97, 104),)
A, B = "Ab_1.0", "Cd_0.3"


def table(x, end="\n", comment="text"):
    """Table with a symbolic default"""
    return ("Name\tDefault\tFlags\tDimensions\tType\tComment" + end
            + "GLOBAL:Ab\t" + x + "\trm\t\tattribute\t" + comment + end)


def compiled(x, comment="text"):
    return {"GLOBAL:Ab": {"default": x, "flags": "rm", "dimensions": None,
                          "type": "attribute", "comment": comment}}


class World:
    """Local folder and server"""

    def __init__(self, c, folder=None):
        self.c = c
        self.d = c.path("conventions") if folder is None else folder
        self.local, self.std, self.dep = {}, {}, {}
        self.asked, self.requests = 0, []
        self.fail = None
        self.answer = "y"
        self.end = "\n"
        self.page = "plain"
        c.network(self.serve)
        c.answers(self.ask)

    # -- local --------------------------------------------------------------
    def install(self, name, x, end="\n", json=True):
        """name: with 'deprecated/' for deprecated tables"""
        c, f = self.c, os.path.join(self.d, name)
        os.makedirs(os.path.join(self.d, "deprecated"), exist_ok=True)
        with c.open(f + ".csv", "w", newline="") as fid:
            fid.write(table(x, end))
        if json:
            with c.open(f + ".json", "w") as fid:
                c.json.dump(compiled(x), fid, indent=4)
        self.local[name] = x

    def state(self):
        """Files and their content"""
        out = {}
        for base in ("", "deprecated/"):
            p = os.path.join(self.d, base)
            if not os.path.isdir(p):
                continue
            for f in sorted(os.listdir(p)):
                if os.path.isfile(os.path.join(p, f)):
                    with self.c.open(os.path.join(p, f), "r",
                                     newline="") as fid:
                        out[base + f] = fid.read()
        return out

    # -- server -------------------------------------------------------------
    def ask(self):
        self.asked += 1
        return self.answer

    def serve(self, url):
        self.requests.append(url)
        if self.fail is not None and len(self.requests) == self.fail[0]:
            if self.fail[1] == "connection":
                raise requests.ConnectionError("no connection")
            x = "page not found"
            return x, x.encode(), self.fail[1]
        path = url[len(URL):].strip("/")
        self.c.check(url.startswith(URL), "address")
        if path in ("", "deprecated"):
            x = self.index(self.std if path == "" else self.dep)
            return x, x.encode()
        base, name = os.path.split(path)
        pages = self.dep if base == "deprecated" else self.std
        self.c.check(name.endswith(".csv") and name[:-4] in pages,
                     f"{path} requested")
        x = self.table(pages[name[:-4]])
        return x, x.encode()

    def index(self, tables):
        pre = {"plain": "", "full": "/conventions/",
               "relative": "./"}[self.page]
        return ("<html><body><a href='../'>up</a>"
                "<a href='readme.txt'>readme</a>"
                + "".join(f'<td><a href="{pre}{x}.csv">{x}</a></td>'
                          for x in tables)
                + "<p>tables.csv</p></body></html>")

    def table(self, x):
        return table(x, self.end)

    # -- runs ---------------------------------------------------------------
    def update(self, **kw):
        self.requests, self.asked = [], 0
        m = self.c.mod("update_conventions")
        if "conventions_path" not in kw:
            kw["conventions_path"] = self.d
        return self.c.attempt(m.update_conventions, **kw)

    def changes(self):
        """Expected changes: list of (name, standardized now, text) and the
        condition that each one is needed"""
        c, out = self.c, []
        for n, x in self.std.items():
            if n.startswith(("General_", "GeneralString_")):
                continue
            old = self.local.get(n)
            out.append((n, x, True if old is None else
                        c.neg(c.same_text(old, x))))
        for n, x in self.dep.items():
            if n in self.std or n.startswith(("General_", "GeneralString_")):
                continue
            old = self.local.get("deprecated/" + n)
            if n in self.local:
                out.append(("deprecated/" + n, x, True))
            else:
                out.append(("deprecated/" + n, x, True if old is None else
                            c.neg(c.same_text(old, x))))
        return out

    def check_updated(self, before, after):
        """The folder after a confirmed update"""
        c = self.c
        want = dict(self.local)
        ignore = []
        for name, x, need in self.changes():
            want[name] = x
            if name.startswith("deprecated/"):
                want.pop(name[11:], None)
            elif "deprecated/" + name in want:
                ignore.append("deprecated/" + name)
        files = sorted(f"{n}.{e}" for n in want for e in ("csv", "json")
                       if n not in ignore)
        got = sorted(f for f in after if f.rpartition(".")[0] not in ignore)
        c.check(got == files, "other files")
        for n, x in want.items():
            if n in ignore or n + ".csv" not in after:
                continue
            if n + ".json" not in after:
                continue
            self.check_table(after, n, x)

    def check_table(self, after, n, x):
        c = self.c
        got = []
        for line in after[n + ".csv"].split("\n"):
            got.append(line.strip("\r\t"))
        c.check(len(got) == 3 and got[2] == "" and
                got[0] == "Name\tDefault\tFlags\tDimensions\tType\tComment",
                f"lines of {n}.csv")
        c.check(c.same_text(got[1], table(x).split("\n")[1]),
                f"content of {n}.csv")
        j = c.json.loads(after[n + ".json"])
        c.check(len(j) == 1 and "GLOBAL:Ab" in j, f"entries of {n}.json")
        for k, v in compiled(x)["GLOBAL:Ab"].items():
            w = j["GLOBAL:Ab"][k]
            c.check(w is None if v is None else c.same_text(w, v),
                    f"content of {n}.json")


def same_files(c, a, b, msg):
    c.check(sorted(a) == sorted(b), f"{msg}: other files")
    for k in a:
        c.check(c.same_text(a[k], b[k]), f"{msg}: {k} changed")


def world(c, names, folder=None, tables=None):
    w = World(c, folder)
    w.end = c.choice("end of lines", ("\n", "\r\n", "\t\t\n"))
    for n in names:
        here = c.choice("local " + n, ("no", "standardized", "deprecated",
                                       "both"))
        there = c.choice("server " + n, ("no", "standardized", "deprecated",
                                         "both"))
        if here != "no":
            x = c.text("old " + n, (1,), CHARS)
            w.install(("deprecated/" if here == "deprecated" else "") + n, x,
                      c.choice("local end of lines " + n, ("\n", "\r\n")))
            if here == "both":
                w.install("deprecated/" + n,
                          c.text("old deprecated " + n, (1,), CHARS))
        if there != "no":
            x = c.text("new " + n, (1,), CHARS)
            if there in ("standardized", "both"):
                w.std[n] = x
            if there in ("deprecated", "both"):
                w.dep[n] = x
    return w


def one(c):
    """One table in any state"""
    w = world(c, [A])
    w.page = c.choice("links", ("plain", "full", "relative"))
    before = w.state()
    sure = c.flag("assume yes")
    answer = "y" if sure else c.text("answer", (0, 1, 2), ASCII)
    confirm(c, w, before, sure, answer)


def confirm(c, w, before, sure, answer):
    w.answer = answer
    need = c.disj(*[x[2] for x in w.changes()])
    o = w.update(assume_yes=sure)
    c.check(o.ok, f"updating fails ({o.kind}: {c.plain(o.message)[:200]})")
    after = w.state()
    if not bool(need):
        c.check(w.asked == 0, "question without updates")
        same_files(c, before, after, "nothing to update")
        return
    c.check(w.asked == (0 if sure else 1), "number of questions")
    for name, _, n in w.changes():
        shown = os.path.basename(name) in o.text
        c.check(c.iff(n, shown), "announced updates")
    if not (len(answer) == 1 and bool(c.same_text(answer, "y"))):
        same_files(c, before, after, "update canceled")
        c.reach("canceled")
        return
    c.reach("updated")
    w.check_updated(before, after)
    # repeated
    o = w.update(assume_yes=sure)
    c.check(o.ok, f"second update fails ({o.kind})")
    c.check(w.asked == 0, "second update asks")
    same_files(c, after, w.state(), "second update")


def two(c):
    """Two tables"""
    w = world(c, [A, B]) if c.thorough else world(c, [A])
    if not c.thorough:
        here = c.choice("local second", ("no", "standardized", "deprecated"))
        there = c.choice("server second", ("no", "standardized",
                                           "deprecated"))
        if here != "no":
            w.install(("deprecated/" if here == "deprecated" else "") + B,
                      c.text("old second", (1,), CHARS))
        if there != "no":
            (w.std if there == "standardized" else w.dep)[B] = c.text(
                "new second", (1,), CHARS)
    before = w.state()
    confirm(c, w, before, True, "y")


def excluded(c):
    """Tables that are not installed"""
    w = World(c)
    for k, n in enumerate(("General_1.0", "GeneralString_0.2", "GeneralFIR_1.0",
                           "MyGeneral_1.0")):
        x = c.choice("server " + n, ("standardized", "deprecated"))
        (w.std if x == "standardized" else w.dep)[n] = \
            c.text(f"new {k}", (1,), CHARS)
    os.makedirs(c.path("conventions", "deprecated")) \
        if c.flag("folder exists") else None
    o = w.update(assume_yes=True)
    c.check(o.ok, f"updating fails ({o.kind}: {c.plain(o.message)[:200]})")
    w.check_updated({}, w.state())


def failing(c):
    """A download fails"""
    w = world(c, [A])
    w.install("Old_1.0", c.text("default", (1,), CHARS))
    there = c.choice("server second", ("no", "standardized", "deprecated"))
    if there != "no":
        (w.std if there == "standardized" else w.dep)[B] = c.text(
            "new second", (1,), CHARS)
    before = w.state()
    n = 2 + len(set(w.std) | set(w.dep))
    k = c.int("failing request", 1, n)
    w.fail = (c.concrete(k), c.choice("failure", (404, 500, "connection")))
    sure = c.flag("assume yes")
    o = w.update(assume_yes=sure)
    c.check(len(w.requests) < w.fail[0] or not o.ok, "failure not reported")
    c.check(w.asked == 0, "question without complete downloads")
    same_files(c, before, w.state(), "failed download")
    c.reach("failed")
    # complete the update later
    w.fail = None
    o = w.update(assume_yes=True)
    c.check(o.ok, f"updating fails ({o.kind}: {c.plain(o.message)[:200]})")
    w.check_updated(before, w.state())


def sequence(c):
    """Tables are standardized, updated, and deprecated"""
    w = World(c)
    end = c.choice("end of lines", ("\n", "\r\n"))
    w.end = end
    steps = 4 if c.thorough else 3
    for k in range(steps):
        w.std, w.dep = {}, {}
        there = c.choice(f"server {k}", ("no", "standardized", "deprecated"))
        if there != "no":
            # once deprecated, tables remain deprecated
            c.assume(there == "deprecated" or
                     "deprecated/" + A not in w.local)
            (w.std if there == "standardized" else w.dep)[A] = c.text(
                f"new {k}", (1,), CHARS)
        if c.flag(f"other {k}"):
            w.std[B] = c.text(f"other {k} new", (1,), CHARS)
        before = w.state()
        w.answer = c.choice(f"answer {k}", ("y", "n"))
        o = w.update()
        c.check(o.ok, f"updating fails ({o.kind}: {c.plain(o.message)[:200]})")
        after = w.state()
        if w.answer == "y":
            ch = w.changes()
            w.check_updated(before, after)
            for name, x, _ in ch:
                w.local[name] = x
                if name.startswith("deprecated/"):
                    w.local.pop(name[11:], None)
        else:
            same_files(c, before, after, "update canceled")


def aborted(c):
    """No answer is available"""
    w = world(c, [A])

    def ask():
        raise EOFError("no answer")
    c.answers(ask)
    before = w.state()
    o = w.update()
    c.check(o.ok or o.kind == "EOFError", f"fails ({o.kind})")
    same_files(c, before, w.state(), "update without answer")


NAMES = (("GLOBAL:Conventions", "SOFA", "rm", "", "attribute", ""),
         ("GLOBAL:Version", "2.1", "rm", "", "attribute", ""),
         ("GLOBAL:SOFAConventions", "{n}", "rm", "", "attribute", ""),
         ("GLOBAL:SOFAConventionsVersion", "{v}", "rm", "", "attribute", ""),
         ("GLOBAL:Comment", "{x}", "m", "", "attribute", ""),
         ("ListenerPosition", "[0 0 1]", "m", "IC, MC", "double", ""))


def package(c):
    """The folder of the package: conventions can be used after an update"""
    d = c.write_conventions()
    w = World(c, os.path.join(d, "conventions"))
    steps = c.choice("steps", (("standardized",), ("deprecated",),
                               ("standardized", "standardized"),
                               ("standardized", "deprecated"),
                               ("standardized", "no"),
                               ("deprecated", "deprecated")))
    x = None
    for k, there in enumerate(steps):
        w.std, w.dep = {}, {}
        if there != "no":
            x = c.text(f"new {k}", (1,), CHARS)
            (w.std if there == "standardized" else w.dep)["Ab_1.3"] = x
        w.table = lambda x: "".join(
            "\t".join(cell.format(n="Ab", v="1.3", x=x) if "{" in cell
                      else cell for cell in row) + "\n"
            for row in (("Name", "Default", "Flags", "Dimensions", "Type",
                         "Comment"),) + NAMES)
        o = w.update(conventions_path=None, assume_yes=True)
        c.check(o.ok, f"update fails ({o.kind}: {c.plain(o.message)[:200]})")
    deprecated = "deprecated" in steps
    o = c.attempt(c.sf.Sofa, "Ab", version="1.3", verify=False)
    c.check(o.ok, f"unknown convention ({o.kind}: "
            f"{c.plain(o.message)[:200]})")
    c.check(c.same_text(o.value.GLOBAL_Comment, x), "table in use")
    c.check(o.value.GLOBAL_SOFAConventions == "Ab" and
            o.value.GLOBAL_SOFAConventionsVersion == "1.3", "convention")
    c.check(c.eq(c.np.squeeze(o.value.ListenerPosition), c.np.array(
                [0., 0., 1.])), "values")
    p = os.path.join(d, "conventions", "Ab_1.3.json")
    q = os.path.join(d, "conventions", "deprecated", "Ab_1.3.json")
    c.check(os.path.isfile(p) != deprecated and
            os.path.isfile(q) == deprecated, "folder of the table")


def cases(tier):
    return [Case("one", one), Case("two", two), Case("excluded", excluded),
            Case("failing", failing), Case("sequence", sequence),
            Case("aborted", aborted), Case("package", package)]
