"""C27: congruency of both sources of the conventions."""
import os
from sx.run import Case
from sx.env import ASCII
from props.common import *

ASSUMPTIONS = [
    "the servers answer, list every table once (links have a target), and "
    "list at least one table",
]

HERE = "https://www.sofaconventions.org/conventions/"
TREE = "https://github.com/sofacoustics/SOFAtoolbox/tree/{}/SOFAtoolbox/" \
    "conventions/"
RAW = "https://raw.githubusercontent.com/sofacoustics/SOFAtoolbox/{}/" \
    "SOFAtoolbox/conventions/"
NAMES = ("Ab_1.0", "GeneralAb_1.0", "General_1.0", "A-b2_0.3",
         "GeneralString_0.2")
CHARS = ((65, 70), (97, 102), (32, 32))


class Server:
    def __init__(self, c, branch="master"):
        self.c, self.branch = c, branch
        self.site, self.toolbox = {}, {}
        self.loaded = []
        self.page = "plain"
        c.network(self.serve)

    def serve(self, url):
        c = self.c
        if url == HERE:
            x = "<a href='../'>up</a><a href='a.txt'>a</a>" + "".join(
                {"plain": f'<a href="{n}.csv">{n}</a>',
                 "full": f"<td><a href='/conventions/{n}.csv'>.csv</a></td>"}
                [self.page] for n in self.site)
            return x, x.encode()
        if url == TREE.format(self.branch):
            x = '{"items": ["SOFAtoolbox/conventions/readme.txt",' + ",".join(
                f'{{"path":"SOFAtoolbox/conventions/{n}.csv"}}'
                for n in self.toolbox) + "]}"
            return x, x.encode()
        for base, tables in ((HERE, self.site),
                             (RAW.format(self.branch), self.toolbox)):
            if url.startswith(base):
                n = url[len(base):-4]
                c.check(n in tables, f"{url} requested")
                self.loaded.append(n)
                return tables[n], tables[n].encode()
        c.check(False, f"{url} requested")

    def run(self, *a, **k):
        m = self.c.mod("update_conventions")
        return self.c.attempt(m._check_congruency, *a, **k)


def used(tables):
    return [n for n in tables
            if not n.startswith(("General_", "GeneralString_"))]


def check_report(c, s, o, folder=None, different=()):
    """different: conditions that the tables on both sides differ"""
    c.check(o.ok, f"fails ({o.kind}: {c.plain(o.message)[:200]})")
    lines = c.plain(o.text).split("\n")
    site, box = used(s.site), used(s.toolbox)
    wanted = []
    for n in site:
        if n not in box:
            wanted.append(f"- {n}.csv is missing in SOFAtoolbox")
    for n in box:
        if n not in site:
            wanted.append(f"- {n}.csv is missing on sofaconventions.org")
    differ = False
    for n in site:
        if n in box:
            x = f"- {n}.csv differs across platforms"
            d = different[n]
            c.check(c.iff(d, lines.count(x) == 1),
                    f"differences of {n}" if x not in lines else
                    f"{n} does not differ")
            differ = c.disj(differ, d)
    for x in wanted:
        c.check(lines.count(x) == 1, f"not reported once: {x}")
    for x in lines:
        c.check(not x.startswith("-") or x in wanted or
                x.endswith("differs across platforms"),
                f"reported: {x}")
    c.check(c.iff(c.disj(differ, bool(wanted)), len(o.text.strip()) > 0),
            "report without differences or no report")
    if folder is None:
        return
    for sub, tables in (("sofaconventions", s.site),
                        ("sofatoolbox", s.toolbox)):
        p = os.path.join(folder, sub)
        c.check(os.path.isdir(p), "no folder")
        files = os.listdir(p)
        for n in site:
            if n in box:
                c.check(c.iff(different[n], n + ".csv" in files),
                        "saved tables")
            else:
                c.check(n + ".csv" not in files, "saved tables")
            if n + ".csv" in files:
                with c.open(os.path.join(p, n + ".csv"), "r",
                            newline="") as f:
                    c.check(c.same_text(stripped(f.read()),
                                        stripped(tables[n])),
                            "content of saved tables")
        c.check(all(f[:-4] in site for f in files), "other saved files")


def stripped(x):
    """Table without line ends and trailing tabs"""
    return "\n".join([line.strip("\r\t") for line in x.split("\n")])


def table(x, end="\n"):
    return "Name\tDefault" + end + "GLOBAL:Ab\t" + x + end


def rows(c, name, n):
    """Texts that are in the rows of a table"""
    return [c.text(f"{name} {k}", (1, 2) if k == 0 else (1,), CHARS)
            for k in range(n)]


def many(x, end="\n"):
    return "Name\tDefault" + end + "".join([i + end for i in x])


def listed(c):
    """Tables that are missing on either side, any order"""
    s = Server(c, c.choice("branch", ("master", "develop")))
    s.page = c.choice("page", ("plain", "full"))
    n = 5 if c.thorough else 4
    for k in range(n):
        name = NAMES[k]
        where = c.choice("where " + name, ("both", "site", "toolbox"))
        if where != "toolbox":
            s.site[name] = table("x")
        if where != "site":
            s.toolbox[name] = table("x")
    if c.flag("reverse"):
        s.toolbox = dict(reversed(list(s.toolbox.items())))
    c.assume(bool(s.site) and bool(s.toolbox))
    o = s.run(branch=s.branch) if s.branch != "master" else s.run()
    check_report(c, s, o, None, {n: False for n in NAMES})
    c.check(sorted(s.loaded) == sorted(2 * [
        n for n in used(s.site) if n in s.toolbox]), "loaded tables")


def content(c):
    """Tables with different content, line ends, and trailing tabs"""
    s = Server(c)
    different = {}
    for k, n in enumerate(NAMES[:2]):
        m = 2 - k if not c.thorough else 2
        x, y = rows(c, f"site {k}", m), rows(c, f"toolbox {k}", m)
        ends = ("\n", "\r\n", "\t\n", "\t\t\r\n") if k == 0 else ("\n",)
        s.site[n] = many(x, c.choice(f"site end {k}", ends))
        s.toolbox[n] = many(y, c.choice(f"toolbox end {k}", ends))
        different[n] = c.neg(c.conj(*[
            len(i) == len(j) and c.same_text(i, j) for i, j in zip(x, y)]))
    folder = None
    if c.flag("save"):
        folder = c.path("diverging")
        os.mkdir(folder)
    check_report(c, s, s.run(folder), folder, different)


def several(c):
    """Any number of tables with and without differences"""
    s = Server(c)
    different = {}
    for k, n in enumerate(("Ab_1.0", "Cd_1.0", "Ef_1.0", "Gh_1.0",
                           "Ij_1.0", "Kl_1.0")[:6 if c.thorough else 4]):
        x = rows(c, f"site {k}", 1)
        s.site[n], s.toolbox[n] = many(x), many(["ab"])
        different[n] = c.neg(len(x[0]) == 2 and c.same_text(x[0], "ab"))
    s.site["Mn_1.0"] = many(["a"])
    folder = None
    if c.flag("save"):
        folder = c.path("diverging")
        os.mkdir(folder)
    check_report(c, s, s.run(folder), folder, different)


def folders(c):
    """The folder for diverging tables"""
    s = Server(c)
    s.site["Ab_1.0"] = table(c.text("site", (1,), CHARS))
    s.toolbox["Ab_1.0"] = table("a")
    d = {"Ab_1.0": c.neg(c.same_text(s.site["Ab_1.0"], s.toolbox["Ab_1.0"]))}
    kind = c.choice("folder", ("no", "file", "empty", "one", "both"))
    f = c.path("diverging")
    if kind == "file":
        with c.open(f, "w") as fid:
            fid.write("text")
    elif kind != "no":
        os.mkdir(f)
        for x in ("sofaconventions", "sofatoolbox")[
                :("empty", "one", "both").index(kind)]:
            os.mkdir(os.path.join(f, x))
    o = s.run(f)
    if kind in ("no", "file"):
        c.check(o.raised(ValueError), "no error for a missing folder")
        c.check(s.loaded == [], "tables are loaded")
        c.reach("error")
        return
    check_report(c, s, o, f, d)


def nothing(c):
    """Pages that list no tables"""
    s = Server(c)
    side = c.choice("empty", ("site", "toolbox", "both"))
    if side == "toolbox":
        s.site["Ab_1.0"] = table("a")
    elif side == "site":
        s.toolbox["Ab_1.0"] = table("a")
    o = s.run()
    c.check(o.raised(ValueError), "no error for an empty page")
    c.check(s.loaded == [], "tables are loaded")


def cases(tier):
    return [Case(f.__name__, f) for f in (listed, content, several, folders,
                                             nothing)]
