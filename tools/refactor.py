"""Applies edits that keep the behaviour and runs all checks, which have to
stay quiet.

python3 tools/refactor.py NAME[,NAME...]|all [CHECK...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFS = {}
STABLE = []
for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
    m, n = t.split("::")
    STABLE.append(m.replace(".", "/") + ".py::" + n)


def ref(name, *edits):
    REFS[name] = edits


for _n in ("refactor_list.py", "refactor_list2.py",
           "refactor_list3.py", "refactor_list4.py"):
    exec(open(os.path.join(ROOT, "tools", _n)).read())


def main():
    names = list(REFS) if sys.argv[1] == "all" else sys.argv[1].split(",")
    checks = sys.argv[2:] or [f"C{k:02}" for k in range(1, 40) if
                              os.path.exists(os.path.join(
                                  ROOT, "props", f"c{k:02}.py"))]
    work = tempfile.mkdtemp(prefix="refactor")
    repo, ver = os.path.join(work, "repo"), os.path.join(work, "verif")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
    shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns(
        ".git", "seeded", "evidence", "replay"))
    for n in names:
        for f, old, new in REFS[n]:
            p = os.path.join(repo, "sofar", f)
            s = open(p).read()
            if s.count(old) < 1:
                s = "".join(x for x in s.splitlines(True)
                            if not x.strip().startswith("#"))
                old, new = ("".join(x for x in y.splitlines(True) if not
                                    x.strip().startswith("#"))
                            for y in (old, new))
            if s.count(old) < 1:
                sys.exit(f"{n}: not found in {f}: {old}")
            open(p, "w").write(s.replace(old, new, 1))
    t = subprocess.run(
        ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
         "no:cacheprovider", *STABLE], cwd=repo, capture_output=True,
        text=True, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
    if "8 passed" not in t.stdout:
        print(t.stdout[-2000:])
    env = {**os.environ, "SX_REPO": repo, "VERIF_SEED": "1",
           "VERIF_TIER": "quick"}
    for c in checks:
        t = time.time()
        r = subprocess.run([os.path.join(ver, "check.sh"), c], cwd=ver,
                           env=env, capture_output=True, text=True)
        print(c, r.returncode, f"{time.time() - t:.0f} s", [
            x[:300] for x in r.stdout.splitlines() if "held" in x or
            "VIOLATION" in x], r.stderr[-300:], flush=True)
        try:
            ev = json.load(open(os.path.join(ver, "evidence", c + ".json")))
            for k, n in list(ev["coverage"]["inconclusive"].items())[:12]:
                print("     ", n, k[:150], flush=True)
            if r.returncode:
                print(r.stdout[-1500:], flush=True)
        except OSError:
            pass
    if "KEEP" not in os.environ:
        shutil.rmtree(work)
    else:
        print(work)


main()
