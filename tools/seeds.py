"""Planted bugs: writes seeded/<id>/ from the list below and confirms each.

python3 tools/seeds.py [ID...]   (works in a scratch copy of /repo in /tmp)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "seeded")
BASE = "c41ad88"
STABLE = []
for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
    m, n = t.split("::")
    STABLE.append(m.replace(".", "/") + ".py::" + n)
SEEDS = {}

COMMON = '''"""Copy of the package with convention tables in a scratch folder."""
import os
import shutil
import sys
import tempfile
import atexit
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import fixture                                              # noqa: E402

TMP = tempfile.mkdtemp(prefix="seed")
atexit.register(shutil.rmtree, TMP, True)
PKG = os.path.join(TMP, "pkg")
os.mkdir(PKG)
shutil.copytree(os.path.join(os.getcwd(), "sofar"),
                os.path.join(PKG, "sofar"),
                ignore=shutil.ignore_patterns("sofa_conventions",
                                              "__pycache__"))
TABLES = os.path.join(PKG, "sofar", "sofa_conventions")


def tables(**kw):
    shutil.rmtree(TABLES, True)
    os.makedirs(TABLES)
    fixture.write(TABLES, **kw)


tables()
sys.path.insert(0, PKG)
warnings.simplefilter("ignore")
import numpy as np                                          # noqa: E402
import netCDF4 as nc                                        # noqa: E402
import sofar as sf                                          # noqa: E402


def path(name="a.sofa"):
    return os.path.join(TMP, name)


def hrir():
    s = sf.Sofa("SimpleFreeFieldHRIR")
    s.Data_IR = np.arange(24.).reshape(3, 2, 4)
    s.SourcePosition = np.arange(9.).reshape(3, 3)
    return s


def there_and_back(s, **kw):
    sf.write_sofa(path(), s)
    return sf.read_sofa(path(), verbose=False, **kw)


def fails(fn, *a, **k):
    """The error or None"""
    try:
        fn(*a, **k)
    except Exception as x:          # noqa: BLE001
        return x
    return None
'''

SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 HDF5_USE_FILE_LOCKING=FALSE
exec /opt/venv/bin/python "$here/demo.py"
'''


def seed(sid, prop, needs, breaks, demo, *edits):
    SEEDS[sid] = (prop, needs, breaks, demo, edits)


exec(open(os.path.join(ROOT, "tools", "seed_list.py")).read())


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    ids = sys.argv[1:] or list(SEEDS)
    work = tempfile.mkdtemp(prefix="seeds")
    repo = os.path.join(work, "repo")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    sh("git", "-C", repo, "checkout", "-q", "--", ".")
    ok = 0
    for sid in ids:
        prop, needs, breaks, demo, edits = SEEDS[sid]
        err = []
        old_lines = {}
        for f, old, new in edits:
            p = os.path.join(repo, "sofar", f)
            s = open(p).read()
            if s.count(old) != 1:
                err.append(f"{f}: {s.count(old)} times: {old!r}")
                continue
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(OUT, sid)
        if not err:
            diff = sh("git", "-C", repo, "diff", "--no-color").stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "common.py"), "w").write(COMMON)
            shutil.copy(os.path.join(ROOT, "sx", "fixture.py"), d)
            open(os.path.join(d, "demo.py"), "w").write(
                f'"""{breaks}"""\nfrom common import *\n\n' +
                demo.strip("\n") + "\n")
            open(os.path.join(d, "demo.sh"), "w").write(SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": prop, "needs": needs,
                       "what_it_breaks": breaks},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            # removed lines must be original ones
            u0 = sh("git", "-C", repo, "diff", "-U0", "--no-color").stdout
            f, minus = None, 0
            for line in u0.splitlines():
                if line.startswith("--- "):
                    f = line[6:]
                elif line.startswith("@@"):
                    a = line.split()[1][1:].split(",")
                    start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(start, start + n):
                        minus += 1
                        b = sh("git", "-C", repo, "blame", "-s", "-L",
                               f"{k},{k}", "HEAD", "--", f).stdout
                        if not b.lstrip("^").startswith(BASE[:7]):
                            err.append(f"not original: {b.strip()}")
            if not minus:
                err.append("only adds lines")
            demo_sh = os.path.join(d, "demo.sh")
            env = {**os.environ}
            r = sh("bash", demo_sh, cwd=repo, env=env)
            if r.returncode == 0:
                err.append("demo passes with the change")
            t = sh("/opt/venv/bin/python", "-m", "pytest", "-q",
                   "-p", "no:cacheprovider", *STABLE, cwd=repo,
                   env={**env, "PYTHONDONTWRITEBYTECODE": "1"})
            if "8 passed" not in t.stdout:
                err.append("stable tests: " + t.stdout[-600:])
            sh("git", "-C", repo, "checkout", "-q", "--", ".")
            r = sh("bash", demo_sh, cwd=repo, env=env)
            if r.returncode:
                err.append("demo fails without the change: " +
                           r.stderr[-600:])
            r = sh("git", "-C", repo, "apply", "--check",
                   os.path.join(d, "patch.diff"))
            if r.returncode:
                err.append("does not apply")
        sh("git", "-C", repo, "checkout", "-q", "--", ".")
        if err:
            print(sid, "NOT CONFIRMED", *err, sep="\n   ")
            shutil.rmtree(d, True)
        else:
            ok += 1
    shutil.rmtree(work)
    print(ok, "of", len(ids), "confirmed")


main()
