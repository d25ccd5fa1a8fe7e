"""Runs the check of its property against every planted bug.

python3 tools/measure.py [ID...]    in scratch copies of /repo and /verif
A name ID=C04 runs check C04 against bug ID.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", os.path.join(ROOT, "seeded"))


def main():
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    work = tempfile.mkdtemp(prefix="measure")
    repo, ver = os.path.join(work, "repo"), os.path.join(work, "verif")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns(
        ".git", "seeded", "evidence", "replay"))
    env = {**os.environ, "SX_REPO": repo, "VERIF_SEED": "1",
           "VERIF_TIER": "quick"}
    missed = []
    for i in ids:
        i, _, prop = i.partition("=")
        d = os.path.join(SEEDED, i)
        prop = prop or json.load(open(os.path.join(d, "meta.json")))[
            "property"]
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."],
                       check=True)
        subprocess.run(["git", "-C", repo, "apply",
                        os.path.join(d, "patch.diff")], check=True)
        t = time.time()
        r = subprocess.run([os.path.join(ver, "check.sh"), prop], cwd=ver,
                           env=env, capture_output=True, text=True)
        hit = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        print(f"{i:20} {prop} rc={r.returncode} {time.time() - t:5.0f} s "
              f"{len(hit)} violation(s)", flush=True)
        if r.returncode != 1 or not hit:
            missed.append(i)
            print("    ", r.stdout[-400:], r.stderr[-400:], flush=True)
    shutil.rmtree(work)
    print("not caught:", *missed)


main()
