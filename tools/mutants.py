"""Runs checks against many small faults (tools/mutant_list.py).

python3 tools/mutants.py [NAME...]   in scratch copies of /repo and /verif
"""
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
MUTANTS = []


def mut(name, checks, *edits):
    MUTANTS.append((name, checks.split(), edits))


def main():
    lists = [f for f in sorted(os.listdir(HERE))
             if f.startswith(os.environ.get("LIST", "mutant_list"))]
    for f in lists:
        with open(os.path.join(HERE, f)) as fid:
            exec(fid.read(), {"mut": mut})
    want = sys.argv[1:]
    shard = [int(x) for x in os.environ.get("SHARD", "0/1").split("/")]
    work = tempfile.mkdtemp(prefix="mutants")
    repo, ver = os.path.join(work, "repo"), os.path.join(work, "verif")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns(
        ".git", "seeded", "evidence", "replay"))
    env = {**os.environ, "SX_REPO": repo, "VERIF_SEED": "1",
           "VERIF_TIER": "quick"}
    missed, count = [], -1
    for name, checks, edits in MUTANTS:
        if want and not any(name.startswith(w) for w in want):
            continue
        count += 1
        if count % shard[1] != shard[0]:
            continue
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."],
                       check=True)
        bad = False
        for f, old, new in edits:
            p = os.path.join(repo, "sofar", f)
            with open(p) as fid:
                s = fid.read()
            if old not in s:
                print(f"{name}: not found in {f}: {old}")
                bad = True
            with open(p, "w") as fid:
                fid.write(s.replace(old, new, 1))
        if bad:
            continue
        for c in checks:
            t = time.time()
            r = subprocess.run([os.path.join(ver, "check.sh"), c], cwd=ver,
                               env=env, capture_output=True, text=True)
            hit = [x for x in r.stdout.splitlines()
                   if x.startswith("VIOLATION")]
            ok = r.returncode == 1 and hit
            print(f"{name:24} {c} rc={r.returncode} "
                  f"{time.time() - t:4.0f} s {'caught' if ok else 'MISSED'}",
                  flush=True)
            if ok and "FIRST" in os.environ:
                break
            if not ok:
                missed.append(f"{name}={c}")
                print("    ", r.stdout[-300:], r.stderr[-300:], flush=True)
    shutil.rmtree(work)
    print("not caught:", *missed)


main()
