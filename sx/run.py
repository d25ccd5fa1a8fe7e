"""Runs the check of one property.

    python3-vt -m sx.run C01 [--tier quick|thorough] [--case NAME] [--jobs N]
    python3-vt -m sx.run C01 --replay replay/C01.json

All cases of the property are explored path by path (see core.Engine); each
finished path is replayed with concrete values on an unmodified copy of the
code under test; a candidate violation counts only if it shows up there too.
"""
import argparse
import contextlib
import io
import json
import multiprocessing as mp
import os
import queue
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"


class Case:
    def __init__(self, name, fn, budget=None, replay=True, weight=1,
                 max_decisions=4000, timeout_ms=8000, bounds=""):
        self.name, self.fn, self.replay = name, fn, replay
        self.budget, self.weight = budget, weight
        self.max_decisions, self.timeout_ms = max_decisions, timeout_ms
        self.bounds = bounds or (fn.__doc__ or "").strip()


class Timeout(Exception):
    pass


PLACES = None
CASES = None


def setup_paths():
    if SITE not in sys.path:
        sys.path.append(SITE)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)


def load_property(pid):
    from . import load
    load.load_harness(os.path.join(VERIF, "props", "common.py"),
                      "props.common")
    return load.load_harness(
        os.path.join(VERIF, "props", pid.lower() + ".py"),
        "props." + pid.lower())


def on_alarm(*a):
    from . import core
    e = core.E
    if e is not None:
        e.dead = core.Abort("limit", "time limit of one path")
        raise e.dead
    raise Timeout("time limit of one run")


def real_run(case, inputs, tier, seconds=60, fill=None):
    """-> (verdict, message, trace); verdict: ok failed skipped error"""
    from . import env
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(seconds)
    c = None
    try:
        c = env.RealCtx(PLACES, inputs, tier, fill)
        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            case.fn(c)
        return "ok", "", c.trace
    except env.Failed as f:
        return "failed", f.msg, c.trace
    except env.Skip as s:
        return "skipped", str(s), c.trace if c else []
    except Timeout as x:
        return "error", str(x), c.trace if c else []
    except Exception as x:
        at = [f for f in traceback.extract_tb(x.__traceback__)
              if f.filename.startswith(PLACES.real)]
        if at and c is not None:
            # a call that the check takes to succeed
            return "failed", (
                f"unexpected {type(x).__name__} in {at[-1].name}: "
                f"{str(x)[:200]}"), c.trace
        last = traceback.extract_tb(x.__traceback__)[-1]
        if isinstance(x, (IndexError, ValueError)) and fill is None and \
                os.path.dirname(last.filename).endswith("props"):
            # (a printed text without the expected lines, for instance)
            return "failed", (
                f"result without the expected form ({type(x).__name__}: "
                f"{str(x)[:100]} in line {last.lineno} of "
                f"{os.path.basename(last.filename)})"), c.trace if c else []
        return "error", traceback.format_exc(limit=-6), c.trace if c else []
    finally:
        signal.alarm(0)
        if c is not None:
            c.close()


def explore(case_name, prefixes, tier, seed, slice_s, deadline):
    """Explore for some seconds; return the outcome and what is left."""
    from . import core, env, load
    case = CASES[case_name]
    stats = core.Stats()
    stats.nodes = 0
    res = {"case": case_name, "violations": [], "spurious": [],
           "inconclusive": {}, "validated": 0, "mismatch": [],
           "concrete": 0, "skipped": 0, "samples": [], "reach": [],
           "outcomes": {},
           "real_errors": [], "functions": {}}
    reach = set()
    stack = list(prefixes)
    t_end = min(time.time() + slice_s, deadline)
    first = True

    def inconclusive(why):
        why = re.sub(r"\s+", " ", str(why))[:160]
        res["inconclusive"][why] = res["inconclusive"].get(why, 0) + 1

    while stack and (first or time.time() < t_end):
        first = False
        prefix = stack.pop()
        eng = core.Engine(prefix, stats, seed=seed,
                          timeout_ms=case.timeout_ms,
                          max_decisions=case.max_decisions,
                          deadline=deadline)
        load.FUNCTIONS.clear()
        c, crash = None, None
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(120)
        try:
            core.set_engine(eng)
            c = env.SymCtx(PLACES, eng, tier)
            case.fn(c)
        except core.Abort as x:
            if x.kind in ("unsupported", "limit") and \
                    os.environ.get("SX_DEBUG"):
                traceback.print_exc(limit=-12)
        except Exception:
            crash = traceback.format_exc(limit=-8)
        finally:
            signal.alarm(0)
            core.set_engine(None)
            if c is not None:
                c.close()
        stack.extend(reversed(eng.alternatives))
        stats.paths += 1
        stats.nodes += len(eng.trail) - max(0, len(prefix) - 1)
        for f, line in load.FUNCTIONS.items():
            res["functions"][f] = line
        dead = eng.dead
        kind = dead.kind if dead is not None else "done"
        if kind == "infeasible":
            stats.infeasible += 1
            continue
        reach |= eng.notes.get("reach", set())
        for why in eng.inconclusive:
            inconclusive(why)
        if crash is not None:
            inconclusive("harness or model error: " +
                         crash.strip().splitlines()[-1])
            if os.environ.get("SX_DEBUG"):
                print(crash, flush=True)
        if kind in ("unsupported", "limit"):
            stats.aborted += 1
            inconclusive(f"{kind}: {dead.why}")
        # candidates first
        failed = False
        for msg, inputs in eng.candidates:
            if inputs is None:
                inconclusive("no witness for: " + msg)
                continue
            v, m, tr = real_run(case, inputs, tier)
            if v == "failed":
                failed = True
                res["violations"].append(
                    {"case": case_name, "message": m, "inputs": inputs,
                     "predicted": msg})
            else:
                inconclusive("counterexample of the model that the real "
                             "code does not confirm: " + msg)
                res["spurious"].append(
                    {"message": msg, "inputs": inputs, "real": v + " " + m})
        if failed or not case.replay:
            continue
        # the path itself, on the real code
        w = None
        eng.dead = None
        eng.deadline = None
        if time.time() < deadline:
            core.set_engine(eng)
            try:
                w = eng.witness()
            except BaseException as x:      # noqa: BLE001
                inconclusive(f"no witness: {x}")
            finally:
                core.set_engine(None)
        if w is None:
            continue
        if kind in ("unsupported", "limit") or crash is not None:
            # the rest of the path can not be encoded: concrete runs of the
            # real code with some of the inputs that lead there
            for fill, w in enumerate(others(eng, w, res)):
                v, m, tr = real_run(case, w, tier, fill=fill)
                res["concrete"] += 1
                if v == "failed":
                    res["violations"].append(
                        {"case": case_name, "message": m, "inputs": w,
                         "predicted": "(found in a run of a path that can "
                                      "not be encoded)"})
                    break
                elif v == "error":
                    res["real_errors"].append(m[-400:])
            if len(res["violations"]) >= 3:
                break
            continue
        v, m, tr = real_run(case, w, tier)
        if v == "failed":
            res["violations"].append(
                {"case": case_name, "message": m, "inputs": w,
                 "predicted": "(found in the replay of a path)"})
        elif v == "skipped":
            res["skipped"] += 1
        elif v == "error":
            res["real_errors"].append(m[-400:])
            inconclusive("harness error in concrete run: " +
                         m.strip().splitlines()[-1])
        else:
            if kind == "done" and crash is None:
                if tr == c.trace:
                    res["validated"] += 1
                else:
                    inconclusive("outcome on the real code differs from "
                                 "the model")
                    res["mismatch"].append(
                        {"inputs": w, "model": c.trace, "real": tr})
            key = " ".join(tr)[:80]
            res["outcomes"][key] = res["outcomes"].get(key, 0) + 1
            if len(res["samples"]) < 2:
                res["samples"].append({"case": case_name, "inputs": w,
                                       "outcome": tr})
        if len(res["violations"]) >= 3:
            break
    res["left"] = stack
    res["reach"] = sorted(reach)
    res["stats"] = stats.dict()
    res["stats"]["nodes"] = stats.nodes
    return res


def others(eng, first, res):
    """Inputs that lead to the end of a path that can not be encoded."""
    from . import core
    yield first
    if res["concrete"] > 300:
        return
    core.set_engine(eng)
    try:
        ws = list(eng.witnesses(6))
    except BaseException:       # noqa: BLE001
        ws = []
    finally:
        core.set_engine(None)
    yield from ws


def worker(tasks, results, pid, tier, seed, deadline):
    global PLACES, CASES
    os.environ["PYTHONHASHSEED"] = "0"
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        from . import env
        PLACES = env.Places()
    except Exception:
        results.put(("fatal", traceback.format_exc(limit=-6)))
        return
    try:
        CASES = {c.name: c for c in load_property(pid).cases(tier)}
        while True:
            t = tasks.get()
            if t is None:
                break
            name, prefixes, slice_s = t
            try:
                results.put(("done", explore(name, prefixes, tier, seed,
                                             slice_s, deadline)))
            except BaseException:       # noqa: BLE001
                results.put(("error", (name,
                                       traceback.format_exc(limit=-8))))
    finally:
        PLACES.remove()


def merge(total, r):
    t = total.setdefault(r["case"], {
        "stats": {}, "violations": [], "spurious": [], "inconclusive": {},
        "validated": 0, "mismatch": [], "skipped": 0, "samples": [],
        "concrete": 0, "reach": set(), "outcomes": {}, "real_errors": [], "functions": {},
        "unexplored": 0})
    for k, v in r["stats"].items():
        t["stats"][k] = t["stats"].get(k, 0) + v
    for k in ("violations", "spurious", "mismatch", "real_errors"):
        t[k] += r[k]
    if len(t["samples"]) < 2:
        t["samples"] += r["samples"][:2 - len(t["samples"])]
    for k in ("inconclusive", "outcomes"):
        for a, n in r[k].items():
            t[k][a] = t[k].get(a, 0) + n
    t["validated"] += r["validated"]
    t["skipped"] += r["skipped"]
    t["concrete"] += r["concrete"]
    t["reach"] |= set(r["reach"])
    t["functions"].update(r["functions"])


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def is_known(pid, v, known):
    for k in known:
        if k["property"] == pid and k["case"] == v["case"] and \
                re.search(k["message"], v["message"]) and \
                all(v["inputs"].get(a) == b
                    for a, b in k.get("inputs", {}).items()):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid, tier = a.property, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup_paths()
    t0 = time.time()
    if a.replay:
        return replay(pid, a.replay)
    budget = a.budget or (240 if tier == "quick" else 2400)
    deadline = t0 + budget
    from . import env                      # noqa: F401  (before the fork)
    mod = load_property(pid)
    cases = {c.name: c for c in mod.cases(tier)}
    if a.case:
        cases = {k: c for k, c in cases.items() if re.search(a.case, k)}
    known = known_findings()
    total, open_tasks = {}, 0
    tasks, results = mp.Queue(), mp.Queue()
    jobs = a.jobs
    procs = [mp.Process(target=worker, daemon=True,
                        args=(tasks, results, pid, tier, seed, deadline))
             for _ in range(jobs)]
    for p in procs:
        p.start()
    slice0 = 1.0
    for c in sorted(cases.values(), key=lambda c: -c.weight):
        tasks.put((c.name, [[]], slice0))
        open_tasks += 1
    violations, findings, errors = [], {}, []
    fatal = 0
    hard_end = deadline + 150
    while open_tasks and fatal < jobs:
        try:
            what, r = results.get(timeout=5)
        except queue.Empty:
            if time.time() > hard_end or \
                    not any(p.is_alive() for p in procs):
                errors.append("a worker did not answer")
                break
            continue
        if what == "fatal":
            fatal += 1
            errors.append(r)
            continue
        open_tasks -= 1
        if what == "error":
            errors.append(f"{r[0]}: {r[1]}")
            continue
        merge(total, r)
        for v in r["violations"]:
            k = is_known(pid, v, known)
            if k is not None:
                findings[k["what"]] = findings.get(k["what"], 0) + 1
            else:
                violations.append(v)
        if violations and not a.v:
            break
        left = r["left"]
        if left:
            if time.time() < deadline:
                # hand out the oldest (largest) parts separately
                n = min(len(left), 4)
                for i in range(n):
                    tasks.put((r["case"], left[i::n], 3.0))
                    open_tasks += 1
            else:
                total[r["case"]]["unexplored"] += len(left)
    # nobody reads what is left in the queue
    tasks.cancel_join_thread()
    if violations or open_tasks:
        time.sleep(0.2)
    else:
        for p in procs:
            tasks.put(None)
        end = time.time() + 20
        for p in procs:
            p.join(timeout=max(0.1, end - time.time()))
    for p in procs:
        if p.is_alive():
            p.kill()
    for p in procs:
        p.join(timeout=5)
    clean_up(procs)
    wall = time.time() - t0
    finish(pid, tier, seed, mod, cases, total, violations, findings, errors,
           wall, known)
    if a.v:
        report(total, errors)
    for k in known:
        if k["property"] == pid and k["what"] in findings:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if violations:
        path = os.path.join(VERIF, "replay", f"{pid}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier,
                       "violations": violations[:5]}, f, indent=1)
        for v in violations[:5]:
            print(f"{v['case']}: {v['message']}"[:600].replace("\n", " "))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    n = sum(sum(t["inconclusive"].values()) for t in total.values())
    print(f"{pid}: held on everything explored "
          f"({sum(t['stats']['paths'] for t in total.values())} paths, "
          f"{wall:.0f} s" + (f", {n} inconclusive" if n else "") +
          (f", {len(errors)} errors" if errors else "") + ")")
    return 0


def clean_up(procs):
    """Folders of workers that were stopped."""
    import glob
    import shutil
    import tempfile
    pids = {p.pid for p in procs}
    for d in glob.glob(os.path.join(tempfile.gettempdir(), "sxw*")):
        try:
            with open(os.path.join(d, "pid")) as f:
                owner = int(f.read())
        except (OSError, ValueError):
            continue
        if owner in pids:
            shutil.rmtree(d, ignore_errors=True)


def finish(pid, tier, seed, mod, cases, total, violations, findings, errors,
           wall, known):
    s = {}
    for t in total.values():
        for k, v in t["stats"].items():
            s[k] = s.get(k, 0) + v
    inconclusive, functions = {}, {}
    for n, t in total.items():
        for why, k in t["inconclusive"].items():
            inconclusive[f"{n}: {why}"] = k
        functions.update(t["functions"])
    samples = [x for t in total.values() for x in t["samples"]][:12]
    per_case = {n: {
        "bounds": cases[n].bounds, "paths": t["stats"]["paths"],
        "infeasible": t["stats"]["infeasible"],
        "unexplored_branches": t["unexplored"],
        "assertions_decided": t["stats"]["checks"],
        "queries": t["stats"]["queries"],
        "replayed_and_agreeing": t["validated"],
        "replay_disagrees": len(t["mismatch"]),
        "replay_skipped": t["skipped"],
        "concrete_runs_of_paths_given_up": t["concrete"],
        "reached": sorted(t["reach"]),
        "outcomes": dict(sorted(t["outcomes"].items(),
                                key=lambda x: -x[1])[:8]),
        "complete": not t["unexplored"] and not t["inconclusive"] and
        not t["mismatch"],
    } for n, t in total.items()}
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "model_checking", "wall_s": round(wall, 2),
        "violations": len(violations),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        "coverage": {
            "states": s.get("nodes", 0),
            "transitions": s.get("decisions", 0),
            "traces_validated_against_impl":
                sum(t["validated"] for t in total.values()),
            "samples": samples,
            "paths": s.get("paths", 0),
            "paths_given_up": s.get("aborted", 0),
            "assertions_decided": s.get("checks", 0),
            "solver_queries": s.get("queries", 0),
            "solver_unknown": s.get("unknown", 0),
            "solver_s": round(s.get("solver_s", 0), 2),
            "functions_encoded": sorted(functions),
            "exhaustive": bool(total) and not errors and
            set(total) == set(cases) and
            all(c["complete"] for c in per_case.values()),
            "cases": per_case,
            "inconclusive": inconclusive,
            "spurious": [x for t in total.values()
                         for x in t["spurious"]][:5],
            "model_disagreements": [x for t in total.values()
                                    for x in t["mismatch"]][:5],
            "known_findings_seen": findings,
            "errors": errors[:5],
        }}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


COMMON = [
    "IEEE doubles are treated as reals (the code copies, reshapes and "
    "compares values; it computes nothing)",
    "numpy, netCDF4, re, json and the file functions are models; every "
    "explored path is replayed on the unmodified code with the real "
    "libraries, and disagreements are listed in the evidence",
    "the convention and rule tables are those of sx/fixture.py or symbolic "
    "ones, since the official tables are not part of this checkout",
]


def report(total, errors):
    for n, t in total.items():
        print(f"-- {n}: {t['stats']} unexplored={t['unexplored']} "
              f"validated={t['validated']} mismatch={len(t['mismatch'])} "
              f"skipped={t['skipped']} viol={len(t['violations'])} "
              f"reach={sorted(t['reach'])}")
        for k, v in list(t["inconclusive"].items())[:8]:
            print("   inconclusive:", k, v)
        for m in t["mismatch"][:2]:
            print("   mismatch:", json.dumps(m, default=str)[:400])
        for m in t["spurious"][:2]:
            print("   spurious:", json.dumps(m, default=str)[:500])
        for m in t["violations"][:1]:
            print("   violation:", json.dumps(m, default=str)[:500])
        for m in t["real_errors"][:2]:
            print("   real error:", m)
        for k, v in list(t["outcomes"].items())[:8]:
            print("   outcome:", k, v)
    for e in errors:
        print("ERROR", e)


def replay(pid, path):
    """Run the recorded inputs on the unmodified code."""
    global PLACES, CASES
    from . import env
    with open(path) as f:
        data = json.load(f)
    PLACES = env.Places()
    try:
        cases = {c.name: c for c in load_property(pid).cases(data["tier"])}
        bad = 0
        for v in data["violations"]:
            r, m, tr = real_run(cases[v["case"]], v["inputs"], data["tier"])
            print(f"case {v['case']}\n  inputs {v['inputs']}\n  {r}: {m}")
            bad += r == "failed"
        return 1 if bad else 0
    finally:
        PLACES.remove()


if __name__ == "__main__":
    # one module object only (python -m gives __main__)
    import importlib
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    code = importlib.import_module("sx.run").main()
    sys.stdout.flush()
    sys.stderr.flush()
    # (without waiting for queues that nobody reads)
    os._exit(code or 0)
