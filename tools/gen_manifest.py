"""Writes MANIFEST.json from properties.jsonl, the property modules, and the
notes below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = (
    "dynamic symbolic execution of the real Python source (AST "
    "instrumentation, z3) over all paths within bounds; every path replayed "
    "on the unmodified code")
NOTES = {}
NOT_APPLICABLE = {}


def note(pid):
    return NOTES.get(pid, (
        "Bounded: every feasible path of the harness cases is explored and "
        "each assertion is decided by z3 for all values within the bounds "
        "listed per case in the evidence (sizes of numeric dimensions are "
        "unbounded unless stated, texts have up to a few characters). "
        "numpy, netCDF4, json, re and file access are models that are "
        "compared to the real libraries on every explored path."))


def main():
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        ids = [json.loads(x)["id"] for x in f if x.strip()]
    checks, na = [], []
    for pid in ids:
        if os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": f"./check.sh {pid} --tier quick",
                "thorough_cmd": f"./check.sh {pid} --tier thorough",
                "technique": TECHNIQUE, "level": "model_checking",
                "level_note": note(pid)})
        else:
            na.append({"property": pid, "reason": NOT_APPLICABLE.get(
                pid, "no check yet (work in progress)")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
         "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
