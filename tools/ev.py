"""Summary of an evidence file: python3 tools/ev.py C18"""
import json
import sys
for k in sys.argv[1:]:
    d = json.load(open(f"/verif/evidence/{k}.json"))
    c = d["coverage"]
    print(k, d["tier"], d["wall_s"], "s", "violations", d["violations"],
          "paths", c["paths"], "exhaustive", c["exhaustive"])
    for n, v in c["cases"].items():
        print("  ", n, {x: v[x] for x in (
            "paths", "infeasible", "unexplored_branches", "queries",
            "replayed_and_agreeing", "replay_disagrees", "complete")},
            v["reached"], str(v["outcomes"])[:200])
    for n in ("inconclusive", "spurious", "model_disagreements",
              "known_findings_seen", "errors"):
        if c[n]:
            print("  ", n, str(c[n])[:1500])
