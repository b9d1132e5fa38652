"""Rewrites properties.jsonl and MANIFEST.json from catalog.py."""
import json, os, subprocess
import catalog
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def row(c):
    return {"id": c["id"], "title": c["title"], "statement": c["statement"], "quantifier": {"over": c["over"], "text": c["qtext"]}, "why_tests_cant": c["why"],
            "anchors": {"files": c["files"], "mechanism": [{"name": a, "where": b} for a, b in c["mech"]]}}
rows = sorted(catalog.C + catalog.NA, key=lambda c: c["id"])
for c in rows: assert len(c["title"]) <= 80, c["id"]
open(V + "/properties.jsonl", "w").write("".join(json.dumps(row(c), ensure_ascii=False) + "\n" for c in rows))
man = {"version": 1, "setup_cmd": "python3 lib/build.py engine ir replay_bin:dev replay_bin:release",
       "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (set by lib/build.py)", "source_commits": ["41c9ce9", "20ee4f3"]},
       "checks": [{"property": c["id"], "quick_cmd": "python3 check.py %s quick" % c["id"], "thorough_cmd": "python3 check.py %s thorough" % c["id"],
                   "technique": "solver-based symbolic execution (rsym + z3) of the real code's LLVM IR", "level": "model_checking",
                   "level_note": "Every path and every value within the bounds is decided by the solver; counterexamples are replayed against native builds. Bounds: %s.%s%s Trusts the IR semantics of the engine, cross-checked by replaying sampled paths natively, and its allocator model." % (c["bounds"], (" Thorough: %s." % c["tb"]) if c["tb"] else "", (" " + c["note"]) if c["note"] else "")} for c in catalog.C],
       "not_applicable": [{"property": c["id"], "reason": c["reason"]} for c in catalog.NA]}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(V + "/MANIFEST.json", "a").write("\n")
