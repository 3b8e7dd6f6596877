#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []  # (id, title, statement, over, quantifier text, why tests can't, files, mechanism, observe_at)
NOTE = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mechanism, observe_at="", note="", na=""):
    P.append((id, title, statement, over, text, why, files, mechanism, observe_at))
    NOTE[id] = note
    if na:
        NA[id] = na


exec(open(os.path.join(V, "meta_props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for id, title, st, over, text, why, files, mech, obs in P:
        assert len(title) <= 80, (id, len(title))
        a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
        if obs:
            a["observe_at"] = [obs]
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "the checks compile /repo's unmodified sources with AddressSanitizer and KOKKOS_ENABLE_DEBUG_BOUNDS_CHECK; no guarded code was added to /repo", "source_commits": []}}
for p in P:
    id = p[0]
    if id in NA:
        m["not_applicable"].append({"property": id, "reason": NA[id]})
    else:
        m["checks"].append({"property": id, "quick_cmd": "python3 run.py %s quick" % id, "thorough_cmd": "python3 run.py %s thorough" % id,
                            "technique": "bounded-exhaustive model checking of the real code against a reference model",
                            "level": "model_checking", "level_note": NOTE[id]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
