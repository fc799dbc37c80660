#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand).  CLAIMED: property -> (technique, note)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
REL = ("abstract interpretation in a tensor-normal-form domain with inductive loop summaries; ", "relational analysis of the value graph")
BASE = ("Every obligation is decided on normal forms computed from /repo's current source (all paths of all the entry points "
        "listed in the evidence file). Real-number semantics: floating-point rounding is outside. Trusted: the analyser and its "
        "model of numpy/scipy/sklearn/pymanopt. Equalities that the normal form leaves open are decided by random interpretation "
        "of the two terms (Gulwani-Necula) with a fixed seed, counted separately in the evidence; a construct outside the model leaves its obligations undecided: they are printed and counted in the evidence as not covered, and the check exits 2 when they are the majority.")
T = "abstract interpretation (value numbering in a tensor-normal-form domain, trace partitioning, inductive loop summaries)"
CLAIMED = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
NA = {
 "N01": "Convergence of the iterations is a limit statement about runtime quantities (contraction rates over all data); no dataflow, effect or normal-form argument bounds it. The one-step map and the stopping rule are decided under C08, C09, C10 and C12.",
 "N02": "Consistency is asymptotic in the number of samples and floating-point accuracy depends on runtime conditioning; no sound static argument in reach bounds either.",
 "N03": "The outcome of pymanopt's line searches on a non-quadratic cost is a runtime quantity; statically decidable parts (cost, gradient, metric) are covered by C11, S02, G01-G05.",
}
checks, na = [], []
for q in props:
    i = q["id"]
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "python3-vt sa/run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt sa/run.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T + "; " + tech, "level": "other",
                       "level_note": note + " " + BASE})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet: the static analysis for this property is not finished.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
