"""Writes MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(
            property=i,
            quick_cmd="python3-vt run.py %s quick" % i,
            thorough_cmd="python3-vt run.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the real Python code with z3 deciding path feasibility and every obligation; counterexamples replayed on the concrete code",
            level="model_checking",
            level_note="Holds for every value within the bounds listed per case in the evidence (sizes, steps, parties), on exact real/integer arithmetic; "
                       "floating-point rounding is covered only through the replayed solver models. Trusts z3, the symbolic stand-ins for numpy/math/random/protobuf "
                       "(validated by concrete runs of sampled paths) and the oracle in checks/%s.py." % i.lower()))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy'", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
