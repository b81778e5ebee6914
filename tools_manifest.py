#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (run by hand after editing it)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification of the real code: contracts and inferred loop invariants on the C++ functions, obligations generated from clang's AST of /repo's current sources on every run and discharged by z3 (cvc5 as fallback)"
CLAIMED = json.load(open(os.path.join(HERE, "claims.json")))
NA = {
    "C30": "agreement of all nodes' applied sequences is a statement about cluster histories (several nodes, message loss, crashes); contracts on the functions of one node cannot state it, and proving it needs a separate system model with an inductive invariant over all nodes, which is a different technique. The per-node parts it rests on are C01 to C08, C12 and C14.",
    "C31": "a liveness property under a fairness assumption on the network; partial-correctness contracts on sequential functions express safety only and no termination-under-fairness argument over a cluster is within the verifier's reach.",
    "C32": "absence of data races under concurrent calls needs a concurrency logic (permissions over threads and std::mutex); the verifier reasons about sequential executions only.",
    "C33": "the parser is std::stringstream and character code; the verifier models strings as uninterpreted byte strings with equality, so neither the text nor the parse can be expressed in its contracts.",
}
out = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": [], "notes": "see DESIGN.md"}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
for p in props:
    if p in CLAIMED:
        c = CLAIMED[p]
        out["checks"].append({"property": p, "quick_cmd": "python3-vt /verif/vc/run.py %s quick" % p, "thorough_cmd": "python3-vt /verif/vc/run.py %s thorough" % p,
                              "technique": TECH, "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        out["not_applicable"].append({"property": p, "reason": NA.get(p, "contracts for the functions this property depends on are not finished yet; no check is claimed")})
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
