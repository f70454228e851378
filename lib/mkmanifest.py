#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitoring: complete runs on generated meshes against exact harmonic potentials, with convergence orders",
 "C02": "runtime monitoring: recorded matrices and solid angles against independent high-accuracy integration and exact solid angles",
 "C03": "runtime monitoring: recorded accelerated products against directly summed operators, over trees, orders, ranks and threads",
 "C04": "runtime monitoring: offline exactly-once accounting over the recorded tree and interaction lists, plus unit-density probing",
 "C05": "runtime monitoring: random expansions against exact point-source fields with proven truncation bounds, AddressSanitizer",
 "C06": "AddressSanitizer/LeakSanitizer under random operation histories, with value oracles on every live object",
 "C07": "runtime monitoring: tabulated values and derivatives against arbitrary-precision definitions and identities",
 "C08": "runtime monitoring: singular integrals against independent finite-part evaluation, with symmetry relations",
 "C09": "runtime monitoring: differential runs over process counts, matched node by node",
 "C10": "ThreadSanitizer over a visible task scheduler, and seeded adversarial schedules compared with the serial result",
 "C11": "runtime monitoring: recorded constraints against independent geometric grouping and the exact edge relations",
 "C12": "runtime monitoring: recorded triangulations against the file's content, refinement arithmetic and geometry",
 "C13": "runtime monitoring: masks and imposed data before and after solves against the mesh labels and given fields",
 "C14": "runtime monitoring: recorded normals and gradients against independent mass projections and exact fields",
 "C15": "runtime monitoring: printed norms and written files of real runs, recomputed from the recorded solution",
 "C16": "runtime monitoring: real executables under generated valid, partial and malformed parameter files, grids and faults",
 "C17": "AddressSanitizer, UBSan and debug assertions under diverse and boundary-value workloads",
 "C18": "runtime monitoring: residuals of recorded solutions in an independently assembled constrained system",
 "C19": "runtime monitoring: differential histories in one process against fresh runs",
 "C20": "runtime monitoring: metamorphic pairs of runs",
 "C21": "runtime monitoring: recorded ownership sets and numberings checked for completeness and consistency",
 "C22": "runtime monitoring: meshes recorded around adaptive steps against marking, balance and edge-matching rules",
}
checks, na = [], []
for p in [json.loads(l) for l in open(V + "/properties.jsonl")]:
    i = p["id"]
    f = f"checks/{i.lower()}.py"
    if os.path.exists(f"{V}/{f}"):
        checks.append(dict(property=i, quick_cmd=f"python3-vt {f} --tier quick", thorough_cmd=f"python3-vt {f} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique=T[i], level="exploration",
            level_note="real program executed under generated workloads; the oracle decides every recorded execution, nothing is claimed beyond them"))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3-vt lib/build.py", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
