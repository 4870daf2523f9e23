"""Regenerates MANIFEST.json from the checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "R01": "runtime monitoring: direct-sum oracle over randomised synthesis calls",
 "R02": "runtime monitoring: direct-sum oracle and structural laws over randomised response-function calls",
 "R03": "runtime monitoring: online conservation monitor on every CLEAN iteration plus output identities",
 "R04": "runtime monitoring: trace-specification checker of CLEAN iterations and schedule-differential runs",
 "R05": "runtime monitoring: independent peak-measurement oracle over randomised spectra",
 "R06": "runtime monitoring: independent least-squares oracle over randomised Stokes I spectra",
 "R07": "runtime monitoring: algebraic-identity and numeric-Jacobian oracle over randomised fits",
 "R08": "runtime monitoring: end-to-end stage-consistency monitors on the 1D pipeline",
 "R09": "runtime monitoring: file round-trip monitors on the real command line tools",
 "R10": "runtime monitoring: end-to-end monitors on 1D RM-CLEAN and its files",
 "R11": "runtime monitoring: cube-versus-pixel differential oracle",
 "R12": "runtime monitoring: offline checker over the written FITS products",
 "R13": "runtime monitoring: schedule-differential runs with injected worker delays",
 "R14": "runtime monitoring: exactly-once pixel ledger over chunk files",
 "R15": "runtime monitoring: pixel and world-coordinate ledger over extracted files",
 "R16": "runtime monitoring: exact-arithmetic oracle over randomised headers",
 "R17": "runtime monitoring: per-pixel oracle and schedule-differential runs",
 "R18": "runtime monitoring: model-preservation oracle over rescaled maps",
 "R19": "runtime monitoring: map-versus-spectrum differential oracle",
 "R20": "runtime monitoring: independent-formula oracle and limit laws on the shipped models",
 "R21": "runtime monitoring: likelihood oracle hooked into real sampler runs",
 "R22": "runtime monitoring: numerical-quadrature oracle and direct adjoint sums",
 "R23": "runtime monitoring: likelihood-grid oracle, invariances and statistical calibration",
 "R24": "runtime monitoring: catalogue-formula oracle on generated data files",
 "R25": "runtime monitoring: direct-sum oracle on the printed report and the saved prediction",
 "R26": "runtime monitoring: analytic and reference-solver oracle on randomised least-squares problems",
 "R27": "runtime monitoring: read-back of figure objects and reports at the moment they are shown or saved",
 "R28": "runtime monitoring: fault injection into the inputs with a ledger of the directory tree",
}
NOTE = ("Holds on every execution observed: the real code runs under seeded random and directed workloads while an oracle "
        "judges every call; nothing is proved about inputs not drawn.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i, thorough_cmd="./run.sh %s thorough" % i,
                           technique=T[i], level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="no check has been built for it yet, so it is not claimed"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
