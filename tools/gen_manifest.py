"""Writes MANIFEST.json from the registry (run by hand, after adding a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.registry import CHECKS
TECH = {
    "C09": "model checking: exhaustive fault injection (every storage access of every operation in every explored state) on the real code",
    "C28": "model checking: stateless exploration of all bounded-preemption thread schedules of the real code under a controlled scheduler",
}
TECH["C32"] = TECH["C28"]
for c in ("C04", "C06", "C19"):
    TECH[c] = "model checking: exhaustive enumeration of a bounded adversary's proofs against the real verifier, reference proof checker as oracle"
for c in ("C12", "C20", "C23", "C24", "C25", "C27"):
    TECH[c] = "model checking: exhaustive enumeration of states and of every bounded alteration, decided on the real code"
for c in ("C16", "C29", "C31"):
    TECH[c] = "model checking: exhaustive enumeration of bounded inputs, states and pairs on the real code against a reference model"
DEF = "model checking: exhaustive enumeration of operation histories and reachable states of the real code in lockstep with a reference model"
checks = []
for p in sorted(CHECKS):
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd="bash run.sh %s" % p, thorough_cmd="VERIF_TIER=thorough bash run.sh %s" % p, technique=TECH.get(p, DEF), level=c["level"],
                       level_note="Bounded-exhaustive on the real code (bounds in DESIGN.md and the evidence file), no sampling. " + c["rule"][0].upper() + c["rule"][1:] + "." +
                       (" Assumes: " + "; ".join(c["assumptions"]) + "." if c["assumptions"] else "")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B -m mc.selftest", hooks=dict(guard="PYMT_VERIF_HOOKS (unused: no hook was needed, /repo carries none)", enable="nothing to enable; the checks import /repo/src directly", source_commits=[]),
         checks=checks, not_applicable=[],
         notes="Checks run the working tree of /repo (PYMT_REPO overrides the path). KNOWN_FINDINGS.txt lists recorded defects (known:) and repaired ones (fixed:).")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
