#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification %s: TLC exhaustive model check; conformance: TLC-generated behaviours replayed through the real code, recorded traces validated by TLC"
N = ("The specification's own laws are checked exhaustively by TLC on small constants (wrong variants must be rejected); the code is bound to it by "
     "replaying generated behaviours through %s built from the working tree and letting TLC accept or reject every recorded trace. "
     "Assurance on the code: all explored behaviours, not a proof; trusts %s.")
APP = "vegapp", "the renderer of events into decks and the projection of the .comm/.med output (both judge nothing)"
CLAIMS = {
 "C03": ("Deck + MC_CaseControl", APP), "C04": ("Deck + MC_Pipeline", APP), "C05": ("Deck + MC_Pipeline", APP), "C06": ("Deck + MC_Rel", APP),
}
if __name__ == "__main__":
    from mkmanifest_claims import CLAIMS as C2, NOT_APPLICABLE
    CLAIMS.update(C2)
    checks = []
    for p, (spec, (what, trust)) in sorted(CLAIMS.items()):
        checks.append({"property": p, "quick_cmd": "python3 checks/run.py %s quick" % p, "thorough_cmd": "python3 checks/run.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": T % spec, "level": "model_checking", "level_note": N % (what, trust)})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE],
         "notes": "TLA+ with TLC. See DESIGN.md. No hooks in /repo are needed."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
