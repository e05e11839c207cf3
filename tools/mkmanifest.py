#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (run after changing it)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Contracts on the real functions are checked against clang's IR of /repo/src on every run (all inputs, all iterations, no bound); "
        "trusted: clang as extractor, the IR executor irv/, z3/cvc5, contracts of libstdc++/libc listed in the evidence. ")
BND = "What no contract covers is exercised by a bounded stand-in (generated executions of the compiled code under ASan/UBSan against an independent reference), labelled bounded and not counted as proved."
T = "contract-based deductive verification of the real code (function contracts over clang IR, discharged by z3/cvc5)"
C = {}
NA = {}
exec(open(os.path.join(R, "tools", "claims.py")).read())
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && clang++ --version >/dev/null && /usr/lib/llvm-18/bin/llvm-link --version >/dev/null && cvc5 --version >/dev/null",
     "checks": [{"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p, "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": T, "level": "proof", "level_note": BASE + C[p] + " " + BND} for p in sorted(C)],
     "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
     "notes": "No hooks in /repo. Defects found and repaired or recorded: KNOWN_FINDINGS.txt. Design and coverage: DESIGN.md."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
