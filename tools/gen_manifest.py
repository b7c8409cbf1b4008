"""Writes MANIFEST.json: one check per property that has a module in checks/."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}

checks, rest = [], []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if not os.path.exists(os.path.join(VERIF, 'checks', pid + '.py')):
        rest.append(dict(property=pid, reason="no check has been built for it yet"))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd="python3 check.py {}".format(pid),
        thorough_cmd="VERIF_TIER=thorough python3 check.py {}".format(pid),
        evidence_file="evidence/{}.json".format(pid),
        technique="bounded symbolic execution of the real Python code with z3 (forking at symbolic branches), "
                  "counterexamples replayed on the unmodified code",
        level="model_checking",
        level_note="Every assertion is decided by z3 for all values of the symbolic inputs within the bounds listed in the evidence "
                   "file (BOUNDS in checks/{0}.py); every path model sampled and every counterexample is re-executed on the plain "
                   "code. Trusted: z3, the integer proxies of symex/engine.py, the harness and its reference semantics. Nothing is "
                   "claimed outside the bounds.".format(pid)))
manifest = dict(version=1, setup_cmd="python3 setup_check.py", checks=checks, not_applicable=rest,
                notes="No hooks are needed: the code is instrumented while it is loaded (symex/loader.py). "
                      "KNOWN_FINDINGS.txt lists the repaired defects.")
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
