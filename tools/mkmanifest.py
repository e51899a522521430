"""Writes /verif/MANIFEST.json: one check for every property that has a contract file."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
BASE = ("Every obligation the contracts generate from /repo's current source is discharged by the normaliser, constant "
        "evaluation, z3 or cvc5, for all inputs, with arithmetic over the reals and assumed contracts for numpy, scipy and "
        "file objects; what the verifier leaves undecided is run bounded on the real code and labelled so in the evidence. ")
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(HERE, "contracts", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p} quick", thorough_cmd=f"python3-vt check.py {p} thorough",
                           technique="contract-based deductive verification: symbolic execution of the real functions against "
                                     "contracts, obligations to normaliser/z3/cvc5", level="proof",
                           level_note=(BASE + NOTES.get(p, "")).strip()))
    else:
        na.append(dict(property=p, reason=NOTES.get(p, "no contracts written yet")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy'", checks=checks, not_applicable=na,
         notes="All checks: python3-vt check.py <id> [quick|thorough]; DESIGN.md describes the verifier.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
