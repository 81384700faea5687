"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {
 "C03": " The random source is a stub that explores every outcome random.choices/randint/... documents, with its probability.",
 "C04": " MIN/MAX of operands that share a variable are bounded from outside only (known finding).",
 "C08": " Variables with unequal weights read more than once are compared by support only (known finding).",
 "C12": " After estimating the cost of an assignment, rolled values are not compared (known finding).",
 "C15": " Token expressions are encoded as bounded SMT formulas over character codes (ASCII, length up to the stated bound); the grammar is decided over symbolic choices of token kinds.",
 "C17": " What is judged is the data handed to matplotlib's hist/bar/plot on the saved figure, not pixels; overlapping compare-histogram bars may be the difference or twice it (known finding).",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"python3-vt -m vp.run {i} --tier quick",
        "thorough_cmd": f"python3-vt -m vp.run {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "bounded symbolic execution of the real Python source with z3 (SMT) deciding every assertion; counterexamples replayed natively",
        "level": "other",
        "level_note": "Bounded symbolic verification: every path of the current source of /repo is explored with symbolic inputs and z3 decides each assertion for all values within the bounds stated in the evidence file; inputs beyond the bounds are not covered. Trusts the engine, z3, rply, re and the Python runtime; floats are exact rationals." + NOTE.get(i, ""),
    })
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, vp.core\"", "checks": checks, "not_applicable": [],
     "notes": "All checks read /repo's working tree at run time (no build step); the engine is /verif/vp, run by python3-vt; native replays use /opt/venv/bin/python. No hooks in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
