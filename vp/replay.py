"""Native replay of a counterexample on the real code (PyPy of /opt/venv):
   /opt/venv/bin/python /verif/vp/replay.py FILE.json   -> exit 1 if the property is violated
   ... --batch  reads a JSON list of cases on stdin, prints [[status, detail], ...]"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if sys.implementation.name == "cpython":
    sys.path.append("/opt/venv/lib/pypy3.9/site-packages")


def run(case):
    from vp import ctx

    mod = importlib.import_module("vp.props." + case["property"])
    st, detail, c = ctx.run_concrete(
        mod.HARNESSES[case["harness"]], case["params"], case["values"], case.get("choices", [])
    )
    return st, detail


def main():
    if sys.argv[1] == "--batch":
        out = sys.stdout
        sys.stdout = sys.stderr
        res = []
        for case in json.load(sys.stdin):
            try:
                res.append(run(case))
            except BaseException as e:
                res.append(("error", repr(e)[:300]))
        print(json.dumps(res), file=out)
        return 0
    with open(sys.argv[1]) as f:
        case = json.load(f)
    st, detail = run(case)
    print(f"{case['property']} {case['harness']} {case['params']} values={case['values']}: {st} {detail}")
    return 1 if st == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
