"""Runner: python3-vt -m vp.run C01 [--tier quick|thorough]"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
NATIVE = ["/opt/venv/bin/python"]
ALT_NATIVE = [sys.executable]


def _limit():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def native(cases, alt_seed=None, split=False):
    """run cases on the real code in a native interpreter; [(status, detail)]"""
    if len(cases) > 40 and not split:
        n = min(8, len(cases) // 20, os.cpu_count() or 1)
        with cf.ThreadPoolExecutor(n) as ex:
            parts = list(ex.map(lambda k: native(cases[k::n], alt_seed, True), range(n)))
        return [parts[i % n][i // n] for i in range(len(cases))]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(alt_seed or 0), MPLBACKEND="Agg")
    env.pop("PYTHONPATH", None)
    cmd = (NATIVE if alt_seed is None else ALT_NATIVE) + [os.path.join(VERIF, "vp", "replay.py"), "--batch"]
    try:
        p = subprocess.run(cmd, input=json.dumps(cases), capture_output=True, text=True, timeout=min(300, 60 + 5 * len(cases)), env=env, preexec_fn=_limit)
    except subprocess.TimeoutExpired:
        return [("timeout", "native run timed out")] * len(cases)
    try:
        return [tuple(x) for x in json.loads(p.stdout.strip().splitlines()[-1])]
    except Exception:
        return [("error", (p.stderr or p.stdout)[-500:])] * len(cases)


# properties about exact integers: also run an input beyond 2**53 per instance (averages are
# floats, and legitimately rounded, so properties about them are left out)
STRESS = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C13", "C14", "C18"}


def work(task):
    prop, inst, opts = task
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    from vp import symctx

    mod = importlib.import_module("vp.props." + prop)
    fn = mod.HARNESSES[inst["h"]]

    def replay(values, choices):
        case = {"property": prop, "harness": inst["h"], "params": inst["params"], "values": values, "choices": choices}
        st = native([case])[0]
        if st[0] != "violation" and inst.get("opts", {}).get("set_order") in ("all", "flip"):
            for seed in range(1, 7):
                st = native([case], alt_seed=seed)[0]
                if st[0] == "violation":
                    break
        return st

    o = dict(opts)
    o["stress"] = prop in STRESS
    o.update(getattr(mod, "OPTS", {}))
    o.update(inst.get("opts", {}))
    try:
        r = symctx.explore(fn, inst["params"], o, replay)
    except BaseException as e:  # engine failure: not an answer
        import traceback

        r = {"engine_error": "".join(traceback.format_exception(e))[-1500:]}
    r["instance"] = inst
    return r


def name_of(inst):
    return inst["h"] + "(" + ",".join(f"{k}={v}" for k, v in inst["params"].items()) + ")"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    sys.path.insert(0, VERIF)
    from vp import mine

    prop = a.property
    mod = importlib.import_module("vp.props." + prop)
    mined = mine.mine(REPO)
    insts = mod.instances(a.tier, mined)
    if a.only:
        insts = [i for i in insts if a.only in name_of(i)]
    opts = {"budget_s": 100 if a.tier == "quick" else 600, "timeout_ms": 5000 if a.tier == "quick" else 20000}
    ctx = mp.get_context("fork")
    results = []
    violation = None
    total_budget = 500 if a.tier == "quick" else 4 * 3600
    with cf.ProcessPoolExecutor(a.jobs, mp_context=ctx) as ex:
        futs = {ex.submit(work, (prop, i, opts)): i for i in insts}
        try:
            for f in cf.as_completed(futs, timeout=total_budget):
                r = f.result()
                results.append(r)
                if a.v:
                    s = r.get("stats", {})
                    print(
                        f"  {name_of(r['instance'])}: paths={s.get('paths')} done={r.get('completed')} checks={s.get('discharged')}/{s.get('checks')} "
                        f"q={s.get('queries')} solver={s.get('solver_s', 0):.1f}s wall={r.get('wall_s')} "
                        f"{'VIOL ' + str(r['violation']) if r.get('violation') else ''} {r.get('inconclusive', [])[:2]} {sorted(set(r.get('bounds_hit', [])))[:2]} {r.get('engine_error', '')}",
                        flush=True,
                    )
                if r.get("violation"):
                    violation = r
                    break
        except cf.TimeoutError:
            pass
        if violation or len(results) < len(insts):
            for f in futs:
                f.cancel()
            for p in list(getattr(ex, "_processes", {}).values()):
                p.kill()
    from vp import report

    sys.exit(report.finish(prop, mod, a.tier, insts, results, violation, mined, t0, native, only=a.only))


if __name__ == "__main__":
    main()
