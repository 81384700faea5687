"""Verdict, replay file, known findings and evidence of one check run."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

GLOBAL_ASSUMPTIONS = [
    "floats are modelled as exact rationals; native replays compare within 1e-9",
    "numerals in program texts are canonical decimal numbers (no leading zeros) of any size",
    "dicts and sets are modelled with insertion order unless the instance says set_order=all; accidental hash collisions are not modelled",
    "products and divisions of two symbolic values are uninterpreted (sign facts only) when an assertion is discharged, exact when a counterexample is built",
    "random, matplotlib and PIL are stubs: every outcome the documented contract of random allows, and a call recorder",
    "rply, re, copy and the Python runtime are trusted",
]


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if line.startswith("known: property=%s " % prop):
            body = line.split(" ", 2)[2]
            what, case = body.rsplit(" case=", 1)
            case = json.loads(case)
            case.setdefault("property", prop)
            case.setdefault("choices", [])
            out.append((what, case))
    return out


def finish(prop, mod, tier, insts, results, violation, mined, t0, native, only=None):
    from vp.run import name_of

    lines = []
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    def case_of(r, v):
        i = r["instance"]
        return {
            "property": prop,
            "harness": i["h"],
            "params": i["params"],
            "values": v["values"],
            "choices": v.get("choices", []),
        }

    # witnesses: one concrete input per instance, run on the real code
    wit_ok = 0
    wit = [(r, r["witness"]) for r in results if r.get("witness")]
    wit_res = []
    if not violation and wit:
        wit_res = native([case_of(r, w) for r, w in wit])
        for (r, w), (st, det) in zip(wit, wit_res):
            if st == "ok":
                wit_ok += 1
            elif st == "violation" and not violation:
                # the real code fails on an input the encoding accepted
                again = native([case_of(r, w)])[0]
                if again[0] == "violation":
                    violation = dict(r)
                    violation["violation"] = dict(w, label="witness input", detail=det)
    # inputs beyond what the encoding represents exactly (floats, unsupported operations)
    extra = [(r, x) for r in results for x in r.get("extra") or []]
    extra_ok = 0
    if not violation and extra:
        for (r, x), (st, det) in zip(extra, native([case_of(r, x) for r, x in extra])):
            if st == "ok":
                extra_ok += 1
            elif st == "violation" and not violation and native([case_of(r, x)])[0][0] == "violation":
                violation = dict(r)
                violation["violation"] = dict(x, label="input with " + x["why"], detail=det)
            elif st not in ("skipped", "violation"):
                print(f"note: extra input of {name_of(r['instance'])}: {st} {det}"[:400])
    kf = known_findings(prop)
    kf_seen = []
    if kf:
        for (what, case), (st, det) in zip(kf, native([c for _, c in kf])):
            if st == "violation":
                kf_seen.append(what)
                print(f"KNOWN-FINDING: property={prop} {what}")
            else:
                print(f"note: listed finding no longer fails ({st} {det}): {what}")

    rep = None
    if violation:
        v = violation["violation"]
        case = case_of(violation, v)
        case["detail"] = v.get("detail")
        case["label"] = v.get("label")
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, f"{prop}.json")
        with open(rep, "w") as f:
            json.dump(case, f, indent=1)
        print(f"counterexample: {name_of(violation['instance'])} values={v['values']} -> {v.get('detail')}")
        print(f"replay with: /opt/venv/bin/python {VERIF}/vp/replay.py {rep}")
        print(f"VIOLATION property={prop} replay={rep}")

    tot = {}
    decided, partial, undecided = [], [], []
    funcs = set()
    incon = []
    for r in results:
        n = name_of(r["instance"])
        if "engine_error" in r:
            undecided.append(n)
            incon.append(f"{n}: engine error {r['engine_error'][-200:]}")
            continue
        for k, x in r["stats"].items():
            tot[k] = tot.get(k, 0) + x
        funcs |= set(r["functions"])
        bad = list(dict.fromkeys(r["inconclusive"] + r["bounds_hit"]))
        if r.get("violation"):
            continue
        if bad:
            incon.append(f"{n}: " + "; ".join(bad[:3])[:600])
        if r["completed"] and not bad:
            decided.append(n)
        elif r["completed"]:
            partial.append(n)
        else:
            undecided.append(n)
    done = {name_of(r["instance"]) for r in results}
    missing = [name_of(i) for i in insts if name_of(i) not in done]
    if not violation:
        for m in missing[:5]:
            incon.append(f"{m}: not run (total time budget)")
    for x in incon[:12]:
        print("INCONCLUSIVE " + x)
    wall = round(time.time() - t0, 2)
    samples = []
    for r, w in wit[:4]:
        samples.append({"instance": name_of(r["instance"]), "witness_values": w["values"]})
    cov = {
        "explanation": (
            f"symbolic execution of the real source of /repo/python_dice as it is now: {len(results)} harness instances, "
            f"{tot.get('paths', 0)} paths, every assertion decided by z3 over all values of the symbolic inputs within the instance bounds"
        ),
        "instances": len(results),
        "instances_decided": len(decided),
        "instances_partial": len(partial),
        "instances_undecided": len(undecided) + (len(missing) if not violation else 0),
        "paths": tot.get("paths", 0),
        "paths_infeasible": tot.get("infeasible", 0),
        "branch_points": tot.get("branches", 0),
        "assertions": tot.get("checks", 0),
        "assertions_discharged": tot.get("discharged", 0),
        "assertions_discharged_by_normal_form": tot.get("discharged_norm", 0),
        "solver_queries": tot.get("queries", 0),
        "solver_exact_queries": tot.get("exact_queries", 0),
        "solver_s": round(tot.get("solver_s", 0.0), 2),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, "") if isinstance(getattr(mod, "BOUNDS", ""), dict) else getattr(mod, "BOUNDS", ""),
        "instance_list": [name_of(i) for i in insts],
        "functions_encoded": sorted(funcs),
        "reachability_witnesses": len(wit),
        "witnesses_replayed_ok_on_real_code": wit_ok,
        "large_or_unencoded_inputs_run": len(extra),
        "large_or_unencoded_inputs_ok": extra_ok,
        "samples": samples,
        "known_findings_seen": kf_seen,
        "inconclusive": incon[:40],
        "mined_integers": mined["ints"],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": GLOBAL_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": wall,
        "violations": 1 if violation else 0,
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(
        f"{prop} {tier}: instances decided={len(decided)} partial={len(partial)} undecided={len(undecided) + len(missing)}, "
        f"paths={cov['paths']}, assertions discharged={cov['assertions_discharged']}/{cov['assertions']}, "
        f"queries={cov['solver_queries']}, solver={cov['solver_s']}s, witnesses ok={wit_ok}/{len(wit)}, extra={extra_ok}/{len(extra)}, wall={wall}s"
    )
    for (r, w), (st, det) in zip(wit, wit_res):
        if st not in ("ok", "violation"):
            print(f"note: witness of {name_of(r['instance'])}: {st} {det}")
    if violation:
        return 1
    if not decided and not partial:
        print("no instance was decided")
        return 2
    return 0
