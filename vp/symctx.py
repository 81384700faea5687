"""The symbolic version of the harness context and the path exploration loop."""
import os
import signal
import sys
import time
import traceback

import z3

from . import core, loader, shims
from .containers import vdict, vset
from .core import (
    G,
    Path,
    PathAbort,
    PathInfeasible,
    SymInt,
    SymReal,
    Unsupported,
    VpControl,
    as_formula,
    as_poly,
    f_and,
    f_eq,
    f_le,
    f_not,
    f_or,
    is_sym,
    ite,
    ite_poly,
    mk_bool,
    mk_int,
    mk_real,
    p_add,
    p_atom,
    p_cval,
    p_is_const,
    p_key,
    p_mul,
    p_scale,
    p_const,
    p_z3,
    to_real,
)
from .ctx import BaseCtx, Script


class Candidate(VpControl):
    def __init__(self, label, negated):
        self.label = label
        self.negated = negated


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, path, stats):
        super().__init__()
        self.path = path
        self.stats = stats
        self.rec = loader.REC
        self.inconclusive = []

    def int(self, name, lo=None, hi=None):
        P = self.path
        if name in P.vars:
            return mk_int(P.vars[name][0])
        a = core.var_atom(name, lo is not None and lo >= 1, lo is not None and lo >= 0)
        p = p_atom(a)
        P.vars[name] = (p, lo, hi)
        if lo is not None:
            P.solver.add(a.z >= lo)
        if hi is not None:
            P.solver.add(a.z <= hi)
        if lo is not None and lo == hi:
            P.add(f_eq(p_add(p, p_const(lo), -1)))
            return lo
        return mk_int(p)

    def assume(self, cond, why=""):
        f = as_formula(cond)
        if f is True:
            return
        if f is False:
            raise PathInfeasible()
        P = self.path
        if len(P.trace) >= len(P.prefix):
            if P.check_sat(f) == z3.unsat:
                raise PathInfeasible()
        P.add(f)

    def check(self, cond, label):
        f = as_formula(cond)
        self.labels.append(label)
        self.stats.checks += 1
        if f is True:
            self.stats.discharged += 1
            self.stats.discharged_norm += 1
            return
        if f is False:
            raise Candidate(label, True)
        P = self.path
        nf = f_not(f)
        r = P.check_sat(nf)
        if r == z3.unsat:
            self.stats.discharged += 1
            P.learn(f, True)
            return
        if r == z3.unknown:
            # try once more with the exact definitions
            pass
        raise Candidate(label, nf)

    ite = staticmethod(ite)

    def all(self, xs):
        return mk_bool(f_and([as_formula(x) for x in xs]))

    def any(self, xs):
        return mk_bool(f_or([as_formula(x) for x in xs]))

    def not_(self, x):
        return mk_bool(f_not(as_formula(x)))

    def eq(self, a, b):
        if not is_sym(a) and not is_sym(b):
            if isinstance(a, float) or isinstance(b, float):
                return to_real(a) == to_real(b)
        return a == b

    def ratio(self, a, b):
        return to_real(a) / b

    def num(self, x):
        if type(x) is SymInt:
            if self.pad and self.path.opts.get("signed"):
                raise Unsupported("padded numerals need signs")
            return self.padded(self.path.numeral(x.p, self.path.opts.get("canonical_text", False)))
        return self.padded(str(x))

    def dict(self, pairs):
        d = vdict()
        for k, v in pairs:
            d[k] = v
        return d

    def set(self, items):
        return vset(items)

    def decided(self, cond):
        return bool(cond)

    def same(self, A, B, label):
        A = [(v, to_real(p)) for v, p in A]
        B = [(v, to_real(p)) for v, p in B]

        def common(X):
            ds = {}
            for _, r in X:
                ds[p_key(r.d)] = r.d
            if not ds:
                return p_const(1), []
            if len(ds) == 1:
                return X[0][1].d, [(v, r.n) for v, r in X]
            # constants divide out; others multiply
            nonconst = [d for d in ds.values() if not p_is_const(d)]
            lc = 1
            import math

            for d in ds.values():
                if p_is_const(d):
                    lc = math.lcm(lc, p_cval(d))
            # a denominator that all others equal up to an integer factor
            base = None
            for d in nonconst:
                base = d if base is None else base
            if base is not None and all(_multiple(base, d) is not None or _multiple(d, base) is not None for d in nonconst):
                big = max(nonconst, key=lambda d: max(abs(c) for c in d.values()))
                if all(_multiple(big, d) is not None for d in nonconst):
                    D = p_scale(big, lc)
                    out = []
                    for v, r in X:
                        if p_is_const(r.d):
                            out.append((v, p_mul(r.n, p_scale(big, lc // p_cval(r.d)))))
                        else:
                            out.append((v, p_scale(r.n, lc * _multiple(big, r.d))))
                    return D, out
            D = p_const(lc)
            for d in nonconst:
                D = p_mul(D, d)
            out = []
            for v, r in X:
                k = p_key(r.d)
                m = p_const(lc // p_cval(r.d)) if p_is_const(r.d) else p_const(lc)
                for d in nonconst:
                    if p_key(d) != k:
                        m = p_mul(m, d)
                out.append((v, p_mul(r.n, m)))
            return D, out

        DA, NA = common(A)
        DB, NB = common(B)
        if p_key(DA) != p_key(DB):
            m = _multiple(DA, DB)
            if m is not None:
                NB = [(v, p_scale(n, m)) for v, n in NB]
            else:
                m = _multiple(DB, DA)
                if m is not None:
                    NA = [(v, p_scale(n, m)) for v, n in NA]
                else:
                    NA = [(v, p_mul(n, DB)) for v, n in NA]
                    NB = [(v, p_mul(n, DA)) for v, n in NB]
        keys = {}
        for v, _ in NA + NB:
            p = as_poly(v)
            if p is None:
                raise Unsupported(f"outcome of type {type(v)}")
            keys[p_key(p)] = p
        conds = []
        NA = _group(NA)
        NB = _group(NB)
        for t in keys.values():
            tot = {}
            for L, s in ((NA, 1), (NB, -1)):
                for p, n in L:
                    tot = p_add(tot, ite_poly(f_eq(p_add(p, t, -1)), n, {}), s)
            conds.append(f_eq(tot))
        self.check(mk_bool(f_and(conds)), label)

    def scripted(self, fn, pick):
        st = Script(pick)
        self.path.law = st
        try:
            return fn(), st.draws
        finally:
            self.path.law = None

    def law(self, fn, limit=6000):
        P = self.path
        out = []
        stack = [[]]
        while stack:
            st = shims.LawState()
            st.prefix = stack.pop()
            P.law = st
            exc = val = None
            try:
                val = fn()
            except Exception as e:
                exc = e
            finally:
                P.law = None
            stack.extend(st.alts)
            # equal factors cancel (interval lengths of one random() telescope)
            nums, dens = [as_poly(x) for x in st.nums], []
            for d in st.dens:
                d = as_poly(d)
                k = p_key(d)
                for i, x in enumerate(nums):
                    if p_key(x) == k:
                        del nums[i]
                        break
                else:
                    dens.append(d)
            num = den = p_const(1)
            for x in nums:
                num = p_mul(num, x)
            for d in dens:
                den = p_mul(den, d)
            if exc is not None and not isinstance(exc, (ZeroDivisionError,)):
                raise exc
            out.append((mk_real(num, den), val, exc))
            if len(out) > limit:
                raise PathAbort("law too large")
        return out


def _group(L):
    g = {}
    for v, n in L:
        p = as_poly(v)
        k = p_key(p)
        if k in g:
            g[k] = (p, p_add(g[k][1], n))
        else:
            g[k] = (p, n)
    return list(g.values())


def _multiple(a, b):
    """integer k with a == k*b, or None"""
    if set(a) != set(b) or not b:
        return None
    k = None
    for m, c in a.items():
        if c % b[m]:
            return None
        q = c // b[m]
        if k is None:
            k = q
        elif k != q:
            return None
    return k


# ------------------------------------------------------------------ exact models


def exact_axioms(path, extra_deps=()):
    """definitions of every product and division the path mentions"""
    out = []
    todo = list(path.axioms | set(extra_deps))
    done = set()
    while todo:
        d = todo.pop()
        if d in done:
            continue
        done.add(d)
        if d and d[0] == "atom":
            at = G.atoms[d[1]]
            a, b = at.args
            pr = p_mul(p_atom(at), b)
            for x in core.p_deps(pr) | core.p_deps(a) | core.p_deps(b):
                todo.append(x)
            az, bz, pz = p_z3(a), p_z3(b), p_z3(pr)
            out.append(z3.If(bz > 0, z3.And(pz <= az, az < pz + bz), z3.And(pz >= az, az > pz + bz)))
        else:
            z = core.mono_z3(d)
            rest = d[1:]
            if len(rest) == 1:
                out.append(z == G.atoms[d[0]].z * G.atoms[rest[0]].z)
            else:
                out.append(z == G.atoms[d[0]].z * core.mono_z3(rest))
                todo.append(rest)
            for i in d:
                for x in G.atoms[i].deps:
                    todo.append(x)
                if G.atoms[i].kind == "div":
                    todo.append(("atom", i))
    return out


def exact_model(path, neg, stats, boxes=(4, 12, 40, None), timeout=6000):
    """(status, assignment): a model of path and neg under exact arithmetic"""
    deps = set(path.axioms)
    if neg is not True:
        deps |= neg.deps
    ax = exact_axioms(path, deps)
    nonlinear = bool(ax)
    last = None
    for box in boxes:
        s = z3.Solver()
        s.set("timeout", timeout)
        for a in path.solver.assertions():
            s.add(a)
        for a in ax:
            s.add(a)
        if neg is not True:
            s.add(neg.z)
        if box is not None:
            for name, (p, lo, hi) in path.vars.items():
                v = p_z3(p)
                s.add(v <= max(box, (lo or 0) + box), v >= min(-box, (hi or 0) - box) if lo is None else v >= lo)
        t = time.time()
        stats.exact_queries += 1
        r = s.check()
        stats.solver_s += time.time() - t
        if r == z3.sat:
            m = s.model()
            return "sat", {
                n: m.eval(p_z3(p), model_completion=True).as_long() for n, (p, lo, hi) in path.vars.items()
            }
        if r == z3.unsat and box is None:
            return "unsat", None
        last = r
    return "unknown", None


BIG = 2**60


def stress_model(path, stats, mixed=False, timeout=1500):
    """a model of the path with inputs beyond 2**53 where it allows them: the encoding has exact
    reals where the code has floats, so such an input is run on the real code as well"""
    ax = exact_axioms(path, set(path.axioms))
    s = z3.Solver()
    s.set("timeout", timeout)
    for a in list(path.solver.assertions()) + ax:
        s.add(a)
    t = time.time()
    best = None
    for i, (name, (p, lo, hi)) in enumerate(path.vars.items()):
        v = p_z3(p)
        big = BIG + 7919 * i + 1
        if mixed and i >= len(path.vars) / 2:
            wants = [v == 3 + 2 * i, v == -3 - 2 * i, z3.And(v > 1, v < 50)]
        else:
            wants = ([v == big] if i % 2 and lo is None else [v == -big, v == big] if lo is None else [v == big]) + [v > 2**54]
        for want in wants:
            s.push()
            s.add(want)
            stats.exact_queries += 1
            r = s.check()
            if r == z3.sat:
                m = s.model()
                best = {n: m.eval(p_z3(q), model_completion=True).as_long() for n, (q, _, _) in path.vars.items()}
                break
            s.pop()
        if time.time() - t > 4:
            break
    stats.solver_s += time.time() - t
    return best


def abstract_model(path, neg):
    r = path.solver.check() if neg is True else path.solver.check(neg.z)
    if r != z3.sat:
        return None
    m = path.solver.model()
    return {n: m.eval(p_z3(p), model_completion=True).as_long() for n, (p, lo, hi) in path.vars.items()}


# ------------------------------------------------------------------ coverage of functions

FUNCS = set()
_mon = False


def start_monitor():
    global _mon
    if _mon:
        return
    _mon = True
    m = sys.monitoring
    tool = 4
    m.use_tool_id(tool, "vp")
    root = loader.REPO + os.sep

    def on_start(code, off):
        if code.co_filename.startswith(root):
            FUNCS.add(f"{os.path.relpath(code.co_filename, loader.REPO)}:{code.co_qualname}")
        return m.DISABLE

    m.register_callback(tool, m.events.PY_START, on_start)
    m.set_events(tool, m.events.PY_START)


# ------------------------------------------------------------------ exploration


class _Alarm(VpControl):
    pass


def explore(fn, params, opts, replay):
    """runs fn(ctx, **params) on every path.  replay(values, choices) -> (status, detail)
    runs a case on the real code.  Returns a result dict."""
    loader.install()
    start_monitor()
    FUNCS.clear()
    sys.monitoring.restart_events()
    stats = core.Stats()
    t0 = time.time()
    budget = opts.get("budget_s", 60)
    opts = dict(opts)
    opts["deadline"] = t0 + budget
    stack = [[]]
    res = {
        "violation": None,
        "inconclusive": [],
        "witness": None,
        "extra": [],
        "labels": {},
        "completed": 0,
        "bounds_hit": [],
    }
    replays = 0
    max_paths = opts.get("max_paths", 20000)

    def on_alarm(sig, frm):
        raise _Alarm("time budget (alarm)")

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(budget) + 20)
    try:
        while stack:
            if time.time() > opts["deadline"]:
                res["inconclusive"].append(f"time budget {budget}s, {len(stack)} open paths")
                break
            if stats.paths >= max_paths:
                res["inconclusive"].append(f"path budget {max_paths}, {len(stack)} open paths")
                break
            prefix = stack.pop()
            P = Path(prefix, stats, opts)
            P.law = None
            core.set_path(P)
            loader.fresh_repo()
            c = SymCtx(P, stats)
            stats.paths += 1
            cand = None
            try:
                fn(c, **c.own(params))
                res["completed"] += 1
                if res["witness"] is None and c.labels:
                    st, vals = exact_model(P, True, stats, timeout=2000)
                    if st == "sat":
                        res["witness"] = {"values": vals, "choices": list(P.choices)}
                        if opts.get("stress") and P.vars:
                            for mixed in (False, True)[: len(P.vars)]:
                                vals = stress_model(P, stats, mixed)
                                if vals is None:
                                    continue
                                res["extra"].append({"values": vals, "choices": list(P.choices), "why": "large inputs"})
            except PathInfeasible:
                stats.infeasible += 1
            except Candidate as e:
                cand = (e.label, e.negated)
            except PathAbort as e:
                res["bounds_hit"].append(str(e))
            except Unsupported as e:
                res["inconclusive"].append("unsupported: " + str(e))
                if len(res["extra"]) < 4:
                    # not encodable beyond this point: at least run an input that reaches it
                    st, vals = exact_model(P, True, stats, timeout=1000)
                    if st == "sat":
                        res["extra"].append({"values": vals, "choices": list(P.choices), "why": "not encoded: " + str(e)})
            except core.Nondeterminism as e:
                res["inconclusive"].append("nondeterministic: " + str(e))
            except _Alarm as e:
                res["inconclusive"].append(str(e))
                break
            except z3.Z3Exception as e:
                res["inconclusive"].append("z3: " + str(e))
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                fr = tb[-1]
                cand = (f"unexpected {type(e).__name__}: {e} at {os.path.basename(fr.filename)}:{fr.lineno}", True)
            for l in c.labels:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            res["bounds_hit"].extend(P.incomplete)
            if cand is not None:
                label, neg = cand
                try:
                    st, vals = exact_model(P, neg, stats)
                    if st == "unsat":
                        if neg is True:
                            stats.infeasible += 1
                        else:
                            stats.discharged += 1
                            res["completed"] += 1
                    else:
                        tries = [vals] if st == "sat" else []
                        if st != "sat":
                            am = abstract_model(P, neg)
                            if am is not None:
                                tries.append(am)
                        ok = False
                        for vals in tries:
                            if replays >= opts.get("max_replays", 8):
                                break
                            replays += 1
                            rs, detail = replay(vals, list(P.choices))
                            if rs == "violation":
                                res["violation"] = {
                                    "label": label,
                                    "values": vals,
                                    "choices": list(P.choices),
                                    "detail": detail,
                                }
                                ok = True
                                break
                        if not ok:
                            res["inconclusive"].append(
                                f"counterexample not confirmed on the real code ({st}): {label} {tries[:1]}"
                            )
                except PathAbort as e:
                    res["bounds_hit"].append(str(e))
                if res["violation"]:
                    break
                if len(res["inconclusive"]) > 60:
                    break
            stack.extend(P.alts)
    except _Alarm as e:
        res["inconclusive"].append(str(e))
    finally:
        signal.alarm(0)
        core.set_path(None)
    res["stats"] = dict(vars(stats))
    res["functions"] = sorted(FUNCS)
    res["wall_s"] = round(time.time() - t0, 3)
    return res
