from .. import ref

BOUNDS = {
    "quick": "distributions of 1-4 entries with any integer outcomes within a span of 5 and any positive integer counts (any span for the parts that do not list the gaps), 8-30 consecutive or evenly spaced outcomes with any start; as created by the factory, by dice, by operators and read from variables",
    "thorough": "1-5 entries, span 8, up to 120 outcomes",
}
OPTS = {"signed": True}


def summaries(c, d, pairs, den, span, full=True):
    """d: distribution; pairs: [(value, count)] (values may coincide)"""
    want = [(v, c.ratio(w, den)) for v, w in pairs]
    got = ref.pairs(d.get_dict_form())
    c.same(got, want, "probability dictionary")
    for v, _ in got:
        c.check(c.any([v == x for x, _ in pairs]), "only possible outcomes are keys")
    tot = 0
    for _, p in got:
        tot = tot + p
    c.check(c.eq(tot, 1), "probabilities sum to 1")
    n = 0
    for v, w in pairs:
        n = n + v * w
    c.check(c.eq(d.average(), c.ratio(n, den)), "average")
    c.check(c.eq(d.average(), c.ratio(n, den)), "average again")
    lo, hi = d.min(), d.max()
    c.check(c.all([v <= hi for v, _ in pairs] + [c.any([v == hi for v, _ in pairs])]), "max")
    c.check(c.all([v >= lo for v, _ in pairs] + [c.any([v == lo for v, _ in pairs])]), "min")
    z = d.contains_zero()
    c.check(c.eq(c.ite(z, 1, 0), c.ite(c.any([v == 0 for v, _ in pairs]), 1, 0)), "contains_zero")
    rm = ref.pairs(d.get_result_map())
    for v, w in rm:
        s = 0
        for x, xw in pairs:
            s = s + c.ite(x == v, xw, 0)
        c.check(w * den == s * sum_(rm), "result map counts are proportional")
    if not full:
        return
    for name, fn in (("at_least", lambda x, v: x >= v), ("at_most", lambda x, v: x <= v)):
        got = ref.pairs(getattr(d, name)())
        # one entry per integer from min to max
        for k in range(span + 1):
            m = 0
            for v, _ in got:
                m = m + c.ite(v == lo + k, 1, 0)
            c.check(m == c.ite(lo + k <= hi, 1, 0), name + " lists every integer once")
        for v, p in got:
            c.check(c.all([v >= lo, v <= hi]), name + " stays within min and max")
            s = 0
            for x, w in pairs:
                s = s + c.ite(fn(x, v), w, 0)
            c.check(c.eq(p, c.ratio(s, den)), name + " value")


def sum_(rm):
    t = 0
    for _, w in rm:
        t = t + w
    return t


def created(c, n, span, weights=True, full=True, spread=True):
    pairs = [(c.int(f"x{i}"), c.int(f"w{i}", 1) if weights else 1) for i in range(n)]
    for i in range(n):
        for j in range(i):
            c.assume(c.not_(pairs[i][0] == pairs[j][0]))
            if full:
                c.assume(c.all([pairs[i][0] - pairs[j][0] <= span, pairs[j][0] - pairs[i][0] <= span]))
    d = c.repo.ProbabilityDistributionFactory().create(c.dict(pairs))
    summaries(c, d, pairs, ref.total(pairs), span, full)


def run(c, n, step, weights=True, rev=False, start=None, few=False):
    x = c.int("x") if start is None else start
    pairs = [(x + step * i, c.int(f"w{i}", 1) if weights or (few and i in (0, n // 2, n - 1)) else (1 + (i * 7) % 5)) for i in range(n)]
    src = pairs[::-1] if rev else pairs[n // 2 :] + pairs[: n // 2]
    d = c.repo.ProbabilityDistributionFactory().create(c.dict(src))
    summaries(c, d, pairs, ref.total(pairs), step * (n - 1))


def text(c, lines, span, full=True):
    from ..prog import Prog

    p = Prog(c, lines)
    if full:
        for i, v in enumerate(p.values):
            for u in p.values[:i]:
                c.assume(c.all([v - u <= span, u - v <= span]))
    i = c.repo.PythonDiceInterpreter()
    d = i.get_probability_distributions(p.text)["stdout"]
    pairs = [(v, w) for (v, _), w in zip(p.out, weights_of(c, p))]
    summaries(c, d, pairs, ref.total(pairs), span, full)
    n = 0
    for v, w in pairs:
        n = n + v * w
    a = c.repo.PythonDiceInterpreter().get_average(p.text)["stdout"]
    c.check(c.eq(a, c.ratio(n, ref.total(pairs))), "get_average")


def weights_of(c, p):
    name, e = p.lines[-1]
    ws, _ = ref.evaluate(c, e, p.ref.worlds) if name is None else (None, None)
    return [w for w, _, _ in ws]


HARNESSES = {"created": created, "run": run, "text": text}


def instances(tier, mined):
    from ..prog import ODD, around, bop, const, die, fixed, par, var

    th = tier == "thorough"
    out = []

    def add(h, **p):
        out.append({"h": h, "params": p})

    for n, s in ((1, 0), (2, 5), (3, 5), (4, 4)) + (((3, 8), (5, 5)) if th else ()):
        add("created", n=n, span=s)
        add("created", n=n, span=s, full=False)
    for n in (5, 8, 12):
        add("run", n=n, step=1)
        add("run", n=n, step=1, rev=True)
    for n, s in ((4, 3), (3, 10), (2, 25), (6, 2)):
        add("run", n=n, step=s)
    for n in (30, 52) + ((120,) if th else ()):
        add("run", n=n, step=1, weights=False)
    add("run", n=2, step=101, weights=False)
    for n in sorted({13, 64, 100} | set(around(mined, 6, 104))):
        for st in (1, -n // 2, -2 * n):
            add("run", n=n, step=1, weights=False, start=st, few=True, rev=n % 2 == 0)
        add("run", n=max(2, n // 5), step=5, weights=False, start=-7, few=True)
    for n in (2, 3):
        for s in (9, 10, 99, 100):
            add("run", n=n, step=s, start=-s)
            add("run", n=n, step=s, start=9 - s)
    a = var("a")
    L = [
        [[None, die(0, 2, "w", 2)]],
        [[None, bop("-", die(0, 2, "w"), die(1, 2, "w"))]],
        [[None, ["abs", die(0, 3, "w")]]],
        [[None, ["not", die(0, 3, "w")]]],
        [[None, bop("==", die(0, 2, "w"), die(1, 2))]],
        [[None, bop("MAX", die(0, 2, "w"), die(1, 2))]],
        [[None, ["keep", 0, 2, "w", 2, 1]]],
        [[None, ["drop", 0, 2, "w", 3, 1]]],
        [["a", die(0, 2, "w")], [None, a]],
        [["a", die(0, 2, "o")], [None, bop("+", a, a)]],
        [["a", die(0, 2, "w")], [None, bop("-", a, die(1, 2, "w"))]],
        [[None, const("k")]],
        [[None, bop("*", die(0, 2), const("k"))]],
    ]
    for fs in ODD:
        L2 = [[[None, fixed(0, fs, "w")]], [[None, bop("-", fixed(0, fs, "w"), fixed(1, [3, 1]))]], [["a", fixed(0, fs, "w")], [None, bop("+", a, const(-9))]]]
        for l in L2:
            add("text", lines=l, span=130)
    for l in L:
        add("text", lines=l, span=4, full=True)
        add("text", lines=l, span=0, full=False)
    return out
