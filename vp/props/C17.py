from .. import ref
from ..prog import Prog, SIGNED, around, bop, const, die, par, var

BOUNDS = {
    "quick": "distributions of 1-4 entries, any integer outcomes within a span of 4 and any positive counts, and 8-24 consecutive outcomes with any start; pairs of distributions of up to 2 entries; programs of up to 3 lines",
    "thorough": "as quick, span 6, pairs of up to 3 entries",
}
ASSUMPTIONS = [
    SIGNED,
    "matplotlib is a recorder: what is checked is the data and edges handed to hist/bar/plot on the figure that is saved, not the pixels",
    "get_compare_histogram counts an outcome inside both ranges twice (listed known finding): there the bar may be the difference or twice the difference",
]
OPTS = {"signed": True}


def bars(c, calls):
    """[(lo edge, hi edge, height)] in drawing order, of hist and bar calls"""
    out = []
    for n, a, k in calls:
        if n == "hist":
            names = ["x", "bins", "range", "density", "weights"]
            kw = dict(zip(names, a))
            kw.update(k)
            xs = list(kw["x"])
            ws = list(kw["weights"]) if kw.get("weights") is not None else [1] * len(xs)
            edges = list(kw["bins"])
            for i in range(len(edges) - 1):
                h = 0
                last = i == len(edges) - 2
                for x, w in zip(xs, ws):
                    here = c.all([x >= edges[i], x <= edges[i + 1] if last else x < edges[i + 1]])
                    h = h + c.ite(here, w, 0)
                out.append((edges[i], edges[i + 1], h))
        elif n == "bar":
            kw = dict(zip(["x", "height", "width"], a))
            kw.update(k)
            w = kw.get("width", 0.8)
            for x, h in zip(kw["x"], kw["height"]):
                out.append((x - c.ratio(1, 2), x + c.ratio(1, 2), h))
    return out


def lines_of(calls):
    out = []
    for n, a, k in calls:
        if n == "plot":
            out.append((list(a[0]), list(a[1]), k.get("label")))
    return out


def prob(c, pairs, den, fn):
    s = 0
    for x, w in pairs:
        s = s + c.ite(fn(x), w, 0)
    return c.ratio(s, den)


KINDS = {
    "": lambda v: lambda x: x == v,
    "at_least": lambda v: lambda x: x >= v,
    "at_most": lambda v: lambda x: x <= v,
}


def half(c):
    return c.ratio(1, 2)


def judge_hist(c, pairs, kind):
    den = ref.total(pairs)
    calls = c.rec.drawn()
    bs = bars(c, calls)
    vs = [x for x, _ in pairs]
    lo, hi = c.min_of(vs), c.max_of(vs)
    c.check(lo + len(bs) - 1 == hi, "one bar for every integer from the minimum to the maximum")
    for i, (a, b, h) in enumerate(bs):
        v = lo + i
        c.check(c.all([c.eq(a, v - half(c)), c.eq(b, v + half(c))]), "bars are centred on the outcomes, ascending")
        c.check(c.eq(h, prob(c, pairs, den, KINDS[kind](v))), "bar height")
    n = 0
    for x, w in pairs:
        n = n + x * w
    avg = c.ratio(n, den)
    xs = [l[0] for l in lines_of(calls)]
    for nm, a, k in calls:
        if nm == "axvline":
            xs.append([a[0] if a else k["x"]])
    c.check(len(xs) == 1, "one average line")
    for x in xs[0]:
        c.check(c.eq(x, avg), "the average line is at the average")


def judge_lines(c, one, two, kind, names):
    calls = c.rec.drawn()
    ls = lines_of(calls)
    c.check(len(ls) == 2, "two lines")
    if names[0] != names[1] and ls[0][2] == names[1]:
        ls.reverse()
    c.check([l[2] for l in ls] == list(names), "under their own labels")
    c.check(any(n == "legend" for n, _, _ in calls), "labels are shown")
    c.check(len(bars(c, calls)) == 0, "nothing else is drawn")
    for (xs, ys, _), pairs in zip(ls, (one, two)):
        den = ref.total(pairs)
        vs = [x for x, _ in pairs]
        lo, hi = c.min_of(vs), c.max_of(vs)
        c.check(len(xs) == len(ys), "a height for every point")
        c.check(lo + len(xs) - 1 == hi, "one point for every integer from the minimum to the maximum")
        for i, (x, y) in enumerate(zip(xs, ys)):
            c.check(c.eq(x, lo + i), "points in ascending order")
            c.check(c.eq(y, prob(c, pairs, den, KINDS[kind](lo + i))), "point height")


def make(c, tag, n, span, weights=True):
    pairs = [(c.int(f"{tag}x{i}"), c.int(f"{tag}w{i}", 1) if weights else 1 + i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            c.assume(c.not_(pairs[i][0] == pairs[j][0]))
            c.assume(c.all([pairs[i][0] - pairs[j][0] <= span, pairs[j][0] - pairs[i][0] <= span]))
    return pairs, c.repo.ProbabilityDistributionFactory().create(c.dict(pairs))


def hist(c, n, span, kind, before=None):
    pairs, d = make(c, "", n, span)
    c.rec.clear()
    if before:
        # another chart first: nothing of it is left over
        o = c.repo.ProbabilityDistributionFactory().create({3: 1, 7: 2})
        if before.startswith("compare"):
            getattr(o, "get_" + before)(d)
        else:
            getattr(o, "get_" + before)()
    getattr(d, "get_" + (kind + "_" if kind else "") + "histogram")()
    judge_hist(c, pairs, kind)


def run(c, n, step, kind):
    x = c.int("x")
    pairs = [(x + step * i, 1 + (i * 7) % 5) for i in range(n)]
    src = pairs[n // 2 :] + pairs[: n // 2]
    d = c.repo.ProbabilityDistributionFactory().create(c.dict(src))
    c.rec.clear()
    getattr(d, "get_" + (kind + "_" if kind else "") + "histogram")()
    judge_hist(c, pairs, kind)


def compare(c, n, m, span, kind, names=None):
    p1, d1 = make(c, "a", n, span)
    p2, d2 = make(c, "b", m, span)
    c.rec.clear()
    fn = getattr(d1, "get_compare" + ("_" + kind if kind else ""))
    if names:
        fn(d2, names[0], names[1])
    else:
        fn(d2)
    judge_lines(c, p1, p2, kind, names or ("This distribution", "other distribution"))


def compare_hist(c, n, m, span, exact=False):
    p1, d1 = make(c, "a", n, span)
    p2, d2 = make(c, "b", m, span)
    lo1, hi1 = c.min_of([x for x, _ in p1]), c.max_of([x for x, _ in p1])
    lo2, hi2 = c.min_of([x for x, _ in p2]), c.max_of([x for x, _ in p2])
    c.rec.clear()
    d1.get_compare_histogram(d2)
    calls = c.rec.drawn()
    pts = []
    for nm, a, k in calls:
        if nm == "hist":
            kw = dict(zip(["x", "bins", "range", "density", "weights"], a))
            kw.update(k)
            pts += list(zip(kw["x"], kw["weights"]))
        elif nm == "bar":
            kw = dict(zip(["x", "height"], a))
            kw.update(k)
            pts += list(zip(kw["x"], kw["height"]))
    c.check(len(lines_of(calls)) == 0, "no average line")
    for lo, hi in ((lo1, hi1), (lo2, hi2)):
        for i in range(span + 1):
            v = lo + i
            if not c.decided(v <= hi):
                break
            h = 0
            for x, w in pts:
                h = h + c.ite(x == v, w, 0)
            want = prob(c, p1, ref.total(p1), lambda x: x == v) - prob(c, p2, ref.total(p2), lambda x: x == v)
            both = c.all([v >= lo1, v <= hi1, v >= lo2, v <= hi2])
            if not exact and c.decided(both):
                c.check(c.any([c.eq(h, want), c.eq(h, 2 * want)]), "difference bar of an outcome in both ranges")
            else:
                c.check(c.eq(h, want), "difference bar")


def interp(c, lines, kind, span):
    p = Prog(c, lines)
    for i, v in enumerate(p.values):
        for u in p.values[:i]:
            c.assume(c.all([v - u <= span, u - v <= span]))
    from .C10 import weights_of

    i = c.repo.PythonDiceInterpreter()
    c.rec.clear()
    name = "get_" + (kind + "_" if kind else "") + "histogram"
    getattr(i, name)(p.text)
    pairs = [(v, w) for (v, _), w in zip(p.out, weights_of(c, p))]
    judge_hist(c, pairs, kind)


HARNESSES = {"hist": hist, "run": run, "compare": compare, "compare_hist": compare_hist, "interp": interp}


def instances(tier, mined):
    th = tier == "thorough"
    out = []

    def add(h, **p):
        out.append({"h": h, "params": p})

    for kind in KINDS:
        for n, s in ((1, 0), (2, 4), (3, 4)) + (((2, 8), (3, 6), (4, 5)) if th else ()):
            add("hist", n=n, span=s, kind=kind)
        for b in ("histogram", "at_least_histogram", "compare", "compare_at_most"):
            add("hist", n=2, span=2, kind=kind, before=b)
        for n, s in [(8, 1), (24, 1), (4, 5), (2, 25)] + [(n, 1) for n in sorted({64, 100} | set(around(mined, 9, 104)))]:
            add("run", n=n, step=s, kind=kind)
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2)) + (((3, 2), (2, 3)) if th else ()):
            add("compare", n=n, m=m, span=3 if th else 2, kind=kind)
        add("compare", n=2, m=2, span=2, kind=kind, names=["first", "second"])
        for names in (["zz", "a"], ["a", "zz"], ["long name, with $ signs", "x"], ["x", "X"], ["2", "10"], ["other distribution", "This distribution"], ["_x", "x"]):
            add("compare", n=2, m=1, span=2, kind=kind, names=names)
        add("compare", n=1, m=2, span=3, kind=kind, names=["same", "same"])
        for l in (
            [[None, die(0, 2, "w")]],
            [["a", die(0, 2, "w")], [None, bop("+", var("a"), const("k"))]],
            [["a", die(0, 2, "o")], ["b", const("k")], [None, bop("-", var("a"), var("b"))]],
            [[None, const("k")], [None, die(0, 2, "w")]],
            [[None, bop("+", die(0, 2), die(1, 2))]],
        ):
            add("interp", lines=l, kind=kind, span=3)
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2)):
        add("compare_hist", n=n, m=m, span=3 if th else 2)
    return out
