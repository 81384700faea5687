import itertools

from .. import ref
from ..prog import OPS, SIGNED, Prog, around, bop, const, die, par, var

BOUNDS = {
    "quick": "expressions and distributions of 2-faced dice (any integer faces, any weights), with and without variables; every operator; every ordered pair of evaluations repeated around each other; up to 3 later programs on the same interpreter",
    "thorough": "as quick with every ordered triple of evaluations",
}
ASSUMPTIONS = [SIGNED, "the map returned by get_constraint_result_map is not modified by the caller"]
OPTS = {"signed": True}

EVAL = ["dist", "max", "min", "cost", "str", "vars"]


def ev(c, e, m):
    """a comparable answer"""
    if m == "dist":
        return ref.pairs(e.get_probability_distribution().get_dict_form())
    if m == "max":
        return e.max()
    if m == "min":
        return e.min()
    if m == "cost":
        return e.estimated_cost()
    if m == "str":
        return str(e)
    if m == "vars":
        return sorted(e.get_contained_variables())
    if m == "law":
        return [(v, p) for p, v, _ in c.law(e.roll)]
    raise AssertionError(m)


def agree(c, m, a, b, label):
    if m in ("dist", "law"):
        c.same(a, b, label)
    else:
        c.check(a == b, label)


def expr(c, lines, order):
    """order: evaluations of the parsed last line; each must answer as on a new expression"""
    p = Prog(c, lines)

    def fresh():
        q = c.repo.PythonDiceParser()
        s = c.repo.ProbabilityDistributionStateFactory().create_new_empty_set()
        for t in p.text[:-1]:
            q.parse(t, s)[0].max()
        return q.parse(p.text[-1], s)[0]

    e = fresh()
    for m in order:
        agree(c, m, ev(c, e, m), ev(c, fresh(), m), f"{m} after {order[: order.index(m)]}")


SUM = {
    "dict": lambda d: ref.pairs(d.get_dict_form()),
    "map": lambda d: ref.pairs(d.get_result_map()),
    "at_least": lambda d: ref.pairs(d.at_least()),
    "at_most": lambda d: ref.pairs(d.at_most()),
    "average": lambda d: [(0, d.average())],
    "max": lambda d: [(d.max(), 1)],
    "min": lambda d: [(d.min(), 1)],
    "zero": lambda d: [(c_int(d.contains_zero()), 1)],
}


def c_int(b):
    return 1 if b else 0


def listing(c, d):
    """the contents, in order"""
    return [(o.value, n) for o, n in d.get_constraint_result_map().items()]


def unchanged(c, before, after, label):
    c.check(len(before) == len(after), label)
    for (a, n), (b, m) in zip(before, after):
        c.check(c.all([a == b, n == m]), label)


def apply(d, op, e):
    fn = {
        "+": lambda: d + e, "-": lambda: d - e, "*": lambda: d * e, "//": lambda: d // e, "==": lambda: d.__equal__(e), "!=": lambda: d.__not_equal__(e),
        "<": lambda: d < e, "<=": lambda: d <= e, ">": lambda: d > e, ">=": lambda: d >= e, "AND": lambda: d & e, "OR": lambda: d | e,
        "MAX": lambda: d.max_operator(e), "MIN": lambda: d.min_operator(e), "ABS": lambda: abs(d), "NOT": lambda: d.not_operator(),
    }
    return fn[op]()


def operands(c, lines, left, right, ops):
    """left, right: variables of the program; combine, and look at them again"""
    p = Prog(c, lines)
    i = c.repo.PythonDiceInterpreter()
    ds = i.get_probability_distributions(p.text)
    d, e = ds[left], ds[right]
    l1, l2 = listing(c, d), listing(c, e)
    first = {}
    for op in ops:
        first[op] = ref.pairs(apply(d, op, e).get_dict_form())
    for op in ops:
        r = apply(d, op, e)
        c.same(ref.pairs(r.get_dict_form()), first[op], f"{op} a second time")
        # combining the result further changes nothing either
        s = r - d
        if op in ("==", "<", "AND", "NOT", "+"):
            (e + r).average()
        unchanged(c, l1, listing(c, d), f"left operand after {op}")
        unchanged(c, l2, listing(c, e), f"right operand after {op}")
    c.same(ref.pairs((d - d).get_dict_form()), [(0, c.ratio(1, 1))], "the left operand still is one outcome")
    c.same(ref.pairs((e - e).get_dict_form()), [(0, c.ratio(1, 1))], "the right operand still is one outcome")


def kept(c, lines, later):
    """distributions handed out earlier, then more programs on the interpreter"""
    p = Prog(c, lines)
    i = c.repo.PythonDiceInterpreter()
    i.roll(p.text)
    ds = i.get_probability_distributions(p.text)
    names = sorted(ds)
    before = {n: (listing(c, ds[n]), ref.pairs(ds[n].get_dict_form()), str(ds[n])) for n in names}
    cross = {(m, n): ref.pairs((ds[m] - ds[n]).get_dict_form()) for m in names for n in names}
    memo_lines = Prog(c, lines + later).text[len(lines) :]
    for t in memo_lines:
        i.get_probability_distributions([t])
        i.max([t])
        i.roll([t])
    for n in names:
        unchanged(c, before[n][0], listing(c, ds[n]), f"contents of {n}")
        c.same(ref.pairs(ds[n].get_dict_form()), before[n][1], f"distribution of {n}")
        c.check(str(ds[n]) == before[n][2], f"text of the distribution of {n}")
    for (m, n), was in cross.items():
        c.same(ref.pairs((ds[m] - ds[n]).get_dict_form()), was, f"{m} - {n}")


CHANGE = {
    "clear": lambda x: x.clear(),
    "grow": lambda x: x.__setitem__(12345, 7),
    "alter": lambda x: [x.__setitem__(k, x[k] + 1) for k in list(x)],
    "drop": lambda x: x.pop(list(x)[0]),
}


def summaries(c, n, span, order, change=("grow", "clear")):
    """every summary again after the others, and after the caller changed what it was given"""
    pairs = [(c.int(f"x{k}"), c.int(f"w{k}", 1)) for k in range(n)]
    for a in range(n):
        for b in range(a):
            c.assume(c.not_(pairs[a][0] == pairs[b][0]))
            c.assume(c.all([pairs[a][0] - pairs[b][0] <= span, pairs[b][0] - pairs[a][0] <= span]))
    src = c.dict(pairs)
    f = c.repo.ProbabilityDistributionFactory()
    d = f.create(src)
    first = {m: SUM[m](f.create(c.dict(pairs))) for m in SUM}
    src.clear()
    for m in order:
        if m in ("histogram", "at_least_histogram", "at_most_histogram"):
            getattr(d, "get_" + m)()
            continue
        if m == "compare":
            d.get_compare(f.create({1: 1, 3: 1}))
            continue
        got = SUM[m](d)
        unchanged_pairs(c, first[m], got, f"{m} after {order[: order.index(m)]}")
        for g in (d.get_dict_form, d.get_result_map, d.at_least, d.at_most):
            x = g()
            for h in change:
                CHANGE[h](x)
    for m in SUM:
        unchanged_pairs(c, first[m], SUM[m](d), f"{m} in the end")


def unchanged_pairs(c, a, b, label):
    c.check(len(a) == len(b), label)
    for (x, p), (y, q) in zip(a, b):
        c.check(c.all([x == y, c.eq(p, q)]), label)


def reparse(c, texts, n):
    """one parser, the same texts again and again in between others"""
    k = c.int("k")
    p = c.repo.PythonDiceParser()
    texts = [t.replace("@", c.num(k)) for t in texts]

    def one(parser, t):
        e = parser.parse(t)[0]
        return str(e), ref.pairs(e.get_probability_distribution().get_dict_form()), e.max(), e.min(), e.estimated_cost()

    first = [one(c.repo.PythonDiceParser(), t) for t in texts]
    for _ in range(n):
        for t, f in zip(texts, first):
            g = one(p, t)
            c.check(g[0] == f[0], "text")
            c.same(g[1], f[1], "distribution")
            c.check(c.all([g[2] == f[2], g[3] == f[3], g[4] == f[4]]), "max, min, cost")
            c.raises(lambda: p.parse("d6 ? 4"))
            c.raises(lambda: p.parse("d6 d6"))


HARNESSES = {"expr": expr, "operands": operands, "kept": kept, "summaries": summaries, "reparse": reparse}


def instances(tier, mined):
    th = tier == "thorough"
    out = []

    def add(h, opts=None, **p):
        i = {"h": h, "params": p}
        if opts:
            i["opts"] = opts
        out.append(i)

    a, b = var("a"), var("b")
    X, Y = die(0, 2, "w"), die(1, 2, "w")
    leaves = [
        X, die(0, 2, "w", 2), ["keep", 0, 2, "w", 2, 1], ["drop", 0, 2, "w", 3, 1], ["keep", 0, 2, "w", 2, 3], ["drop", 0, 2, "", 2, 0],
        const("k"), ["bool", "True"], ["abs", X], ["not", X], par(X), bop("+", X, Y), bop("-", X, const("k")), bop("<", X, Y), bop("MAX", X, const("k")),
        bop("MIN", X, Y), bop("//", X, const(2)), bop("OR", X, const("k")), bop("==", X, Y), bop("*", X, const("k")),
    ]
    perms = [[x, y, x, y] for x, y in itertools.permutations(EVAL + ["law"], 2)]
    full = EVAL + ["law"]
    for e in leaves:
        add("expr", lines=[[None, e]], order=full + full[::-1])
        add("expr", lines=[[None, e]], order=["dist", "dist", "law", "dist", "max", "max", "law", "min", "min", "cost", "cost", "law"])
    L2 = [
        [["a", X], [None, a]],
        [["a", X], [None, bop("+", a, const("k"))]],
        [["a", die(0, 2, "o")], [None, bop("-", a, a)]],
        [["a", X], ["b", bop("+", a, const(1))], [None, bop("MAX", b, const("k"))]],
    ]
    for l in L2:
        add("expr", lines=l, order=[m for m in full + full[::-1] if m != "cost"])
    for o in perms if not th else perms + [list(x) * 2 for x in itertools.permutations(EVAL + ["law"], 3)]:
        add("expr", lines=[[None, ["keep", 0, 2, "w", 2, 1]]], order=o)
        add("expr", lines=[[None, bop("+", die(0, 2, "w", 2), const("k"))]], order=o)
    progs = [
        ([["a", die(0, 2, "o")], ["b", ["plain", None, 2]]], "a", "b"),
        ([["b", die(0, 2, "o")], ["a", ["plain", None, 3]]], "a", "b"),
        ([["a", die(0, 2, "o")], ["b", bop("+", a, const(1))]], "a", "b"),
        ([["a", die(0, 2, "o")], ["b", bop("+", a, ["plain", None, 2])]], "a", "b"),
        ([["a", die(0, 2, "o")], ["b", bop("+", a, const(1))]], "b", "a"),
        ([["a", die(0, 2, "o")]], "a", "a"),
    ]
    for ls, l, r in progs:
        for op in OPS + ["ABS", "NOT"]:
            if op == "//":
                continue
            add("operands", lines=ls, left=l, right=r, ops=[op], opts={"fork": True} if op in ("MAX", "MIN") else None)
        add("operands", lines=ls, left=l, right=r, ops=["+", "-", "==", "<", "AND", "NOT", "ABS"])
    for ls in ([["a", const(3)]], [["a", const("m")]], [["a", const("m")], ["b", bop("+", a, const("k"))]], [["a", ["bool", "True"]]], [["a", bop("-", X, X)]]):
        add("kept", lines=ls, later=[["d", a]])
        add("kept", lines=ls, later=[["b", a], ["d", var("b")], ["a", bop("+", a, var("d"))]])
    add("kept", lines=[["a", die(0, 2, "o")], ["b", const("m")]], later=[["d", b], ["e", bop("+", a, b)]])
    add("kept", lines=[["a", die(0, 2, "o")], ["b", a]], later=[["d", b], ["e", a]])
    later = [["a", bop("+", a, const(1))], ["b", bop("-", a, const(2))], ["d", bop("*", a, const(3))]]
    for ls in ([["a", die(0, 2, "o")]], [["a", die(0, 2, "o")], ["b", bop("+", a, const(1))]], [["a", die(0, 2, "o")], ["b", ["plain", None, 2]]]):
        for k in range(1, 4):
            add("kept", lines=ls, later=later[:k])
        add("kept", lines=ls, later=[["a", const("m")], ["a", a], [None, bop("+", a, a)]])
        add("kept", lines=ls, later=[["d", a], ["a", var("d")], ["d", bop("-", a, var("d"))]])
    sums = list(SUM)
    for x, y in itertools.permutations(sums, 2):
        add("summaries", n=2, span=2, order=[x, y, x])
    for x in sums:
        for h in CHANGE:
            add("summaries", n=2, span=2, order=[x, x], change=[h])
    for h in ("histogram", "at_least_histogram", "at_most_histogram", "compare"):
        add("summaries", n=2, span=3, order=["dict", h, "dict", h, "at_least", "at_most", "map"])
    add("summaries", n=3, span=3, order=sums + sums[::-1])
    for n in sorted({10, 40} | set(around(mined, 4, 70))):
        for ls in ([["a", die(0, 2, "o")]], [["a", die(0, 2, "o")], ["b", bop("+", a, const(1))]]):
            add("kept", lines=ls, later=[["v" + "abcdefghij"[i // 10] + "abcdefghij"[i % 10], bop("+", const(i), const(1))] for i in range(n)])
            add("kept", lines=ls, later=[["a", const(i)] for i in range(n)])
        add("reparse", texts=[f"d2 + {i}" for i in range(n)] + ["d3 - @"], n=2)
        add("reparse", texts=["d3 - @"] * n + ["d3 + @"], n=1)
    for ts in (["d6", "2d4 + @", "d6"], ["3d6k2", "3d6d2", "3d6k2"], ["d[1,2,@]", "ABS(d4 - @)", "!d2"], ["VAR a = d4", "MAX(d4, @)", "d4 == @"]):
        add("reparse", texts=ts, n=2)
    return out
