from .. import ref
from ..prog import SIGNED, around, bop, build, const, die, par, tight, var

BOUNDS = {
    "quick": "histories of up to 6 calls on up to 2 interpreters, each of up to 4 lines over up to 3 variables with symbolic constants and 2-faced dice (any integer faces and weights); every outcome of the random draws; every reporting method; failing lines in between",
    "thorough": "as quick, with longer histories (up to 8 calls) and every pair of methods",
}
ASSUMPTIONS = [
    SIGNED,
    "a history reads a variable by the kind of call that assigned it (rolled values by roll, distributions by the distribution calls); after get_estimated_cost of an assignment the rolled value is not compared (listed known finding)",
]
OPTS = {"signed": True}

DIST = ("get_probability_distributions_dict", "get_probability_distributions", "get_average")


class Model:
    def __init__(self, c):
        self.ref = ref.Ref(c)
        self.dists = set()
        self.consts = {}


def has_die(e):
    return e[0] == "die" or any(has_die(x) for x in e if isinstance(x, tuple))


def value(c, e, env):
    """values the line can roll, given the variables"""
    return [v for _, _, v in ref.evaluate(c, e, [(1, env)])[0]]


def freeze(method, res):
    """comparable content of a result"""
    if method == "get_probability_distributions":
        return {k: list(v.get_dict_form().items()) for k, v in res.items()}
    if method == "get_probability_distributions_dict":
        return {k: list(v.items()) for k, v in res.items()}
    return dict(res.items())


def unchanged(c, method, before, after, label):
    c.check(sorted(before) == sorted(after), label + ": names")
    for k in before:
        if method.startswith("get_probability"):
            c.check(len(before[k]) == len(after[k]), label + ": outcomes")
            for (a, p), (b, q) in zip(before[k], after[k]):
                c.check(c.all([a == b, c.eq(p, q)]), label)
        else:
            c.check(c.eq(before[k], after[k]), label)


def history(c, calls, shared_parser=False, mutate=False):
    """calls: [interpreter, method, [[name, tree] | "raw text"], expected error or null]"""
    memo = {}
    n = 1 + max(x[0] for x in calls)
    if shared_parser:
        p = c.repo.PythonDiceParser()
        interps = [c.repo.PythonDiceInterpreter(parser=p) for _ in range(n)]
    else:
        interps = [c.repo.PythonDiceInterpreter() for _ in range(n)]
    models = [Model(c) for _ in range(n)]
    seen = []
    draws = [0]
    for who, method, lines, *err in calls:
        m = models[who]
        kind = "dist" if method in DIST else method
        texts, out, rolls = [], None, []
        for ln in lines:
            if isinstance(ln, str):
                texts.append(ln)
                continue
            name, e = ln[0], build(c, ln[1], memo)
            texts.append(ref.line_text(c, name, e))
            if kind == "roll":
                rolls.append((name, e))
            elif kind in ("max", "min"):
                m.ref.line(name if name is not None else "%", e)
                out = m.ref.values(name=name if name is not None else "%")
                if name is not None:
                    m.consts[name] = (1 if kind == "max" else -1, out)
                    m.dists.add(name)
            elif kind == "dist":
                out = m.ref.line(name, e)
                if name is not None:
                    m.dists.add(name)
        call = getattr(interps[who], method)
        e, res = c.raises(lambda: call(texts))
        want = err[0] if err else None
        if want is not None:
            c.check(type(e).__name__ == want, f"{method} raises {want}")
            for name, e in rolls:
                # what came before the failing line has run
                assert not has_die(e)
                if name is not None:
                    m.consts[name] = value(c, e, m.consts)[0]
        else:
            if e is not None:
                raise e
            if kind == "roll":
                for name, e in rolls:
                    vals = value(c, e, m.consts)
                    got = res["stdout"] if name is None else res[name]
                    if has_die(e):
                        out = got
                        c.check(c.any([got == v for v in vals]), "a rolled value is one the line can roll")
                    else:
                        out = vals[0]
                    if name is not None:
                        m.consts[name] = out
                c.check(sorted(res) == sorted(list(m.consts) + ["stdout"]), "roll reports every variable and stdout")
                for k, v in list(m.consts.items()) + [("stdout", out)]:
                    c.check(res[k] == v, "rolled value of a variable or stdout")
            elif kind in ("max", "min"):
                c.check(sorted(res) == sorted(list(m.consts) + ["stdout"]), "reports every variable and stdout")
                for k, v in list(m.consts.items()) + [("stdout", (1 if kind == "max" else -1, out))]:
                    if isinstance(v, tuple):
                        tight(c, res[k], v[1], v[0], f"{method} of {k}")
                    else:
                        c.check(res[k] == v, f"{method} of {k}")
            elif kind == "dist":
                c.check(sorted(res) == sorted(list(m.dists) + ["stdout"]), "reports every variable and stdout")
                for k in list(m.dists) + ["stdout"]:
                    truth = out if k == "stdout" else m.ref.var(k)
                    if method == "get_average":
                        acc = 0
                        for v, p in truth:
                            acc = acc + p * v
                        c.check(c.eq(res[k], acc), f"average of {k}")
                    else:
                        got = res[k].get_dict_form() if method == "get_probability_distributions" else res[k]
                        c.same(ref.pairs(got), truth, f"distribution of {k}")
            if kind != "get_estimated_cost":
                seen.append((method, freeze(method, res), res))
                if mutate:
                    # the caller may do what it likes with a result
                    res = seen.pop()[2]
                    for k in list(res):
                        if method == "get_probability_distributions_dict":
                            res[k][12345] = 0.5
                        res[k] = None
                    res["zz"] = 5
        for meth, frozen, old in seen[:-1] if seen else []:
            unchanged(c, meth, frozen, freeze(meth, old), "an earlier result is unchanged")


HARNESSES = {"history": history}


def instances(tier, mined):
    th = tier == "thorough"
    out = []

    def add(calls, **kw):
        out.append({"h": "history", "params": dict({"calls": calls}, **kw)})

    a, b, d = var("a"), var("b"), var("d")
    k, m = const("k"), const("m")
    D = DIST[0]
    kinds = ["roll", "max", "min"] + list(DIST)
    A = ["a", die(0, 2, "w")]
    for x in kinds:
        # every variable and the last line; then later calls
        add([[0, x, [["a", k]]], [0, x, [[None, a]]]])
        add([[0, x, [["a", k], ["b", m], [None, bop("-", a, b)]]], [0, x, [[None, const(7)]]], [0, x, [["d", bop("+", a, b)]]]])
        add([[0, x, [A]], [0, x, [[None, bop("+", a, k)]]], [0, x, [[None, const(1)]]]])
        add([[0, x, [A, ["b", bop("*", a, const(2))]]], [0, x, [["a", k]]], [0, x, [["d", bop("-", const(1), a)], [None, const(0)]]]])
        add([[0, x, [["a", k], ["b", m], ["a", const(3)], [None, bop("+", a, b)]]]])
        # reassigned in later calls: the last value holds
        add([[0, x, [["a", k]]], [0, x, [["a", m]]], [0, x, [[None, a]]]])
        add([[0, x, [["a", k]]], [0, x, [["a", bop("+", a, const(1))]]], [0, x, [["a", bop("+", a, const(1))], [None, bop("*", a, const(2))]]]])
        # two interpreters, same names
        add([[0, x, [["a", k]]], [1, x, [["a", m]]], [0, x, [[None, a]]], [1, x, [[None, a]]]])
        add([[0, x, [["a", k], ["b", k]]], [1, x, [["a", m]]], [1, x, [["d", a]]], [0, x, [[None, bop("-", b, a)]]]], shared_parser=True)
        add([[0, x, [["a", k]]], [1, x, ["a"], "KeyError"], [1, x, [["b", m]]], [0, x, ["b"], "KeyError"], [0, x, [[None, a]]]])
        # what the caller does with a result is not seen by the interpreter
        add([[0, x, [["a", k], ["b", A[1]]]], [0, x, [[None, a]]], [0, x, [["a", m], [None, const(2)]]]], mutate=True)
        # failing lines: what came before stays, the interpreter goes on
        for bad, err in (["d6 d6", "ValueError"], ["2 + ? 3", "ValueError"], ["zz", "KeyError"], ["VAR b = zz", "KeyError"]):
            add([[0, x, [["a", k]]], [0, x, [["a", bop("+", a, m)], bad], err], [0, x, [[None, const(4)]]]])
            add([[0, x, [["a", k]]], [0, x, [bad], err], [0, x, [[None, a]]]])
            add([[0, x, [["a", k], ["d", m], [None, const(3)], bad], err], [0, x, [[None, bop("-", a, d)]]]])
            add([[1, x, [["a", m]]], [0, x, [["a", k], bad], err], [1, x, [bad], err], [0, x, [["d", a]]], [1, x, [["d", a]]]])
    # calls of different kinds do not disturb each other
    for x in DIST:
        add([[0, "roll", [["a", k]]], [0, x, [["a", die(0, 2, "o")]]], [0, "roll", [[None, a]]], [0, x, [[None, bop("+", a, const(1))]]]])
        add([[0, x, [A]], [0, "roll", [["a", k], ["b", m]]], [0, x, [[None, a]]], [0, "roll", [[None, bop("-", b, a)]]]])
        add([[0, x, [["a", die(0, 2, "o")]]], [0, "roll", [["a", k]]], [0, x, [[None, bop("-", a, a)]]]])
        for y in ("max", "min"):
            add([[0, x, [A]], [0, y, [["b", k]]], [0, x, [[None, a]]]])
        # reading lines of one kind leaves what the other kind kept
        for e in (a, bop("+", a, const(1)), bop("-", a, b), par(a), ["abs", a], bop("MAX", a, b), bop("==", a, b)):
            for y in ("get_average", D):
                for v in (m, die(0, 2, "o")):
                    add([[0, "roll", [["a", k], ["b", const(5)]]], [0, x, [["a", v], ["b", const(6)]]], [0, y, [[None, e]]], [0, "roll", [[None, bop("-", a, b)]]]])
            add([[0, x, [["a", m], ["b", const(6)]]], [0, "roll", [["a", k], ["b", const(5)]]], [0, "roll", [[None, e]]], [0, x, [[None, bop("-", a, b)]]], [0, "roll", [[None, a]]]])
    for y in DIST:
        for x in DIST:
            if x != y:
                add([[0, x, [A, ["b", k]]], [0, y, [[None, a]]], [0, x, [[None, b]]]])
    # estimating the cost of lines without assignments changes nothing
    for x in ("roll", "max", D):
        add([[0, x, [["a", k], ["b", m]]], [0, "get_estimated_cost", [[None, ["plain", 2, 6]], [None, const(4)]]], [0, x, [[None, bop("-", a, b)]]]])
    # a name that looks like the bookkeeping of another
    for x in ("roll", D):
        add([[0, x, [["a", k], ["a_", m], ["_a", const(1)], [None, bop("-", var("a_"), par(bop("+", a, var("_a"))))]]]])
        add([[0, x, [["stdin", k], ["value", m], ["name", const(1)]]], [0, x, [[None, bop("-", var("value"), var("stdin"))]]]])
    for nm in [n for n in mined["names"] if n not in ("stdout", "d")][:20]:
        add([[0, D, [[nm, k], ["a", m]]], [0, D, [[None, bop("-", var(nm), a)]]]])
    names = ["a", "b", "d", "e", "f", "g", "h"]
    for x in ("roll", D, "max"):
        ls = [[n, const("k%d" % i)] for i, n in enumerate(names)]
        add([[0, x, ls[:3]], [0, x, ls[3:]], [0, x, [[None, bop("+", a, var("h"))]]]])
        add([[0, x, [l]] for l in ls])
    # many variables, many calls, repeated texts
    def nm(i):
        return "v" + "abcdefghij"[i // 10 % 10] + "abcdefghij"[i % 10] + ("x" if i >= 100 else "")

    for n in sorted({12, 40} | set(around(mined, 8, 104))):
        ls = [[nm(i), const("k%d" % i) if i in (0, 1, n - 1) else const(i * 3 - 7)] for i in range(n)]
        last = [[None, bop("-", var(nm(0)), var(nm(n - 1)))]]
        for x in ("roll", D, "max"):
            add([[0, x, ls], [0, x, last]])
        add([[0, D, [l]] for l in ls] + [[0, D, last]])
        add([[0, "roll", [l]] for l in ls] + [[0, "roll", last]])
        add([[0, D, [["a", k]]]] + [[0, D, [[None, const(i)]]] for i in range(n)] + [[0, D, [[None, bop("+", a, k)]]]])
        # the same texts read by two interpreters that hold other values
        both = [[None, bop("+", a, const(i))] for i in range(n)]
        add([[0, D, [["a", k]]], [1, D, [["a", m]]]] + [[j, D, [l]] for l in both[: n // 2] for j in (0, 1)] + [[0, D, both[:1]], [1, D, both[:1]]])
        add([[0, "max", [["a", bop("+", a, const(1)) if i else k]]] for i in range(min(n, 60))] + [[0, "max", [[None, a]]]])
    if th:
        for x in kinds:
            for y in kinds:
                add([[0, x, [["a", k]]], [1, y, [["a", m], ["b", m]]], [0, x, [["a", bop("+", a, const(1))]]], [1, y, [[None, bop("-", b, a)]]], [0, x, [[None, a]]], [1, y, [["d", a]]], [0, x, [["b", a]]], [1, y, [[None, d]]]])
    return out
