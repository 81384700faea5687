from .. import ref
from ..prog import SIGNED, Prog, adder, bop, build, const, die, par, program, tight, var

BOUNDS = {
    "quick": "numerators and divisors that are constants, dice of 2-3 faces (any integers, any weights), variables or sums; fixed divisors -7..7, 10 and 100 against unbounded numerators; divisions nested in every other construct",
    "thorough": "as quick with every fixed divisor -20..20 and 3-faced divisors",
}
ASSUMPTIONS = [SIGNED]
OPTS = {"signed": True}


def is_floor(c, q, n, k):
    """q is the floor of n / k, k a fixed non-zero number, without using //"""
    if k > 0:
        return c.all([k * q <= n, n < k * q + k])
    return c.all([k * q >= n, n > k * q + k])


def fixed(c, k, faces):
    """constant divisor, unbounded numerator"""
    xs = [c.int(f"x{i}") for i in range(faces)]
    num = c.num(xs[0]) if faces == 1 else "d[" + ",".join(c.num(x) for x in xs) + "]"
    t = f"{num} // {k}"
    new = c.repo.PythonDiceInterpreter
    law = c.law(lambda: new().roll([t])["stdout"])
    d = c.dist(new(), [t])
    for q in [v for _, v, _ in law] + [v for v, _ in d]:
        c.check(c.any([is_floor(c, q, x, k) for x in xs]), "a floored quotient")
    for x in xs:
        c.check(c.any([is_floor(c, v, x, k) for v, _ in d]), "every quotient is in the distribution")
        c.check(c.any([is_floor(c, v, x, k) for _, v, _ in law]), "every quotient can be rolled")
    for m, sign in (("max", 1), ("min", -1)):
        tight(c, getattr(new(), m)([t])["stdout"], [v for v, _ in d], sign, m)


def small(c, lo, hi):
    """both operands symbolic within lo..hi: every sign combination"""
    n, k = c.int("n", lo, hi), c.int("k", lo, hi)
    c.assume(c.not_(k == 0))
    _, kk = c.pick("k", lo, hi)
    t = f"{c.num(n)} // {c.num(k)}"
    new = c.repo.PythonDiceInterpreter
    for m in ("roll", "max", "min"):
        c.check(is_floor(c, getattr(new(), m)([t])["stdout"], n, kk), m)
    for v, _ in c.dist(new(), [t]):
        c.check(is_floor(c, v, n, kk), "distribution")


def zero(c, lines, divisor):
    """lines end in a division by `divisor`, which may or may not be able to be zero"""
    memo = {}
    built = [(n, build(c, t, memo)) for n, t in lines]
    text = [ref.line_text(c, n, e) for n, e in built]
    r = ref.Ref(c)
    for n, e in built[:-1]:
        r.line(n, e)
    y = build(c, divisor, memo)
    ys = r.values(e=y)
    new = c.repo.PythonDiceInterpreter
    if c.decided(c.any([v == 0 for v in ys])):
        for m in ("max", "min", "get_probability_distributions_dict", "get_probability_distributions", "get_average"):
            e, _ = c.raises(lambda: getattr(new(), m)(text))
            c.check(type(e).__name__ == "ZeroDivisionError", f"{m} raises when the divisor can be zero")
    else:
        for m in ("max", "min", "get_probability_distributions_dict"):
            e, _ = c.raises(lambda: getattr(new(), m)(text))
            c.check(e is None, f"{m} does not raise when the divisor can not be zero")
    law = c.law(lambda: new().roll(text)["stdout"])
    out = r.line("y", y)
    c.same([(1 if e is not None else 0, p) for p, _, e in law], [(c.ite(v == 0, 1, 0), p) for v, p in out], "roll raises exactly when the divisor rolls zero")


HARNESSES = {"program": program, "fixed": fixed, "small": small, "zero": zero}


def instances(tier, mined):
    th = tier == "thorough"
    out = []
    ks = [k for k in range(-20, 21)] if th else [k for k in range(-7, 8)]
    for k in sorted(set(ks + [10, 100, -100] + [m for m in mined["ints"] if m <= 1000])):
        if k:
            for f in (1, 2):
                out.append({"h": "fixed", "params": {"k": k, "faces": f}})
    out.append({"h": "small", "params": {"lo": -4, "hi": 4}})
    out.append({"h": "small", "params": {"lo": -9 if th else -6, "hi": 9 if th else 6}})
    add = adder(out, ["dist", "law", "max", "min"])
    a, b = var("a"), var("b")
    X, Y, Z = die(0, 2, "w"), die(1, 2, "w"), die(1, 2, "wz")
    div = bop("//", X, Z)
    add([[None, div]])
    add([[None, bop("//", X, const(2))]])
    add([[None, bop("//", X, const(-3))]])
    add([[None, bop("//", const("k"), Z)]])
    add([[None, bop("//", die(0, 3, ""), const(2))]])
    add([["a", X], [None, bop("//", a, const(2))]])
    add([["a", X], ["b", bop("//", a, const(3))], [None, b]])
    add([[None, bop("//", die(0, 2, "", 2), const(2))]])
    add([[None, bop("//", par(bop("+", X, const("k"))), const(2))]])
    for z in ([
        ([[None, bop("//", X, Y)]], Y),
        ([[None, bop("//", const("k"), Y)]], Y),
        ([[None, bop("//", const("k"), const("m"))]], const("m")),
        ([[None, bop("//", X, const("m"))]], const("m")),
        ([[None, bop("//", const(0), const("m"))]], const("m")),
        ([[None, bop("//", X, par(bop("+", Y, const("m"))))]], par(bop("+", Y, const("m")))),
        ([[None, bop("//", X, par(bop("-", Y, const("m"))))]], par(bop("-", Y, const("m")))),
        ([[None, bop("//", X, ["abs", Y])]], ["abs", Y]),
        ([[None, bop("//", X, par(["not", Y]))]], par(["not", Y])),
        ([[None, bop("//", X, bop("MAX", Y, const("m")))]], bop("MAX", Y, const("m"))),
        ([[None, bop("//", X, bop("MIN", Y, const("m")))]], bop("MIN", Y, const("m"))),
        ([[None, bop("//", X, par(bop("==", Y, const("m"))))]], par(bop("==", Y, const("m")))),
        ([[None, bop("//", X, par(bop(">", Y, const("m"))))]], par(bop(">", Y, const("m")))),
        ([[None, bop("//", const(1), ["bool", "True"])]], ["bool", "True"]),
        ([[None, bop("//", const(1), ["bool", "False"])]], ["bool", "False"]),
        ([[None, bop("//", X, par(bop("*", Y, const("m"))))]], par(bop("*", Y, const("m")))),
        # nested in something else
        ([[None, bop("+", const(1), bop("//", X, Y))]], Y),
        ([[None, bop("*", const(0), par(bop("//", X, Y)))]], Y),
        ([[None, bop("MAX", bop("//", X, Y), const(1))]], Y),
        ([[None, bop("MIN", const(1), bop("//", X, Y))]], Y),
        ([[None, ["abs", bop("//", X, Y)]]], Y),
        ([[None, ["not", bop("//", X, Y)]]], Y),
        ([[None, par(bop("//", X, Y))]], Y),
        ([[None, bop("OR", par(bop("//", X, Y)), const(1))]], Y),
        ([[None, bop("OR", const(1), par(bop("//", X, Y)))]], Y),
        ([[None, bop("==", par(bop("//", X, Y)), const(1))]], Y),
        ([[None, bop("//", bop("//", const("k"), Y), const(2))]], Y),
        ([["b", bop("//", X, Y)]], Y),
        # through a variable
        ([["a", Y], [None, bop("//", X, a)]], a),
        ([["a", Y], [None, bop("//", a, a)]], a),
        ([["a", Y], ["b", bop("+", a, const("m"))], [None, bop("//", const(5), b)]], b),
        ([["a", const("m")], ["b", bop("//", const("k"), a)]], a),
        ([["a", die(1, 3, "o")], [None, bop("//", const(6), par(bop("+", a, par(bop("==", a, const(0))))))]], par(bop("+", a, par(bop("==", a, const(0)))))),
        # dice that can add up to zero
        ([[None, bop("//", const("k"), die(1, 2, "", 2))]], die(1, 2, "", 2)),
        ([[None, bop("//", const("k"), ["keep", 1, 2, "", 2, 1])]], ["keep", 1, 2, "", 2, 1]),
        ([[None, bop("//", const("k"), ["drop", 1, 2, "", 2, 2])]], ["drop", 1, 2, "", 2, 2]),
        ([[None, bop("//", const("k"), ["plain", 1, 6])]], ["plain", 1, 6]),
        ([[None, bop("//", const("k"), par(bop("-", ["plain", 1, 6], const("m"))))]], par(bop("-", ["plain", 1, 6], const("m")))),
    ]):
        i = {"h": "zero", "params": {"lines": z[0], "divisor": z[1]}}
        s = str(z[0])
        if "'*'" in s or "MAX" in s or "MIN" in s:
            i["opts"] = {"fork": True}
        out.append(i)
    if th:
        for d in (die(1, 3, "w"), die(1, 3, "w", 2)):
            out.append({"h": "zero", "params": {"lines": [[None, bop("//", X, d)]], "divisor": d}})
    return out
