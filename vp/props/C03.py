from ..prog import ODD, OPS, SIGNED, adder, around, bop, const, die, fixed, par, program, var
from .C05 import counts, many

BOUNDS = {
    "quick": "each operator on two dice of 2 symbolic faces (weighted where the instance says so), 1-4 dice of 2-3 faces, keep/drop of up to 3 dice, unary operators, two and three operator expressions, programs of up to 4 lines; AND on operands that are 0 or 1",
    "thorough": "as quick with 3 faced dice, more dice and all pairs of operators",
}
ASSUMPTIONS = [
    SIGNED,
    "rolls of AND with operands other than 0 and 1 are a listed known finding (the roll is bitwise)"]

OPTS = {"signed": True}
HARNESSES = {"program": program, "many": many}


def flag(op, base=""):
    if op == "AND":
        return base + "b"
    return base


def instances(tier, mined):
    th = tier == "thorough"
    out = []

    add = adder(out, ["law"])

    for op in OPS:
        z = "z" if op == "//" else ""
        f = flag(op)
        add([[None, bop(op, die(0, 2, f + "w"), die(1, 2, f + z))]])
        add([[None, bop(op, die(0, 2, f), die(1, 2, f + z + "w"))]])
        add([[None, bop(op, die(0, 2, f), die(1, 2, f + z))]], ["rolldist"])
        if op != "AND":
            add([[None, bop(op, die(0, 2, "w"), const("k") if op != "//" else const(3))]])
            add([[None, bop(op, const("k"), die(1, 2, z + "w"))]])
        # the same dice text mentioned twice: independent rolls
        add([[None, bop(op, die(0, 2, f + z), die(0, 2, f + z))]])
        if th:
            add([[None, bop(op, die(0, 3, f + "w"), die(1, 2, f + z + "w"))]])
            add([[None, bop(op, die(0, 2, f, 2), die(1, 2, f + z + "p" if op == "//" else f))]])
    for n in (1, 2, 3):
        add([[None, die(0, 2, "w", n)]])
        add([[None, die(0, 3, "w" if n < 3 else "", n)]])
    add([[None, die(0, 2, "", 4)]])
    for kd in ("keep", "drop"):
        for n, k in ((1, 1), (2, 1), (3, 1), (3, 2), (2, 0), (2, 2), (2, 3), (0, 1)):
            add([[None, [kd, 0, 2, "w", n, k]]])
        add([[None, [kd, 0, 3, "", 2, 1]]])
    for k in ("abs", "not", "par"):
        add([[None, [k, die(0, 3, "w")]]])
        add([[None, [k, bop("-", die(0, 2, ""), die(1, 2, ""))] if k != "not" else [k, par(bop("-", die(0), die(1)))]]])
    # variables: one roll, read many times
    a, b = var("a"), var("b")
    for op in ("+", "-", "*", "==", "<", "OR", "MAX"):
        add([["a", die(0, 2, "w")], [None, bop(op, a, a)]])
        add([["a", die(0, 2, "")], ["b", bop(op, a, die(1, 2))], [None, bop("-", b, a)]])
    add([["a", die(0, 2, "")], ["a", bop("+", a, die(1, 2))], [None, bop("*", a, a)]])
    add([["a", die(0, 2, "")], ["b", bop("-", a, a)], ["a", die(1, 2)], [None, bop("+", bop("+", a, b), a)]])
    add([["a", die(0, 2, "w")], ["b", a], ["a", die(1, 2, "w")], [None, bop("-", a, b)]])
    add([["a", die(0, 2)], ["b", die(0, 2)], [None, bop("-", a, b)]])
    add([["a", die(0, 2)], ["b", die(1, 2)], [None, bop("-", a, b)]], split=[1, 1, 1])
    add([["a", ["keep", 0, 2, "w", 2, 1]], [None, bop("+", a, ["drop", 1, 2, "", 2, 1])]])
    # deeper trees
    pick = OPS if th else ["+", "-", "*", "<", "OR", "MIN"]
    for o1 in pick:
        for o2 in pick if th else ["+", "*", ">=", "MAX"]:
            if "//" in (o1, o2) or "AND" in (o1, o2):
                continue
            add([[None, bop(o1, par(bop(o2, die(0, 2, "o" if "*" in (o1, o2) else ""), die(1))), die(2, 1 if "*" in (o1, o2) else 2))]])
            if th:
                add([[None, bop(o1, die(2), par(bop(o2, die(0), die(1))))]])
    add([[None, ["abs", bop("-", die(0, 2, "", 2), die(1, 2))]]])
    add([[None, ["not", par(bop("OR", die(0, 2), ["not", die(1, 2)]))]]])
    for s in (1, 2, 6, 10):
        add([[None, ["bin", "+", ["plain", None, s], const("k")]]])
    for fs in ODD:
        add([[None, fixed(0, fs, "w")]])
        add([[None, fixed(0, fs, "w", 2)]])
        for kd in ("fkeep", "fdrop"):
            add([[None, [kd, 0, fs, "w", 2, 1]]])
            add([[None, [kd, 0, fs, "", 3, 2]]])
        add([["a", fixed(0, fs, "w")], [None, bop("*", var("a"), fixed(1, [2, -11]))]])
    for s in sorted(set(around(mined, 11, 130)) | {20, 64} | {v + d for v in mined["ints"] if 130 < v <= 2000 for d in (0, 1)}):
        add([[None, ["plain", None, s]]])
        add([["a", ["plain", None, s]], [None, bop("-", a, a)]])
    # consecutive faces, any weights: not the plain die they look like
    for s in sorted({2, 3, 4, 6, 8, 12, 20} | set(around(mined, 2, 52))):
        add([[None, fixed(0, list(range(1, s + 1)), "w")]])
        add([[None, bop("+", fixed(0, list(range(s, 0, -1)), "w"), const(1))]])
        if s <= 12:
            add([[None, fixed(0, list(range(0, s)), "w")]])
            add([[None, fixed(0, list(range(1 - s, 1)), "w")]])
        if s <= 8:
            add([[None, fixed(0, list(range(1, s + 1)), "w", 2)]])
            for kd in ("fkeep", "fdrop"):
                add([[None, [kd, 0, list(range(1, s + 1)), "w", 2, 1]]])
    add([[None, fixed(0, [-1, 0, 1], "w")]])
    for kd in ("fkeep", "fdrop"):
        for s in sorted(set(around(mined, 7, 60)) | {12}):
            add([[None, [kd, 0, list(range(1, s + 1)), "", 2, 1]]])
    for n, s in ((5, 3), (6, 2), (7, 2), (10, 2), (4, 5)):
        add([[None, ["plain", n, s]]])
        for kd in ("fkeep", "fdrop"):
            for k in (1, n // 2, n - 1):
                add([[None, [kd, 0, list(range(1, s + 1)), "", n, k]]])
    for n in counts(mined):
        out.append({"h": "many", "params": {"n": n}})
    for n, s in ((2, 3), (3, 2), (2, 6)):
        add([[None, ["bin", "+", ["plain", n, s], const("k")]]])
    return out
