from ..prog import ODD, OPS, SIGNED, adder, around, bop, const, die, fixed, par, program, var

BOUNDS = {
    "quick": "each operator on two dice of 2 symbolic faces, expressions of up to 3 dice and 2 operators, keep/drop of up to 3 dice, programs of up to 4 lines with shared variables",
    "thorough": "as quick with 3 faced dice and all pairs of operators",
}
ASSUMPTIONS = [
    SIGNED,
    "MIN/MAX of operands that share a variable: only the outer bound is checked; the loose bound is a listed known finding"
]
OPTS = {"signed": True}
HARNESSES = {"program": program}
MM = ("max", "min")


def instances(tier, mined):
    th = tier == "thorough"
    out = []

    add = adder(out, MM)

    a, b, d = var("a"), var("b"), var("d")
    for op in OPS:
        z = "z" if op == "//" else ""
        add([[None, bop(op, die(0, 2), die(1, 2, z))]])
        add([["r", bop(op, die(0, 2), die(1, 2, z))]])
        add([[None, bop(op, const("k"), die(1, 2, z))]])
        add([[None, bop(op, die(0, 2), const("k") if op != "//" else const(-3))]])
        add([["a", die(0, 2)], ["b", die(1, 2, z)], [None, bop(op, a, b)]])
        if op not in ("MIN", "MAX"):
            # entangled operands: only reachable combinations count
            add([["a", die(0, 2, "z" if op == "//" else "")], [None, bop(op, a, a)]])
            if op != "//":
                add([["a", die(0, 2)], [None, bop(op, a, par(bop("-", const("k"), a)))]])
                add([["a", die(0, 2)], ["b", bop("+", a, die(1, 2))], [None, bop(op, b, a)]])
        else:
            add([["a", die(0, 2)], [None, bop(op, a, a)]])
            add([["a", die(0, 2)], [None, bop(op, a, bop("-", const("k"), a))]], outer=True)
        if th:
            add([[None, bop(op, die(0, 3), die(1, 3, z))]])
    for n in (0, 1, 2, 3):
        add([[None, die(0, 3, "", n)]])
        add([[None, bop("*", die(0, 2, "", n), die(1, 2))]])
    for kd in ("keep", "drop"):
        for n, k in ((1, 1), (2, 1), (3, 1), (3, 2), (2, 0), (2, 2), (2, 3), (0, 1)):
            add([[None, [kd, 0, 2, "", n, k]]])
            add([["a", [kd, 0, 2, "", n, k]], [None, bop("*", a, const("k"))]])
    for k in ("abs", "not", "par"):
        add([[None, [k, die(0, 3)]]])
        add([["r", [k, die(0, 3)]]])
        add([[None, [k, par(bop("-", die(0), die(1)))]]])
        add([["a", die(0, 3)], [None, [k, par(bop("-", a, const("k")))]]])
    pick = OPS if th else ["+", "-", "*", "//", "==", "<", "AND", "MIN"]
    for o1 in pick:
        for o2 in ["+", "-", "*", ">=", "OR", "MAX"] if not th else OPS:
            if "*" in (o1, o2) or o1 == "//":
                # products and quotients of products: smaller operands
                inner = par(bop(o2, die(0, 2, "o"), const("k") if o2 != "//" else const(3)))
                add([[None, bop(o1, inner, die(2, 1, "z"))]])
                if o1 != "//":
                    add([[None, bop(o1, die(2, 1), inner)]])
                else:
                    add([[None, bop(o1, par(bop(o2, die(0, 1), const("k"))), die(2, 2, "oz"))]] if o2 != "//" else [[None, bop(o1, die(0, 1), die(2, 2, "oz"))]])
            elif o2 == "//":
                add([[None, bop(o1, par(bop(o2, die(0), const(3))), die(2))]])
            else:
                add([[None, bop(o1, par(bop(o2, die(0), die(1))), die(2))]])
                add([[None, bop(o1, die(2), par(bop(o2, die(0), die(1))))]])
    # reassigned variables and several variables
    add([["a", die(0, 2, "o")], ["b", bop("*", a, const("k"))], ["a", bop("-", b, a)], [None, bop("+", a, b)]])
    add([["a", die(0, 2)], ["b", bop("+", a, die(1, 2))], ["a", bop("-", b, a)], [None, bop("+", a, b)]])
    add([["a", die(0, 2)], ["b", a], ["a", die(1, 2)], [None, bop("-", a, b)]], split=[1, 1, 1, 1])
    add([["a", die(0, 2)], ["b", bop("-", a, a)], [None, bop("*", b, die(1, 2))]])
    add([["a", die(0, 2)], ["b", bop("==", a, const("k"))], ["d", bop("!=", a, const("k"))], [None, bop("+", bop("*", b, const(2)), d)]])
    for fs in ODD:
        for op in OPS:
            if op != "//":
                add([[None, bop(op, fixed(0, fs), const("k"))]])
            add([["r", bop(op, fixed(0, fs), fixed(1, [-3, 12, 5]))]])
        for kd in ("fkeep", "fdrop"):
            for n, k in ((2, 1), (3, 1), (3, 2), (4, 1), (4, 3)):
                add([[None, [kd, 0, fs, "", n, k]]])
        for n in (2, 3):
            add([[None, fixed(0, fs, "", n)]])
            add([[None, bop("-", const("k"), fixed(0, fs, "", n))]])
    # operands that share a variable: given faces keep products linear in the constant
    for fs in ([1, 2, 3], [-2, 1, 3], [2, 9, 10], [-5, -1], [0, 1]):
        A = ["a", fixed(0, fs)]
        for op in OPS:
            if op == "//":
                continue
            out_ = op in ("MIN", "MAX")
            for e in (par(bop("-", const("k"), a)), par(bop("+", a, const("k"))), par(bop("*", a, const(-2)))):
                add([A, [None, bop(op, a, e)]], outer=out_)
                if not out_:
                    add([A, ["r", bop(op, e, a)]])
                    add([A, [None, ["abs", par(bop(op, a, e))]]])
            add([A, ["b", bop("-", const("k"), a)], [None, bop(op, b, fixed(1, [1, 4]))]])
            if not out_:
                add([A, ["b", bop("+", a, fixed(1, [1, 4]))], [None, bop(op, a, b)]])
                add([A, ["b", bop("-", const("k"), a)], ["d", bop(op, a, b)], [None, bop("+", d, a)]])
    for s in sorted(set(around(mined, 7, 130)) | {20, 64}):
        add([[None, bop("-", ["plain", None, s], const(7))]])
        add([["a", ["plain", None, s]], [None, bop("*", a, par(bop("-", a, const(9))))]])
        add([[None, bop("//", ["plain", None, s], const(-4))]])
    for n in sorted(set(around(mined, 5, 9)) | {6}):
        add([[None, ["plain", n, 3]]])
        for kd in ("fkeep", "fdrop"):
            add([[None, [kd, 0, [-2, 5], "", n, 2]]])
    # what is rolled stays within min and max
    for op in ("+", "-", "*", "<", "OR", "MAX"):
        add([["a", die(0, 2)], ["b", bop(op, a, die(1, 2))], [None, bop("-", b, a)]], ["rollbound"])
    return out
