from ..prog import ODD, OPS, SIGNED, adder, around, bop, const, die, fixed, par, program, var

BOUNDS = {
    "quick": "programs of up to 5 lines over up to 3 variables assigned from dice of 2-3 faces (any distinct integer faces, equal weights where a variable is read more than once; arbitrary weights and repeated faces where it is read once or only the support is compared); every operator",
    "thorough": "as quick with 3 faced dice, deeper sharing and all set iteration orders for more shapes",
}
ASSUMPTIONS = [
    SIGNED,
    "a variable with unequal weights that is read more than once gets squared weights: a listed known finding; such programs are compared by support only",
]
OPTS = {"signed": True}
HARNESSES = {"program": program}


def instances(tier, mined):
    th = tier == "thorough"
    out = []
    add = adder(out, ["dist"])
    a, b, d = var("a"), var("b"), var("d")
    for op in OPS:
        z = "z" if op == "//" else ""
        # read twice
        add([["a", die(0, 2, "d" + z)], [None, bop(op, a, a)]])
        add([["a", die(0, 3, "o" + z)], [None, bop(op, a, a)]])
        # through another variable
        add([["a", die(0, 2, "d" + z)], ["b", bop("+", a, const("k"))], [None, bop(op, b, a)]])
        if op != "//":
            add([["a", die(0, 2, "d")], ["b", bop("+", a, const("k"))], [None, bop(op, a, b)]])
            add([["a", die(0, 2, "o")], ["b", bop("+", a, die(1, 2, "o"))], [None, bop(op, b, a)]])
            add([["a", die(0, 2, "o")], ["b", bop("+", a, die(1, 2, "w"))], [None, bop(op, b, a)]])
        # one read each: any weights
        add([["a", die(0, 2, "w")], ["b", die(1, 2, "w" + z)], [None, bop(op, a, b)]])
        add([["a", die(0, 2, "w")], ["b", bop(op, a, die(1, 2, "w" + z))], [None, b]])
        # non uniform, read twice: which outcomes are possible
        add([["a", die(0, 2, "w" + z)], [None, bop(op, a, a)]], ["support"])
        # a value and its negation / truth value entangled
        if op not in ("//",):
            add([["a", die(0, 3, "o")], ["b", bop("==", a, const("k"))], [None, bop(op, b, a)]])
    for op in ("+", "-", "*", "==", "<", "AND", "OR", "MAX"):
        # unary wrappers on one side
        add([["a", die(0, 2, "d")], [None, bop(op, ["abs", a], a)]])
        add([["a", die(0, 3, "o")], [None, bop(op, par(["not", a]), a)]])
    # three reads, chains, diamonds
    add([["a", die(0, 3, "o")], [None, bop("-", bop("+", a, a), a)]])
    add([["a", die(0, 2, "d")], ["b", bop("*", a, const(2))], ["d", bop("-", b, a)], [None, bop("-", d, a)]])
    add([["a", die(0, 2, "d")], ["b", bop("+", a, const(1))], ["d", bop("-", a, const(1))], [None, bop("-", b, d)]])
    add([["a", die(0, 2, "d")], ["b", bop("+", a, const(1))], ["d", bop("-", a, const(1))], [None, bop("*", b, d)]])
    # two shared sources
    add([["a", die(0, 2, "d")], ["b", die(1, 2, "d")], ["d", bop("-", a, b)], [None, bop("+", a, b)]])
    add([["a", die(0, 2, "o")], ["b", die(1, 2, "o")], ["d", bop("-", a, b)], [None, bop("+", d, b)]])
    add([["a", die(0, 2, "o")], ["b", die(1, 2, "o")], [None, bop("-", par(bop("+", a, b)), par(bop("+", b, a)))]])
    add([["a", die(0, 2, "o")], ["b", die(1, 2, "o")], [None, bop("-", par(bop("*", a, b)), par(bop("*", b, a)))]])
    # b = a + die, b - a is the die
    add([["a", die(0, 2, "o")], ["b", bop("+", a, die(1, 2, "o"))], [None, bop("-", b, a)]])
    add([["a", ["plain", None, 3]], ["b", bop("+", bop("*", a, const(10)), ["plain", None, 4])], [None, bop("-", b, bop("*", a, const("k")))]])
    add([["a", ["plain", None, 6]], [None, bop("+", bop("*", a, const("k")), a)]])
    add([["a", ["plain", None, 6]], ["b", bop(">=", a, const("k"))], [None, bop("*", b, a)]])
    # the README program: half damage on a save
    for n in (3, 4):
        add([["a", ["plain", None, n]], ["b", ["plain", None, 4]], ["d", par(bop(">=", a, const(2)))], [None, bop("//", b, par(bop("+", d, const(1))))]])
    # different names, same dice: independent
    add([["a", die(0, 2, "w")], ["b", die(0, 2, "w")], [None, bop("-", a, b)]])
    add([["a", ["keep", 0, 2, "", 2, 1]], ["b", ["keep", 0, 2, "", 2, 1]], [None, bop("-", a, b)]])
    # a variable and fresh dice
    add([["a", die(0, 2, "w")], [None, bop("-", a, die(0, 2, "w"))]])
    # across calls on one interpreter
    for op in ("-", "*", "=="):
        add([["a", die(0, 2, "d")], [None, bop(op, a, a)]], split=[1, 1])
        add([["a", die(0, 2, "d")], ["b", bop("+", a, const("k"))], [None, bop(op, b, a)]], split=[1, 1, 1])
    # every iteration order of the constraint sets
    o = {"set_order": "flip"}
    for op in ("-", "+", "<"):
        add([["a", die(0, 2, "o")], ["b", bop("+", a, const(1))], [None, bop(op, b, a)]], opts=o)
        add([["a", die(0, 2, "o")], ["b", die(1, 2, "o")], [None, bop(op, par(bop("+", a, b)), par(bop("-", a, b)))]], opts=o)
    # many variables
    names = ["a", "b", "d", "e", "f"]
    lines = [[n, die(i, 2, "o")] if i < 2 else [n, ["plain", None, 2]] for i, n in enumerate(names[: 5 if th else 4])]
    e = var("a")
    for n in names[1 : 5 if th else 4]:
        e = bop("+", e, var(n))
    add(lines + [[None, bop("-", e, var("a"))]])
    add(lines + [[None, bop("-", e, var(names[3]))]])
    # a variable with several sources is still one outcome, and still tied to each source
    for n in (1, 2, 3, 4):
        src = [[x, die(i, 2, "o") if i < 1 else ["plain", None, 2]] for i, x in enumerate(["a", "b", "d", "f"][:n])]
        e = a
        for x in ("b", "d", "f")[: n - 1]:
            e = bop("+", e, var(x))
        for rhs in (e, bop("+", e, ["plain", None, 2])):
            pre = src + [["e", rhs]]
            add(pre + [[None, bop("-", var("e"), var("e"))]])
            add(pre + [[None, bop("-", var("e"), a)]])
            add(pre + [[None, bop("*", var("e"), var(src[-1][0]))]])
            if n < 4 or th:
                add(pre + [["g", bop("-", var("e"), const("k"))], [None, bop("-", var("g"), var("e"))]])
            if n < 4:
                add(pre + [["e", bop("+", var("e"), const(1))], [None, bop("-", var("e"), var("e"))]])
                add(pre + [["g", var("e")], ["e", rhs], [None, bop("-", var("g"), var("e"))]])
    # chains of assignments
    for n in (3, 5, 8):
        ls = [["a", die(0, 2, "o")]]
        for i in range(n):
            ls.append([chr(ord("b") + i) + "v", bop("+", var("a" if i == 0 else chr(ord("a") + i) + "v"), const(1))])
        add(ls + [[None, bop("-", var(ls[-1][0]), a)]])
        add(ls + [[None, bop("*", var(ls[-1][0]), var(ls[1][0]))]])
    # larger dice
    for fs in ODD:
        for op in ("+", "-", "*", "<", ">=", "==", "OR", "MAX"):
            add([["a", fixed(0, fs)], ["b", bop("+", a, const("k"))], [None, bop(op, b, a)]])
        for n in (1, 2):
            add([["a", fixed(0, fs)], ["b", bop("*", a, const(n))], ["d", bop("-", b, a)], [None, bop("*", d, a)]])
    add([["a", fixed(0, [-1, 1, 0])], ["b", bop("*", a, a)], [None, bop("-", b, par(bop("*", const("k"), a)))]])
    for s in sorted({6, 10, 20} | set(around(mined, 7, 104))):
        add([["a", ["plain", None, s]], [None, bop("-", a, par(bop("+", a, const("k"))))]])
        add([["a", ["plain", None, s]], ["b", bop("+", a, const("k"))], [None, bop("==", a, b)]])
    return out
