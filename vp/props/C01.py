from .. import ref
from ..prog import ODD, adder, around, bop, const, die, fixed, program, var

BOUNDS = {
    "quick": "each operator on two dice of 2 faces (any integers, negative, zero and coinciding ones included) with any positive weights, 3x2 and 2x3 faces with unit weights (3x1 and 1x3 for * and //), a die of 6, 12 and 24 fixed faces against any constant on either side, several dice and keep/drop dice as operands, two constants; // with divisors other than 0",
    "thorough": "as quick, with 3x2 faces with weights, 3x3 faces with unit weights and fixed dice of up to 100 faces",
}
OPS = ["+", "-", "*", "//", "==", "!=", "<", "<=", ">", ">=", "AND", "OR", "MAX", "MIN"]


def binop(c, op, nx, ny, wx=True, wy=True, lim=None, lo=None, hi=None):
    """X op Y for independent dice X, Y with symbolic faces and weights"""
    xs = [(c.int(f"x{i}", lo, hi), c.int(f"wx{i}", 1, lim) if wx else 1) for i in range(nx)]
    ys = [(c.int(f"y{i}", lo, hi), c.int(f"wy{i}", 1, lim) if wy else 1) for i in range(ny)]
    if op == "//":
        for y, _ in ys:
            c.assume(c.not_(y == 0))
    X, Y = ("die", None, xs), ("die", None, ys)
    e = ("mm", op, X, Y) if op in ("MAX", "MIN") else ("bin", op, X, Y)
    r = ref.Ref(c).line(None, e)
    got = c.repo.PythonDiceInterpreter().get_probability_distributions_dict([ref.text(c, e)])["stdout"]
    if op in ("==", "!=", "<", "<=", ">", ">=", "AND", "OR"):
        c.check(c.all([c.any([k == 0, k == 1]) for k in got.keys()]), "boolean results are 0 or 1")
    c.same(ref.pairs(got), r, f"distribution of X {op} Y")


HARNESSES = {"binop": binop, "program": program}


def instances(tier, mined):
    th = tier == "thorough"
    out = []

    def add(**p):
        out.append({"h": "binop", "params": p})

    prog = adder(out, ["dist"])
    for op in OPS:
        z = "z" if op == "//" else ""
        add(op=op, nx=2, ny=2)
        add(op=op, nx=1, ny=1)
        if op in ("*", "//"):
            add(op=op, nx=3, ny=1, wx=False, wy=False)
            add(op=op, nx=1, ny=3, wx=False, wy=False)
        if th or op not in ("*", "//"):
            add(op=op, nx=3, ny=2, wx=False, wy=False)
            add(op=op, nx=2, ny=3, wx=False, wy=False)
        if th:
            add(op=op, nx=3, ny=2)
            add(op=op, nx=2, ny=3)
            add(op=op, nx=3, ny=3, wx=False, wy=False)
        # many outcomes against a constant
        for s in (6, 12, 24) + ((100,) if th else ()):
            if op == "//":
                if s <= 12:
                    prog([[None, bop(op, const("k"), ["plain", None, s])]])
                for k in (-3, -1, 2, 7):
                    prog([[None, bop(op, ["plain", None, s], const(k))]])
            else:
                prog([[None, bop(op, ["plain", None, s], const("k"))]])
                prog([[None, bop(op, const("k"), ["plain", None, s])]])
        # operands that are themselves combinations
        prog([[None, bop(op, die(0, 2, "o", 2), die(1, 2, z + "o"))]])
        prog([[None, bop(op, die(0, 1), ["keep", 1, 2, z + "o" + ("p" if z else ""), 2, 1])]])
        prog([[None, bop(op, ["plain", 3, 6], ["plain", 2, 4])]])
        prog([["a", die(0, 2, "w")], [None, bop(op, var("a"), die(1, 2, z))]])
        # given faces (several digits, either sign, any order), any weights
        for i, fs in enumerate(ODD):
            gs = [x for x in ODD[(i + 1) % len(ODD)] if x or not z]
            prog([[None, bop(op, fixed(0, fs, "w"), fixed(1, gs))]])
            prog([[None, bop(op, fixed(0, fs), fixed(1, gs, "w"))]])
        # many outcomes: sizes around the integers in the code
        for s in sorted(set(around(mined, 5, 130)) | {30, 64}):
            prog([[None, bop(op, ["plain", None, s], const(3))]])
            prog([[None, bop(op, const(-7), ["plain", None, s])]])
            prog([[None, bop(op, ["plain", None, s], fixed(1, [-3, 5, 20]))]])
        prog([[None, bop(op, ["plain", None, 20], ["plain", None, 20])]])
        for v in sorted({int(v**0.5) + 1 for v in mined["ints"] if 300 < v <= 10000}):
            prog([[None, bop(op, ["plain", None, v], ["plain", None, v])]])
        for s in [v + d for v in mined["ints"] if 130 < v <= 3000 for d in (0, 1)]:
            prog([[None, bop(op, ["plain", None, s], const(3))]])
    return out
