import itertools

from .. import ref
from ..prog import SIGNED, around, tight

BOUNDS = {
    "quick": "every pair of the twelve operators in a row, every triple of six representative operators, with !, parentheses, ABS, MAX, MIN and VAR in every position of a pair; operands are unbounded symbolic constants or 2-faced dice; distribution, roll, max and min",
    "thorough": "every triple of the twelve operators, every sequence of four of the representatives",
}
ASSUMPTIONS = [
    SIGNED,
    "a roll of AND on values other than 0 and 1 is not compared (listed known finding of C03); divisors are assumed not to be zero",
]
OPTS = {"signed": True}

LEVEL = {"+": 2, "-": 2, "*": 3, "//": 3}
for _o in ("==", "!=", "<", "<=", ">", ">=", "AND", "OR"):
    LEVEL[_o] = 4


class P:
    """the documented grammar: precedence climbing, ! is a prefix of everything to its right"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, x=None):
        t = self.t[self.i]
        assert x is None or t == x, (t, x)
        self.i += 1
        return t

    def expr(self, low=1):
        t = self.take()
        if t == "!":
            left = ("not", self.expr(1))
        elif t == "VAR":
            name = self.take()
            self.take("=")
            left = ("set", name, self.expr(1))
        elif t == "(":
            left = ("par", self.expr(1))
            self.take(")")
        elif t == "ABS":
            self.take("(")
            left = ("abs", self.expr(1))
            self.take(")")
        elif t in ("MAX", "MIN"):
            self.take("(")
            a = self.expr(1)
            self.take(",")
            b = self.expr(1)
            self.take(")")
            left = ("mm", t, a, b)
        else:
            left = ("leaf", t)
        while self.peek() in LEVEL and LEVEL[self.peek()] >= low:
            op = self.take()
            left = ("bin", op, left, self.expr(LEVEL[op] + 1))
        return left


def tree(toks):
    p = P(toks)
    t = p.expr()
    assert p.peek() is None, toks
    return t


def value(c, t, leaf):
    k = t[0]
    if k == "leaf":
        return leaf[t[1]] if t[1] in leaf else int(t[1])
    if k in ("bin", "mm"):
        a, b = value(c, t[2], leaf), value(c, t[3], leaf)
        if t[1] == "//":
            c.assume(c.not_(b == 0))
        return ref.apply(c, t[1], a, b)
    if k == "set":
        return value(c, t[2], leaf)
    x = value(c, t[1], leaf)
    if k == "abs":
        return c.abs_(x)
    if k == "not":
        return c.ite(x > 0, 0, 1)
    return x


def plain(c, toks, bits=()):
    """operands w x y z are symbolic constants"""
    used = sorted({t for t in toks if t in ("w", "x", "y", "z")})
    leaf = {n: c.int(n, 0, 1) if n in bits else c.int(n) for n in used}
    text = " ".join(c.num(leaf[t]) if t in leaf else t for t in toks)
    want = value(c, tree(toks), leaf)
    new = c.repo.PythonDiceInterpreter
    d = c.dist(new(), [text])
    c.same(d, [(want, c.ratio(1, 1))], "distribution follows the documented parse")
    for m in ("max", "min") + (() if "AND" in toks else ("roll",)):
        c.check(getattr(new(), m)([text])["stdout"] == want, m + " follows the documented parse")
    if "VAR" in toks:
        name = toks[toks.index("VAR") + 1]
        inner = [t for t in subtrees(tree(toks)) if t[0] == "set"][0]
        got = new().get_probability_distributions_dict([text])[name]
        c.same(ref.pairs(got), [(value(c, inner, leaf), c.ratio(1, 1))], "the assignment takes everything to its right")
        if "AND" not in toks:
            c.check(new().roll([text])[name] == value(c, inner, leaf), "the rolled assignment takes everything to its right")


def subtrees(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            yield from subtrees(x)


def dice(c, toks):
    """operands are 2-faced dice, faces 1 apart"""
    used = [t for t in toks if t in ("w", "x", "y", "z")]
    faces = {n: [c.int(n + "0"), c.int(n + "1")] for n in used}
    text = " ".join(f"d[{c.num(faces[t][0])},{c.num(faces[t][1])}]" if t in faces else t for t in toks)
    tr = tree(toks)
    out = []
    for combo in itertools.product((0, 1), repeat=len(used)):
        out.append((value(c, tr, {n: faces[n][j] for n, j in zip(used, combo)}), c.ratio(1, 2 ** len(used))))
    new = c.repo.PythonDiceInterpreter
    c.same(c.dist(new(), [text]), out, "distribution follows the documented parse")
    law = c.law(lambda: new().roll([text])["stdout"])
    c.same([(v, p) for p, v, _ in law], out, "roll follows the documented parse")
    tight(c, new().max([text])["stdout"], [v for v, _ in out], 1, "max")
    tight(c, new().min([text])["stdout"], [v for v, _ in out], -1, "min")


HARNESSES = {"plain": plain, "dice": dice}


def instances(tier, mined):
    th = tier == "thorough"
    out = []
    ops = list(LEVEL)
    reps = ["+", "-", "*", "//", "<", "=="]
    seen = set()

    def add(s, h="plain"):
        t = s.split()
        if (h, s) not in seen:
            seen.add((h, s))
            i = {"h": h, "params": {"toks": t}}
            if ("*" in t or "//" in t) and ("MAX" in t or "MIN" in t or "ABS" in t or "!" in t):
                i["opts"] = {"fork": True}
            out.append(i)

    for p, q in itertools.product(ops, ops):
        add(f"x {p} y {q} z")
    for p, q, r in itertools.product(ops if th else reps, repeat=3):
        add(f"w {p} x {q} y {r} z")
    for p, q in itertools.product(reps, reps):
        add(f"( x {p} y ) {q} z")
        add(f"x {p} ( y {q} z )")
        add(f"! x {p} y {q} z")
        add(f"x {p} ! y {q} z")
        add(f"ABS ( x {p} y ) {q} z")
        add(f"x {p} ABS ( y {q} z )")
        add(f"MAX ( x {p} y , z ) {q} w")
        add(f"x {p} MIN ( y , z {q} w )")
        add(f"VAR a = x {p} y {q} z")
    for p in ops:
        add(f"! x {p} y")
        add(f"x {p} ! y")
        add(f"! x {p} ! y")
        add(f"( ! x ) {p} y")
        add(f"! ( x ) {p} y")
        add(f"! ! x {p} y")
        add(f"ABS ( x ) {p} y")
        add(f"MAX ( x , y ) {p} z")
        add(f"z {p} MIN ( x , y )")
        add(f"VAR a = x {p} y")
        add(f"VAR a = ! x {p} y")
        add(f"x {p} VAR a = y + z")
    for p in reps:
        add(f"( ( x {p} y ) )")
        add(f"ABS ( ABS ( x ) {p} y )")
        add(f"MAX ( MIN ( x , y ) {p} z , w )")
        add(f"! ( x {p} y ) + z")
        add(f"! ABS ( x {p} y )")
    add("! ! x")
    add("! ! ! x")
    add("( ! x ) + ( ! y )")
    add("VAR a = ( x )")
    for p, q in itertools.product(["+", "-", "*", "<"], repeat=2):
        if (p, q) != ("*", "*"):
            add(f"x {p} y {q} z", "dice")
    # long and deep: the grouping does not depend on how much there is
    for n in sorted({12, 25, 40} | set(around(mined, 4, 60))):
        add("x " + " ".join(f"{'+-'[i % 2]} {i * 3 + 1}" for i in range(n)) + " - y - z")
        add("x " + " ".join(f"{'-+'[i % 3 == 0]} {i + 2} * 2" for i in range(n)) + " - y")
        add("x - " + " - ".join(str(i) for i in range(n)) + " - y < z")
        add("( " * n + "x - y" + " )" * n + " - z")
        add("w - ( x - " * n + "y" + " )" * n + " - z")
        add("x - ( 2 - " * n + "y" + " )" * n + " - z")
        add("ABS ( 3 - " * min(n, 12) + "y" + " )" * min(n, 12) + " - z")
        add("! " * n + "x - y")
    add("! x + y", "dice")
    add("( ! x ) + y", "dice")
    add("ABS ( x ) - y", "dice")
    add("MAX ( x , y ) - z", "dice")
    if th:
        for s in itertools.product(["+", "-", "*", "//", "<"], repeat=4):
            add(f"v {s[0]} w {s[1]} x {s[2]} y {s[3]} z".replace("v", "2"))
    return out
