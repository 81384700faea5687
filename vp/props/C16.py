from ..prog import OPS, SIGNED

BOUNDS = {
    "quick": "expressions of up to 3 nested operators and programs of up to 4 lines; dice counts and keep/drop counts are symbolic and unbounded, faces fixed (up to 100) or up to 3 symbolic entries; costs under a ! below 10^9",
    "thorough": "as quick with every operator pair and custom dice of up to 4 symbolic entries",
}
ASSUMPTIONS = [SIGNED, "the product with 1.1 is taken as exact (true of floats for costs below 10^9)"]
OPTS = {"signed": True}

# trees: ["D", count, faces]  ["K"|"X", count, faces, k]  ["C", id]  ["B", text]  ["V", name]
#        ["o", op, l, r]  ["abs", x]  ["not", x]  ["par", x]
# count, k: null, a number or an id of a symbolic one;  faces: text or a number of symbolic entries


def number(c, x, lo=0):
    return c.int("n" + x, lo) if isinstance(x, str) else x


def faces_of(c, f, tag):
    """(text, number of distinct faces)"""
    if isinstance(f, int):
        xs = [c.int(f"f{tag}_{i}") for i in range(f)]
        cnt = 0
        for i, x in enumerate(xs):
            cnt = cnt + c.ite(c.any([x == y for y in xs[:i]]), 0, 1)
        return "[" + ",".join(c.num(x) for x in xs) + "]", cnt
    if f.isdigit():
        return f, int(f)
    if f == "%":
        return f, 100
    if f == "F":
        return f, 3
    vals = set()
    for p in f.strip("[]").split(","):
        p = p.strip().split("*")[0]
        if not p:
            continue
        i = p.find("-", 1)
        if i > 0:
            a, b = int(p[:i]), int(p[i + 1 :])
            vals |= set(range(min(a, b), max(a, b) + 1))
        else:
            vals.add(int(p))
    return f, len(vals)


def walk(c, t, env):
    """(text, cost)"""
    k = t[0]
    if k == "D":
        n = number(c, t[1])
        ft, fc = faces_of(c, t[2], str(t[1]))
        return ("" if n is None else c.num(n)) + "d" + ft, (1 if n is None else n) * fc
    if k in ("K", "X"):
        n, kk = number(c, t[1]), number(c, t[3])
        ft, fc = faces_of(c, t[2], str(t[1]))
        text = ("" if n is None else c.num(n)) + "d" + ft + ("k" if k == "K" else "d") + c.num(kk)
        n = 1 if n is None else n
        if k == "K":
            if c.decided(n <= kk):
                return text, n * fc
            if c.decided(kk == 0):
                return text, 2
            return text, n * kk * fc
        if c.decided(n <= kk):
            return text, 2
        if c.decided(kk == 0):
            return text, n * fc
        return text, n * (n - kk) * fc
    if k == "C":
        return c.num(c.int("c" + t[1])), 2
    if k == "B":
        return t[1], 2
    if k == "V":
        return t[1], env[t[1]]
    if k == "o":
        a, x = walk(c, t[2], env)
        b, y = walk(c, t[3], env)
        if t[1] in ("MAX", "MIN"):
            return f"{t[1]}({a}, {b})", x + y
        return f"{a} {t[1]} {b}", x + y
    a, x = walk(c, t[1], env)
    if k == "abs":
        return f"ABS({a})", x
    if k == "par":
        return f"({a})", x
    if k == "not":
        c.assume(x < 10 ** 9)
        return f"!{a}", (11 * x) // 10
    raise AssertionError(k)


def cost(c, lines, split=None, warm=None):
    env, texts, total = {}, [], 0
    costs = []
    for name, t in lines:
        a, x = walk(c, t, env)
        if name is not None:
            env[name] = x
            a, x = f"VAR {name} = {a}", x + 2
        texts.append(a)
        costs.append(x)
        total = total + x
    interp = c.repo.PythonDiceInterpreter()
    if warm:
        getattr(interp, warm)(["VAR zz = 5", "zz + 1"])

    def run():
        if not split:
            got = interp.get_estimated_cost(texts)
            c.check(got == total, "estimated cost")
            return
        i = 0
        for n in split:
            got = interp.get_estimated_cost(texts[i : i + n])
            want = 0
            for x in costs[i : i + n]:
                want = want + x
            c.check(got == want, "estimated cost of a later call")
            i += n

    _, draws = c.scripted(run, lambda w, i: 0)
    c.check(len(draws) == 0, "no random numbers are drawn")


HARNESSES = {"cost": cost}


def instances(tier, mined):
    th = tier == "thorough"
    out = []

    def add(lines, **kw):
        out.append({"h": "cost", "params": dict({"lines": lines}, **kw)})

    def one(t, **kw):
        add([[None, t]], **kw)

    faces = ["1", "6", "20", "%", "F", "[1,2,3]", "[1,1,2]", "[1*5,2]", "[-3--1]", "[2-5*3,4]", "[1,2,]", "[0]", 1, 2, 3]
    faces += [str(m) for m in mined["ints"] if 1 < m <= 300]
    if th:
        faces.append(4)
    for f in faces:
        one(["D", "a", f])
        one(["D", None, f])
        for k in ("K", "X"):
            one([k, "a", f, "k"])
            one([k, None, f, "k"])
            one([k, "a", f, 0])
            one([k, 4, f, "k"])
    D = lambda n: ["D", n, "6"]
    leaves = [["C", "x"], ["B", "True"], ["B", "False"], D("a"), ["K", "a", "[1,2]", "k"], ["X", "a", "F", "k"]]
    for x in leaves:
        for u in ("abs", "not", "par"):
            one([u, x])
            one([u, [u, x]])
        one(["not", ["par", ["abs", x]]])
        one(["abs", ["not", x]])
        add([["a", x], [None, ["V", "a"]]])
        add([["a", ["not", x]], [None, ["not", ["V", "a"]]]])
    for op in OPS:
        one(["o", op, D("a"), D("b")])
        one(["o", op, ["C", "x"], D("b")])
        one(["o", op, ["par", ["o", op, D("a"), ["C", "x"]]], D("b")])
        one(["not", ["o", op, D("a"), ["C", "x"]]])
        one(["abs", ["o", op, D("a"), D("b")]])
        add([["a", ["o", op, D("a"), D("b")]], [None, ["o", op, ["V", "a"], ["V", "a"]]]])
        for op2 in OPS if th else ("+", "MAX", "<"):
            one(["o", op, ["par", ["o", op2, D("a"), D("b")]], ["C", "x"]])
    A = ["V", "a"]
    add([["a", D("a")], ["b", ["o", "+", A, A]], [None, ["o", "*", A, ["V", "b"]]]])
    add([["a", D("a")], ["a", ["o", "+", A, D("b")]], ["a", ["not", A]], [None, A]])
    add([["a", D("a")], ["b", D("b")], [None, ["C", "x"]], [None, ["V", "b"]]])
    add([["a", D("a")], [None, A], [None, A], [None, ["not", A]]], split=[1, 1, 2])
    add([["a", D("a")], ["a", D("b")], [None, A]], split=[1, 1, 1])
    add([["a", ["C", "x"]], [None, A], [None, A]], split=[3])
    add([[None, ["not", D("a")]], [None, ["not", D("b")]]])
    add([[None, D("a")], [None, D("a")], [None, D("b")]])
    for w in ("roll", "max", "get_average"):
        add([["a", D("a")], [None, ["o", "+", A, D("b")]]], warm=w)
    out.append({"h": "cost", "params": {"lines": []}})
    return out
