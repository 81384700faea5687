from .. import ref
from ..prog import ODD, SIGNED, around, tight

BOUNDS = {
    "quick": "up to 4 dice of 2 faces and 3 dice of 3 faces (any integer faces, any weights for up to 3 dice; up to 20 dice of 2 faces with binomial weights; min, max and roll up to 1234 dice; one faced dice up to 120), every keep/drop count from 0 to N+1, counts also given as symbolic numerals; 2 faced dice of larger counts around integers of the code",
    "thorough": "up to 5 dice of 2 faces and 4 dice of 3 faces",
}
ASSUMPTIONS = [SIGNED]
OPTS = {"signed": True}


def select(c, kd, n, k, faces, flags="w", what=("dist", "max", "min", "law"), missing=False, sides=None, order=None, given=None):
    if given is not None:
        xs = [(v, c.int(f"w{i}", 1) if "w" in flags else 1) for i, v in enumerate(given)]
        body = "d" + ref.faces_text(c, xs)
    elif sides is not None:
        xs = [(i, 1) for i in range(1, sides + 1)]
        body = "d" + c.num(sides)
    else:
        xs = []
        for i in range(faces):
            v = c.int(f"x{i}")
            xs.append((v, c.int(f"w{i}", 1) if "w" in flags else 1))
        if order:
            for i in range(1, faces):
                c.assume(xs[i - 1][0] < xs[i][0])
        body = "d" + ref.faces_text(c, xs)
    t = ("" if missing else c.num(n)) + body + ("k" if kd == "keep" else "d") + c.num(k)
    check(c, t, kd, n, k, xs, what)


def check(c, t, kd, n, k, xs, what):
    e = (kd, n, xs, k)
    r = ref.Ref(c).line(None, e)
    I = c.repo.PythonDiceInterpreter
    if "dist" in what:
        c.same(c.dist(I(), [t]), r, "distribution of " + kd)
    lo = c.min_of([v for v, _ in xs])
    up = c.max_of([v for v, _ in xs])
    m = min(n, k) if kd == "keep" else max(0, n - k)
    if "max" in what:
        c.check(I().max([t])["stdout"] == up * m, "max of " + kd)
    if "min" in what:
        c.check(I().min([t])["stdout"] == lo * m, "min of " + kd)
    if "law" in what:
        c.same([(v, p) for p, v, _ in c.law(lambda: I().roll([t])["stdout"])], r, "roll of " + kd)


def counts(c, kd, hi, khi, faces=2, what=("dist", "max", "min", "law")):
    """count and keep/drop number as symbolic numerals"""
    sn, n = c.pick("n", 0, hi)
    sk, k = c.pick("k", 0, khi)
    xs = [(c.int(f"x{i}"), 1) for i in range(faces)]
    t = c.num(sn) + "d" + ref.faces_text(c, xs) + ("k" if kd == "keep" else "d") + c.num(sk)
    check(c, t, kd, n, k, xs, what)


def beyond(c, kd, n):
    """keep/drop number above the number of dice, any size; n dice of any size dropped"""
    k = c.int("k", n)
    xs = [(c.int("x0"), c.int("w0", 1)), (c.int("x1"), 1)]
    t = f"{n}d" + ref.faces_text(c, xs) + ("k" if kd == "keep" else "d") + c.num(k)
    I = c.repo.PythonDiceInterpreter
    if kd == "keep":
        r = ref.Ref(c).line(None, ("die", n, xs))
    else:
        r = [(0, 1)]
    c.same(c.dist(I(), [t]), r, "all dice " + kd)
    c.same([(v, p) for p, v, _ in c.law(lambda: I().roll([t])["stdout"])], r, "roll, all dice " + kd)
    up, lo = c.max_of([v for v, _ in xs]), c.min_of([v for v, _ in xs])
    c.check(I().max([t])["stdout"] == (up * n if kd == "keep" else 0), "max, all dice " + kd)
    c.check(I().min([t])["stdout"] == (lo * n if kd == "keep" else 0), "min, all dice " + kd)


def zero(c, kd):
    """any number of dice, none kept / all dropped"""
    n = c.int("n", 0)
    xs = [(c.int("x0"), 1), (c.int("x1"), 1)]
    I = c.repo.PythonDiceInterpreter
    t = c.num(n) + "d" + ref.faces_text(c, xs) + ("k0" if kd == "keep" else "d" + c.num(n))
    c.same(c.dist(I(), [t]), [(0, 1)], "constant 0")
    for m in ("roll", "max", "min"):
        c.check(getattr(I(), m)([t])["stdout"] == 0, m + " is 0")


def one_face(c, kd, n, k):
    """equal faces: any number of dice is one outcome"""
    x = c.int("x")
    m = min(n, k) if kd == "keep" else max(0, n - k)
    t = f"{n}d[{c.num(x)}]{'k' if kd == 'keep' else 'd'}{k}"
    I = c.repo.PythonDiceInterpreter
    c.same(c.dist(I(), [t]), [(x * m, c.ratio(1, 1))], "distribution of " + kd)
    for g in ("max", "min", "roll"):
        c.check(getattr(I(), g)([t])["stdout"] == x * m, g + " of " + kd)


def large(c, kd, n, k, dist=True):
    """two faces, so the number of high ones decides: binomial weights"""
    x, y = c.int("x"), c.int("y")
    c.assume(x < y)
    t = f"{n}d[{c.num(x)},{c.num(y)}]{'k' if kd == 'keep' else 'd'}{k}"
    row = [1]
    for _ in range(n):
        row = [1] + [row[i] + row[i + 1] for i in range(len(row) - 1)] + [1]
    want = []
    m = min(n, k) if kd == "keep" else n - k
    for h in range(n + 1):  # h dice show y
        hs = min(h, m) if kd == "keep" else max(0, m - (n - h))
        want.append((y * hs + x * (m - hs), c.ratio(row[h], 2**n)))
    I = c.repo.PythonDiceInterpreter
    if dist:
        c.same(c.dist(I(), [t]), want, "distribution of " + kd)
    c.check(I().max([t])["stdout"] == y * m, "max of " + kd)
    c.check(I().min([t])["stdout"] == x * m, "min of " + kd)
    f = c.faces_drawn(lambda: I().roll([t])["stdout"], n, 2)
    if f is None:
        return
    c.check(c.any([c.all([f[0] == x * m, f[1] == y * m]), c.all([f[0] == y * m, f[1] == x * m])]), "roll of equal dice")
    if m == 0:
        return
    hi, lo = (1, 0) if c.decided(f[1] == y * m) else (0, 1)
    for h in (0, 1, n // 2, n - 1, n):
        hs = min(h, m) if kd == "keep" else max(0, m - (n - h))
        v, _ = c.scripted(lambda: I().roll([t])["stdout"], lambda w, i: hi if i < h else lo)
        c.check(v == y * hs + x * (m - hs), "roll with a given number of high dice")
        v, _ = c.scripted(lambda: I().roll([t])["stdout"], lambda w, i: lo if i < n - h else hi)
        c.check(v == y * hs + x * (m - hs), "roll with a given number of high dice, other order")


HARNESSES = {"select": select, "counts": counts, "beyond": beyond, "zero": zero, "one_face": one_face, "large": large}


def instances(tier, mined):
    th = tier == "thorough"
    out = []

    def add(h, opts=None, **p):
        i = {"h": h, "params": p}
        if opts:
            i["opts"] = opts
        out.append(i)

    for kd in ("keep", "drop"):
        for n in range(0, 5):
            for k in range(0, n + 2):
                add("select", kd=kd, n=n, k=k, faces=2, flags="w" if n < 4 else "")
        for n in (1, 2, 3):
            for k in range(0, n + 1):
                add("select", kd=kd, n=n, k=k, faces=3, flags="w" if n < 3 else "", order=n == 3, opts={"fork": True})
        add("select", kd=kd, n=1, k=1, faces=3, missing=True)
        add("select", kd=kd, n=1, k=0, faces=2, missing=True)
        add("select", kd=kd, n=2, k=1, faces=4, flags="", order=True, opts={"fork": True})
        for n, k, s in ((2, 1, 6), (3, 1, 4), (3, 2, 4), (4, 3, 3), (4, 1, 3), (2, 1, 20), (2, 1, 12)):
            add("select", kd=kd, n=n, k=k, faces=0, sides=s, what=["dist", "max", "min"] + (["law"] if s**n < 150 else []))
        for g in ODD:
            for n, k in ((2, 1), (3, 1), (3, 2)):
                add("select", kd=kd, n=n, k=k, faces=0, given=g, flags="w" if n < 3 else "")
        for s in (2, 3, 4, 6):
            for z in (1, 0, -1):
                add("select", kd=kd, n=2, k=1, faces=0, given=list(range(z, z + s)), flags="w", what=["dist", "max", "min"] + (["law"] if s < 5 else []))
        for g in ([1, 1, 2], [5, 5], [0, -3, 0], [2, 10, 1, 9, 11, 100]):
            for n, k in ((2, 1), (3, 2), (3, 1)):
                add("select", kd=kd, n=n, k=k, faces=0, given=g, flags="w" if n < 3 and len(g) < 4 else "")
        for s in sorted({37, 64, 100} | set(around(mined, 7, 104))):
            add("select", kd=kd, n=2, k=1, faces=0, sides=s, what=["dist", "max", "min"])
        add("counts", kd=kd, hi=3, khi=4)
        add("counts", kd=kd, hi=2, khi=2, _pad=1, opts={"signed": False})
        add("select", kd=kd, n=3, k=2, faces=0, sides=4, _pad=1)
        for n in (0, 1, 2):
            add("beyond", kd=kd, n=n)
        add("zero", kd=kd)
        for n, k in ((6, 2), (6, 3), (8, 1), (8, 7), (11, 10), (12, 4), (13, 11), (20, 10)):
            add("large", kd=kd, n=n, k=k)
        for n, k in ((101, 100), (120, 9), (112, 110)):
            add("one_face", kd=kd, n=n, k=k)
            add("large", kd=kd, n=n, k=k, dist=False)
        for n, k in ((1001, 1000), (1234, 123)):
            add("large", kd=kd, n=n, k=k, dist=False)
        for n in around(mined, 41, 300):
            add("one_face", kd=kd, n=n, k=n - 1)
            add("large", kd=kd, n=n, k=n // 2, dist=False)
        ns = set()
        for v in mined["ints"]:
            if 5 <= v <= 40:
                ns |= {v - 1, v, v + 1}
        for n in sorted(ns):
            add("large", kd=kd, n=n, k=2)
            add("large", kd=kd, n=n, k=n - 1)
        if th:
            for k in range(0, 6):
                add("select", kd=kd, n=5, k=k, faces=2, flags="")
                add("select", kd=kd, n=4, k=min(k, 4), faces=3, flags="", order=True, opts={"fork": True})
            for n in (16, 24, 32):
                for k in (1, n // 2, n - 1):
                    add("large", kd=kd, n=n, k=k)
    return out
