from .. import ref
from ..prog import ODD, around

BOUNDS = {
    "quick": "counts 0..4 with up to 2 faces and 0..3 with 3 faces (any integer faces, any positive weights); counts around integers in the code up to 130 with 2 unit-weight faces",
    "thorough": "counts 0..6 with 2 faces, 0..4 with 3 faces, 0..3 with 4 faces; counts around integers in the code up to 300",
}


def pool(c, n, faces, weights=True, missing=False, symbolic_count=False, hi=3, law=True):
    xs = [(c.int(f"x{i}"), c.int(f"w{i}", 1) if weights else 1) for i in range(faces)]
    if symbolic_count:
        sn, n = c.pick("n", 0, hi)
        e = ("die", n, xs)
        t = c.num(sn) + "d" + ref.faces_text(c, xs)
    else:
        e = ("die", None if missing else n, xs)
        t = ref.text(c, e)
    r = ref.Ref(c).line(None, e)
    I = c.repo.PythonDiceInterpreter
    c.same(c.dist(I(), [t]), r, "distribution of NdD")
    lo = c.min_of([v for v, _ in xs])
    up = c.max_of([v for v, _ in xs])
    c.check(I().max([t])["stdout"] == up * n, "max of NdD")
    c.check(I().min([t])["stdout"] == lo * n, "min of NdD")
    if law:
        c.same([(v, p) for p, v, _ in c.law(lambda: I().roll([t])["stdout"])], r, "roll of NdD")


def rolled(c, n, x, y, t):
    """rolls of n dice with the faces x and y"""
    I = c.repo.PythonDiceInterpreter
    f = c.faces_drawn(lambda: I().roll([t])["stdout"], n, 2, [x * k + y * (n - k) for k in range(n + 1)])
    if f is not None and n:
        c.check(
            c.any([c.all([f[0] == n * x, f[1] == n * y]), c.all([f[0] == n * y, f[1] == n * x])]),
            "every one of the N dice counts in a roll",
        )
        for one in (0, n - 1):
            v, _ = c.scripted(lambda: I().roll([t])["stdout"], lambda w, i: 1 if i == one else 0)
            c.check(n * v == (n - 1) * f[0] + f[1], "N separate draws in a roll")


def many(c, n):
    """rolls, max and min of more dice than can be convolved here"""
    x, y = c.int("x"), c.int("y")
    c.assume(x < y)
    t = f"{c.num(n)}d[{c.num(x)},{c.num(y)}]"
    I = c.repo.PythonDiceInterpreter
    c.check(I().max([t])["stdout"] == y * n, "max of NdD")
    c.check(I().min([t])["stdout"] == x * n, "min of NdD")
    rolled(c, n, x, y, t)


def counts(mined):
    return sorted({150, 1000} | {v + d for v in mined["ints"] if 128 < v <= 2000 for d in (-1, 0, 1)})


def large(c, n, gap=None):
    """large counts: two faces, binomial weights"""
    x, y = c.int("x"), c.int("y")
    c.assume(c.not_(x == y))
    t = f"{c.num(n)}d[{c.num(x)},{c.num(y)}]"
    I = c.repo.PythonDiceInterpreter
    got = c.dist(I(), [t])
    row = [1]
    for _ in range(n):
        row = [1] + [row[i] + row[i + 1] for i in range(len(row) - 1)] + [1]
    want = [(x * k + y * (n - k), c.ratio(row[k], 2**n)) for k in range(n + 1)]
    c.same(got, want, "distribution of NdD")
    c.check(I().max([t])["stdout"] == c.ite(x > y, x, y) * n, "max of NdD")
    c.check(I().min([t])["stdout"] == c.ite(x > y, y, x) * n, "min of NdD")
    rolled(c, n, x, y, t)


def same_face(c, n):
    """very large counts: one face"""
    x = c.int("x")
    t = f"{c.num(n)}d[{c.num(x)}]"
    I = c.repo.PythonDiceInterpreter
    c.same(c.dist(I(), [t]), [(x * n, c.ratio(1, 1))], "distribution of NdD")
    for m in ("max", "min", "roll"):
        c.check(getattr(I(), m)([t])["stdout"] == x * n, m + " of NdD")


def listed(c, n, faces, law=True):
    """given faces, any weights"""
    xs = [(v, c.int(f"w{i}", 1)) for i, v in enumerate(faces)]
    e = ("die", n, xs)
    t = ref.text(c, e)
    r = ref.Ref(c).line(None, e)
    I = c.repo.PythonDiceInterpreter
    c.same(c.dist(I(), [t]), r, "distribution of NdD")
    c.check(I().max([t])["stdout"] == max(faces) * n, "max of NdD")
    c.check(I().min([t])["stdout"] == min(faces) * n, "min of NdD")
    if law:
        c.same([(v, p) for p, v, _ in c.law(lambda: I().roll([t])["stdout"])], r, "roll of NdD")


def fixed_sides(c, n, s):
    """two plain dice of many sides"""
    I = c.repo.PythonDiceInterpreter
    t = f"{n}d{s}"
    ways = {0: 1}
    for _ in range(n):
        new = {}
        for v, w in ways.items():
            for f in range(1, s + 1):
                new[v + f] = new.get(v + f, 0) + w
        ways = new
    c.same(c.dist(I(), [t]), [(v, c.ratio(w, s**n)) for v, w in ways.items()], "distribution of NdS")
    c.check(I().max([t])["stdout"] == n * s, "max of NdS")
    c.check(I().min([t])["stdout"] == n, "min of NdS")
    f = c.faces_drawn(lambda: I().roll([t])["stdout"], n, s)
    if f is not None:
        c.check(sorted(f) == [n * i for i in range(1, s + 1)], "roll of NdS is over the faces 1..S")
        for j, k in ((0, s - 1), (s - 1, 0), (s // 2, 1)):
            v, _ = c.scripted(lambda: I().roll([t])["stdout"], lambda w, i: (j, k)[i % 2])
            c.check(n * v == f[j] * ((n + 1) // 2) + f[k] * (n // 2), "roll of NdS adds its dice")


def sides(c, n, hi):
    """NdS with plain sides"""
    s, k = c.pick("s", 1, hi)
    t = f"{'' if n is None else c.num(n)}d{c.num(s)}"
    e = ("die", n, [(i, 1) for i in range(1, k + 1)])
    r = ref.Ref(c).line(None, e)
    I = c.repo.PythonDiceInterpreter
    c.same(c.dist(I(), [t]), r, "distribution of NdS")
    m = 1 if n is None else n
    c.check(I().max([t])["stdout"] == m * k, "max of NdS")
    c.check(I().min([t])["stdout"] == m, "min of NdS")
    c.same([(v, p) for p, v, _ in c.law(lambda: I().roll([t])["stdout"])], r, "roll of NdS")


HARNESSES = {"pool": pool, "many": many, "large": large, "sides": sides, "same_face": same_face, "listed": listed, "fixed_sides": fixed_sides}


def instances(tier, mined):
    out = []
    th = tier == "thorough"
    for n in range(0, 7 if th else 5):
        out.append({"h": "pool", "params": {"n": n, "faces": 2, "law": n <= 4}})
    for n in range(0, 5 if th else 4):
        out.append({"h": "pool", "params": {"n": n, "faces": 3, "weights": n < 3 or th}})
    for n in range(0, 4 if th else 3):
        out.append({"h": "pool", "params": {"n": n, "faces": 4, "weights": n < 3, "law": n < 3}})
    out.append({"h": "pool", "params": {"n": 1, "faces": 3, "missing": True}})
    out.append({"h": "pool", "params": {"n": 1, "faces": 1}})
    out.append({"h": "pool", "params": {"n": 4, "faces": 1}})
    out.append({"h": "pool", "params": {"n": 1, "faces": 2, "symbolic_count": True, "hi": 4}})
    for n in (None, 0, 1, 2, 3):
        out.append({"h": "sides", "params": {"n": n, "hi": 6 if n != 3 else 4}})
    for z in (1, 2):
        out.append({"h": "pool", "params": {"n": 2, "faces": 2, "_pad": z}})
        out.append({"h": "pool", "params": {"n": 1, "faces": 2, "symbolic_count": True, "hi": 2, "_pad": z}})
        out.append({"h": "sides", "params": {"n": 2, "hi": 4, "_pad": z}})
        out.append({"h": "large", "params": {"n": 10, "_pad": z}})
    for n in sorted({7, 150, 1000} | {v + d for v in mined["ints"] if 100 < v <= 5000 for d in (-1, 0, 1)}):
        out.append({"h": "same_face", "params": {"n": n}})
    for n in counts(mined):
        out.append({"h": "many", "params": {"n": n}})
    for fs in ODD:
        out.append({"h": "listed", "params": {"n": 2, "faces": fs}})
        out.append({"h": "listed", "params": {"n": 3, "faces": fs[:3]}})
    for s in (2, 3, 4, 6):
        for z in (1, 0, -1):
            out.append({"h": "listed", "params": {"n": 2, "faces": list(range(z, z + s)), "law": s < 6}})
            out.append({"h": "listed", "params": {"n": 1, "faces": list(range(z, z + s))[::-1]}})
            if s < 4:
                out.append({"h": "listed", "params": {"n": 3, "faces": list(range(z, z + s)), "law": s < 3}})
    for s in sorted({7, 8, 20} | set(around(mined, 7, 52))):
        out.append({"h": "listed", "params": {"n": 1, "faces": list(range(1, s + 1))}})
    for s in sorted(set(around(mined, 7, 130)) | {20} | {v + d for v in mined["ints"] if 130 < v <= 500 for d in (0, 1)}):
        out.append({"h": "fixed_sides", "params": {"n": 2, "s": s}})
    cap = 300 if th else 130
    ns = {8, 13, 20, 40, 64}
    for v in mined["ints"]:
        if 3 <= v <= cap:
            ns |= {v - 1, v, v + 1}
    for n in sorted(ns):
        out.append({"h": "large", "params": {"n": n}})
    return out
