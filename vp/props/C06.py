from .. import ref
from ..prog import around

BOUNDS = {
    "quick": "custom dice of up to 3 entries, any integer values, any multiplier >= 1, ranges of up to 5 values with any integer start in either order; dS for S up to 8 and around integers in the code up to 130",
    "thorough": "custom dice of up to 4 entries, ranges of up to 8 values, dS for S up to 20 and around integers in the code up to 300",
}
ASSUMPTIONS = ["a multiplier of 0 and d0 are outside the claim"]


def entry(c, i, kind, span):
    """(text, [(value, weight)])"""
    if kind[0] == "v":
        v = c.int(f"v{i}")
        faces = [v]
        t = c.num(v)
    else:
        a = c.int(f"a{i}")
        b = c.int(f"b{i}")
        c.assume(c.all([b - a < span, a - b < span]))
        lo, hi = (a, b) if c.decided(a <= b) else (b, a)
        t = c.num(a) + "-" + c.num(b)
        faces = [lo]
        while c.decided(lo + len(faces) <= hi):
            faces.append(lo + len(faces))
    m = 1
    if kind.endswith("*"):
        m = c.int(f"m{i}", 1)
        t += "*" + c.num(m)
    return t, [(v, m) for v in faces]


STYLES = {
    "tight": ("[", ",", "]"),
    "space": ("[ ", " , ", " ]"),
    "after": ("[", ", ", "]"),
    "trailing": ("[", ",", ",]"),
    "trailing_space": ("[ ", ", ", " , ]"),
    "wide": ("[  ", "  ,", "   ]"),
    "tab": ("[\t", ",\t", "\t]"),
}


def custom(c, kinds, style="tight", span=4, use="die"):
    es = [entry(c, i, k, span) for i, k in enumerate(kinds)]
    o, s, e = STYLES[style]
    t = o + s.join(x for x, _ in es) + e
    faces = [f for _, fs in es for f in fs]
    den = ref.total(faces)
    want = [(v, c.ratio(w, den)) for v, w in faces]
    I = c.repo.PythonDiceInterpreter
    if use == "die":
        c.same(c.dist(I(), ["d" + t]), want, "faces of d[..]")
        live = [(v, w) for v, w in faces]
        big = small = None
        top = I().max(["d" + t])["stdout"]
        bot = I().min(["d" + t])["stdout"]
        c.check(c.all([c.implies(w > 0, v <= top) for v, w in live] + [c.any([c.all([w > 0, v == top]) for v, w in live])]), "max of d[..]")
        c.check(c.all([c.implies(w > 0, v >= bot) for v, w in live] + [c.any([c.all([w > 0, v == bot]) for v, w in live])]), "min of d[..]")
    elif use == "roll":
        c.same([(v, p) for p, v, _ in c.law(lambda: I().roll(["d" + t])["stdout"])], want, "roll of d[..]")
    elif use == "keep":
        # keep one of one die: the die itself; drop the higher of two
        c.same(c.dist(I(), ["1d" + t + "k1"]), want, "1d[..]k1")
        pairs = []
        for v, w in faces:
            for v2, w2 in faces:
                pairs.append((c.ite(v <= v2, v, v2), c.ratio(w * w2, den * den)))
        c.same(c.dist(I(), ["2d" + t + "d1"]), pairs, "2d[..]d1")
    elif use == "kroll":
        law = c.law(lambda: I().roll(["2d" + t + "k1"])["stdout"])
        pairs = []
        for v, w in faces:
            for v2, w2 in faces:
                pairs.append((c.ite(v >= v2, v, v2), c.ratio(w * w2, den * den)))
        c.same([(v, p) for p, v, _ in law], pairs, "roll of 2d[..]k1")


def plain(c, lo, hi):
    s, k = c.pick("s", lo, hi)
    I = c.repo.PythonDiceInterpreter
    got = c.dist(I(), ["d" + c.num(s)])
    c.same(got, [(i, c.ratio(1, k)) for i in range(1, k + 1)], "faces of dS")
    c.check(I().max(["d" + c.num(s)])["stdout"] == s, "max of dS")
    c.check(I().min(["d" + c.num(s)])["stdout"] == 1, "min of dS")
    got = c.dist(I(), ["1d" + c.num(s) + "k3"])
    c.same(got, [(i, c.ratio(1, k)) for i in range(1, k + 1)], "faces of keep dS")
    if k <= 12:
        c.same([(v, p) for p, v, _ in c.law(lambda: I().roll(["d" + c.num(s)])["stdout"])], [(i, c.ratio(1, k)) for i in range(1, k + 1)], "roll of dS")


def special(c, which):
    """d% and dF, offset by a symbolic constant"""
    z = c.int("z")
    faces = list(range(1, 101)) if which == "%" else [-1, 0, 1]
    n = len(faces)
    I = c.repo.PythonDiceInterpreter
    for t in (f"d{which}", f"1d{which}", f"1d{which}k2", f"1d{which}d0"):
        got = c.dist(I(), [t])
        c.same([(v + z, p) for v, p in got], [(v + z, c.ratio(1, n)) for v in faces], f"faces of {t}")
        c.check(I().max([t])["stdout"] + z == max(faces) + z, f"max of {t}")
        c.check(I().min([t])["stdout"] + z == min(faces) + z, f"min of {t}")
        law = c.law(lambda: I().roll([t])["stdout"])
        c.same([(v + z, p) for p, v, _ in law], [(v + z, c.ratio(1, n)) for v in faces], f"roll of {t}")


def written(c, text, faces, count=0):
    """an entry list as written, plus an unbounded symbolic entry; faces: [[value, weight]]"""
    v, m = c.int("v"), c.int("m", 1)
    t = "d[" + text + "," + c.num(v) + "*" + c.num(m) + "]"
    xs = [(a, b) for a, b in faces] + [(v, m)]
    den = ref.total(xs)
    want = [(a, c.ratio(b, den)) for a, b in xs]
    I = c.repo.PythonDiceInterpreter
    c.same(c.dist(I(), [t]), want, "faces of d[..]")
    c.check(I().max([t])["stdout"] == c.max_of([a for a, _ in xs]), "max of d[..]")
    c.check(I().min([t])["stdout"] == c.min_of([a for a, _ in xs]), "min of d[..]")
    if len(faces) <= 12:
        c.same([(x, p) for p, x, _ in c.law(lambda: I().roll([t])["stdout"])], want, "roll of d[..]")


HARNESSES = {"written": written, "custom": custom, "plain": plain, "special": special}


def instances(tier, mined):
    th = tier == "thorough"
    out = []
    singles = [["v"], ["v*"], ["r"], ["r*"]]
    doubles = [[a, b] for a in ("v", "v*", "r", "r*") for b in ("v", "v*", "r", "r*")]
    triples = [["v", "v", "v"], ["v*", "v*", "v*"], ["v", "r*", "v"], ["r*", "v", "v*"]]
    for ks in singles + doubles:
        nr = sum(k[0] == "r" for k in ks)
        out.append({"h": "custom", "params": {"kinds": ks, "span": 5 if nr < 2 else 3}})
    for ks in triples:
        out.append({"h": "custom", "params": {"kinds": ks, "span": 3}})
    for st in STYLES:
        if st != "tight":
            for ks in (["v"], ["v", "v*"], ["r*", "v"], ["v", "r"]):
                out.append({"h": "custom", "params": {"kinds": ks, "style": st, "span": 3}})
    for ks in singles + [["v", "v*"], ["r", "v"], ["v*", "r*"]]:
        for use in ("roll", "keep", "kroll"):
            out.append({"h": "custom", "params": {"kinds": ks, "span": 3, "use": use}})
    for ks in (["v", "v*"], ["r*"]):
        for use in ("roll", "keep"):
            for st in ("trailing", "space"):
                out.append({"h": "custom", "params": {"kinds": ks, "span": 2, "use": use, "style": st}})
    if th:
        for ks in [["v", "v", "v", "v"], ["v*", "r*", "v*", "v"], ["r", "r", "v"], ["r*", "r*", "v*"]]:
            out.append({"h": "custom", "params": {"kinds": ks, "span": 3}})
        for ks in singles:
            out.append({"h": "custom", "params": {"kinds": ks, "span": 8}})
    out.append({"h": "plain", "params": {"lo": 1, "hi": 20 if th else 8}})
    for v in mined["ints"]:
        if 8 < v <= (300 if th else 130):
            out.append({"h": "plain", "params": {"lo": v - 1, "hi": v + 1}})
    for ks in singles + [["v", "v*"], ["r*", "v"]]:
        for z in (1, 2):
            out.append({"h": "custom", "params": {"kinds": ks, "span": 3, "_pad": z}})
        out.append({"h": "custom", "params": {"kinds": ks, "span": 2, "use": "keep", "_pad": 1}})
    out.append({"h": "plain", "params": {"lo": 1, "hi": 4, "_pad": 1}})
    out.append({"h": "plain", "params": {"lo": 9, "hi": 11, "_pad": 1}})
    def wr(text, faces):
        out.append({"h": "written", "params": {"text": text, "faces": [list(f) for f in faces]}})

    wr("10,9,100,-10,-9", [(x, 1) for x in (10, 9, 100, -10, -9)])
    wr("-1,0,1,0,-1,7,7,7", [(x, 1) for x in (-1, 0, 1, 0, -1, 7, 7, 7)])
    wr("1-10,5-15", [(x, 1) for x in list(range(1, 11)) + list(range(5, 16))])
    wr("10-8*3,-2--4*2,9*5", [(x, 3) for x in (8, 9, 10)] + [(x, 2) for x in (-2, -3, -4)] + [(9, 5)])
    wr("-3-12*10", [(x, 10) for x in range(-3, 13)])
    wr("100-103,1000*12,99-98", [(x, 1) for x in range(100, 104)] + [(1000, 12), (99, 1), (98, 1)])
    for n in sorted({5, 12, 40} | set(around(mined, 4, 110))):
        wr(",".join(str(i * 7 % n) for i in range(n)), [(i * 7 % n, 1) for i in range(n)])
        wr(",".join(f"{3 * i}*{i + 1}" for i in range(n)), [(3 * i, i + 1) for i in range(n)])
        wr(f"{-n}-{0}", [(-i, 1) for i in range(n + 1)])
        wr(f"{n}-{2 * n}*{n}", [(n + i, n) for i in range(n + 1)])
        wr(f"7*{n},{n}*{n}", [(7, n), (n, n)])
    out.append({"h": "special", "params": {"which": "%"}})
    out.append({"h": "special", "params": {"which": "F"}})
    return out
