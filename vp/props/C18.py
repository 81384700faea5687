import itertools

from .. import ref
from ..prog import ODD, around
from .C14 import LEVEL

BOUNDS = {
    "quick": "every expression form with symbolic constants (any integer, either sign), symbolic 2-faced dice and keep/drop dice with symbolic counts up to 2, every pair of operators, nestings of every two constructs, nestings of three operators with every grouping, variables; custom dice notations with ranges, multipliers, spaces and trailing commas",
    "thorough": "as quick with every triple of operators",
}
ASSUMPTIONS = ["a roll of AND on values other than 0 and 1 is not compared (listed known finding of C03)"]


def text_of(c, toks, memo):
    out = []
    for t in toks:
        if t in ("w", "x", "y", "z"):
            out.append(c.num(c.int(t)))
        elif t.startswith("D"):
            # D<id>[:count]: a die with two symbolic faces
            i, _, n = t[1:].partition(":")
            out.append(n + "d[" + c.num(c.int("f" + i)) + "," + c.num(c.int("g" + i)) + "*" + c.num(c.int("m" + i, 1)) + "]")
        elif t.startswith("R"):
            a, b = c.int("r" + t[1:], -1, 1), c.int("s" + t[1:], -1, 1)
            out.append("d[" + c.num(a) + "-" + c.num(b) + "]")
        else:
            out.append(t)
    return " ".join(out)


NAMES = ["a", "b", "long_name", "_", "__", "_a", "a_", "ab", "d_", "k"]


def reads(toks):
    if toks and toks[0] == "VAR":
        return set()
    out = set()
    i = 0
    while i < len(toks):
        if toks[i] == "VAR":
            # an assignment takes everything to its right up to its closing parenthesis
            depth = 0
            while i < len(toks) and depth >= 0:
                depth += {"(": 1, ")": -1}.get(toks[i], 0)
                i += 1
            continue
        if toks[i] in NAMES:
            out.add(toks[i])
        i += 1
    return out


def round_trip(c, toks, text=None, skip=()):
    c_text = text if text is not None else text_of(c, toks, {})

    def fresh():
        p = c.repo.PythonDiceParser()
        s = c.repo.ProbabilityDistributionStateFactory().create_new_empty_set()
        for ln in ("VAR a = d[1,2]", "VAR b = a + 1", "VAR long_name = 5"):
            p.parse(ln, s)[0].max()
        for i, n in enumerate(NAMES[3:]):
            if n in toks:
                p.parse(f"VAR {n} = d[1,2] + {i}", s)[0].max()
        return p, s

    p, s = fresh()
    e1 = p.parse(c_text, s)[0]
    s1 = str(e1)
    c.check(str(e1) == s1, "printing is repeatable")
    p2, st2 = fresh()
    e2 = p2.parse(s1, st2)[0]
    c.check(str(e2) == s1, "the printed text prints the same again")
    if text is None:
        got = e1.get_contained_variables()
        want = reads(toks)
        c.check(len(got) == len(want) and all(n in got for n in want), f"contained variables are {sorted(want)}")
        got = e2.get_contained_variables()
        c.check(len(got) == len(want) and all(n in got for n in want), "contained variables of the printed text")

    def pair():
        """the two expressions; new ones when evaluating them assigns variables"""
        if "VAR" not in c_text:
            return e1, e2
        p, s = fresh()
        q, t = fresh()
        return p.parse(c_text, s)[0], q.parse(s1, t)[0]

    for m in ("estimated_cost", "get_probability_distribution", "max", "min"):
        f, g = pair()
        x1, v1 = c.raises(getattr(f, m))
        x2, v2 = c.raises(getattr(g, m))
        c.check(type(x1).__name__ == type(x2).__name__, f"{m} of the printed text fails the same way")
        if x1 is not None:
            continue
        if m == "get_probability_distribution":
            c.same(ref.pairs(v1.get_dict_form()), ref.pairs(v2.get_dict_form()), "distribution of the printed text")
        else:
            c.check(v1 == v2, f"{m} of the printed text")
    if "AND" not in toks:
        f, g = pair()
        l1, l2 = c.law(f.roll), c.law(g.roll)
        for w in (False, True):
            c.same(
                [(0 if w else v, q) for q, v, x in l1 if (x is not None) == w],
                [(0 if w else v, q) for q, v, x in l2 if (x is not None) == w],
                "roll of the printed text",
            )
    c.check(str(e1) == s1 and str(e2) == s1, "evaluating does not change the text")


HARNESSES = {"round_trip": round_trip}


def instances(tier, mined):
    th = tier == "thorough"
    out = []
    seen = set()

    def add(s):
        if s in seen:
            return
        seen.add(s)
        t = s.split()
        i = {"h": "round_trip", "params": {"toks": t}}
        if ("*" in t or "//" in t) and ("MAX" in t or "MIN" in t or "ABS" in t or "!" in t):
            i["opts"] = {"fork": True}
        out.append(i)

    def raw(t):
        out.append({"h": "round_trip", "params": {"toks": [], "text": t}})

    ops = list(LEVEL)
    for s in ("x", "True", "False", "a", "long_name", "D0", "D0:2", "R0", "( x )", "ABS ( x )", "! x", "! ! x", "VAR a = x", "VAR d = D0", "VAR b = a"):
        add(s)
    for u in ("( %s )", "ABS ( %s )", "! %s", "VAR a = %s", "MAX ( %s , x )", "MIN ( x , %s )"):
        for v in ("( %s )", "ABS ( %s )", "! %s", "MAX ( %s , y )", "MIN ( y , %s )"):
            add(u % (v % "z"))
            add(u % (v % "a"))
        add(u % "D0")
        add(u % "b")
    for p in ops:
        add(f"x {p} y")
        add(f"a {p} b")
        add(f"a {p} 3")
        add(f"x {p} a")
        add(f"D0 {p} 2")
        add(f"( ! x ) {p} y")
        add(f"! x {p} y")
        add(f"x {p} ! y")
        add(f"VAR a = x {p} a")
        add(f"MAX ( a {p} b , long_name )")
        add(f"MIN ( long_name , a {p} x )")
        add(f"ABS ( a {p} long_name )")
        add(f"! ( a {p} b )")
        add(f"x {p} VAR b = a")
        add(f"( VAR b = a ) {p} long_name")
    for p, q in itertools.product(ops, ops):
        add(f"x {p} y {q} z")
        add(f"( x {p} y ) {q} z")
        add(f"x {p} ( y {q} z )")
    # every nesting of three operators, each group bare, in parentheses, under ABS or under !
    wraps = ("%s", "( %s )", "ABS ( %s )", "! %s") if th else ("%s", "( %s )")
    shapes = (
        lambda u, v: f"{u('w + x')} - {v('y + z')}",
        lambda u, v: f"{u(v('w - x') + ' + y')} - z",
        lambda u, v: f"{u('w - ' + v('x + y'))} - z",
        lambda u, v: f"w - {u(v('x + y') + ' - z')}",
        lambda u, v: f"w - {u('x - ' + v('y + z'))}",
        lambda u, v: f"MAX ( {u('w + x')} , {v('y - z')} )",
        lambda u, v: f"MIN ( {u('w - ' + v('x + y'))} , z )",
        lambda u, v: f"{u('w < x')} * {v('y + z')}",
        lambda u, v: f"{u('w + x')} OR {v('y - z')}",
    )
    for sh in shapes:
        for a in wraps:
            for b in wraps:
                t = sh(lambda e: a % e, lambda e: b % e)
                for o in ("%s", "( %s ) * 2", "3 - ( %s )", "( %s )", "( ( %s ) - 1 )") + (("ABS ( %s )", "! ( %s )", "MAX ( %s , 2 )", "( 4 ) * ( %s ) + ( 2 )") if th else ("ABS ( %s ) - ( a )", "! ( %s ) * ( 2 )")):
                    add(o % t)
    for n in NAMES[3:]:
        for u in ("( %s )", "ABS ( %s )", "! %s", "VAR a = %s", "MAX ( %s , x )", "MIN ( x , %s )", "( ( %s ) )", "%s - b", "%s == long_name", "( VAR a = %s ) - b"):
            add(u % f"{n}")
            add(u % f"{n} + a")
            add(u % f"a < {n}")
        for m in NAMES[3:]:
            add(f"( {n} - {m} )")
            add(f"MAX ( {n} , {m} )")
    if th:
        for p, q, r in itertools.product(ops, repeat=3):
            add(f"w {p} x {q} y {r} z")
            add(f"( w {p} x ) {q} ( y {r} z )")
    for n in sorted({12, 25, 40} | set(around(mined, 4, 60))):
        add("x " + " ".join(f"{'+-'[i % 2]} {i * 3 + 1}" for i in range(n)) + " - y - z")
        add("x - " + " - ".join(str(i) for i in range(n)) + " - y < a")
        add("( " * n + "x - y" + " )" * n + " - z")
        add("x - ( 2 - " * n + "b" + " )" * n + " - z")
        add("! " * n + "x - y")
    for fs in ODD + [list(range(12)), list(range(30, 0, -1))]:
        raw("d[" + ",".join(map(str, fs)) + "]")
        raw("2d[" + " , ".join(f"{v}*{1 + i}" for i, v in enumerate(fs[:6])) + "]k1")
    for s in sorted({100, 12} | set(around(mined, 7, 130))):
        raw(f"d{s}")
        raw(f"2d{s}k1" if s < 40 else f"1d{s}k1")
        raw(f"{s} - d[{s}-{s + 3}*{s}]")
        raw(f"{min(s, 11)}d[{s},-{s}]")
    for t in (
        "d6", "1d6", "0d6", "3d4", "d%", "dF", "2dF", "2d12k1", "d[1]", "d[1,2]", "d[ 1 , 2 ]", "d[1,2,]", "d[1 ,2 , ]", "d[1-3]", "d[3-1]",
        "d[-1-2]", "d[-2--1]", "d[2--1]", "d[1*3,2]", "d[1-2*2,5]", "2d[-1,1]", "3d6k2", "3d6d2", "2d6k3", "2d6d3", "2d6k0", "2d6d0", "d6k1", "dFd1",
        "3dFk2", "3d[1,5*2]d1", "3d[1-3 , 2]k1", "-5", "007", "d06", "2d6+1", "d6  +   3", "MAX(d4,d6)", "ABS(d6-d4 )", "!d2", "! d2", "d6>3", "(d6)",
        "VAR x=d6", "VAR x =d6", "d4 - -1", "1 - 2", "a*b", "a - 1", "2*d4//3",
    ):
        raw(t)
    return out
