from .. import ref
from ..prog import OPS, SIGNED, adder, bop, const, die, par, program, tight, var

BOUNDS = {
    "quick": "assignment histories of up to 6 lines over up to 3 names, one call or one call per line, in dist, max, min and roll; one name assigned up to 13 times (and around integers of the code up to 40); all ordered pairs of 14 names plus names found in the code; dice of 2 symbolic faces",
    "thorough": "as quick, up to 130 assignments, more names",
}
ASSUMPTIONS = [SIGNED, "variables that are read more than once have equal weights (see the known finding of C08)"]
OPTS = {"signed": True}


def rename(t, m):
    if isinstance(t, list):
        if t and t[0] == "var":
            return ["var", m[t[1]]]
        return [rename(x, m) for x in t]
    return t


def names(c, p, q):
    """two names: independent variables, whatever they are called; reassigning one leaves the other"""
    x, y, z = c.int("x"), c.int("y"), c.int("z")
    c.assume(c.all([x < y, y < z]))
    I = c.repo.PythonDiceInterpreter
    i = I()
    h = c.ratio(1, 2)
    q4 = c.ratio(1, 4)
    t1, t2 = f"VAR {p} = d[{c.num(x)},{c.num(y)}]", f"VAR {q} = d[{c.num(x)},{c.num(z)}]"
    d = i.get_probability_distributions_dict([t1, t2, f"{p} - {q}"])
    c.same(ref.pairs(d["stdout"]), [(0, q4), (x - z, q4), (y - x, q4), (y - z, q4)], "different names are independent")
    c.same(ref.pairs(d[p]), [(x, h), (y, h)], "first variable")
    c.same(ref.pairs(d[q]), [(x, h), (z, h)], "second variable")
    d = i.get_probability_distributions_dict([f"VAR {p} = {p} + 1", f"{p} - {q}"])
    c.same(ref.pairs(d["stdout"]), [(1, q4), (x - z + 1, q4), (y - x + 1, q4), (y - z + 1, q4)], "reassigned from itself")
    c.same(ref.pairs(d[q]), [(x, h), (z, h)], "second variable unchanged")
    d = i.get_probability_distributions_dict([f"VAR {q} = {p}", f"VAR {p} = d[{c.num(x)},{c.num(y)}]", f"{p} - {q}"])
    c.same(ref.pairs(d["stdout"]), [(-1, c.ratio(1, 2)), (x - y - 1, q4), (y - x - 1, q4)], "old and new are independent")
    j = I()
    m = j.max([t1, t2, f"VAR {p} = {p} + 1", q])
    c.check(c.all([m[p] == y + 1, m[q] == z, m["stdout"] == z]), "max keeps the names apart")
    law = c.law(lambda: I().roll([t1, t2, f"VAR {p} = {p} + 1", f"VAR {q} = {q}", q]))
    for _, v, _ in law:
        c.check(c.all([c.any([v[p] == x + 1, v[p] == y + 1]), v["stdout"] == v[q]]), "roll keeps the names apart")
    c.same([(v[p], r) for r, v, _ in law], [(x + 1, h), (y + 1, h)], "roll of the first variable")
    c.same([(v[q], r) for r, v, _ in law], [(x, h), (z, h)], "roll of the second variable")
    c.same([(v[p] - v[q], r) for r, v, _ in law], [(1, q4), (x - z + 1, q4), (y - x + 1, q4), (y - z + 1, q4)], "rolls of different names are independent")


def many(c, n, per_call=False, other=True):
    """one name assigned n times; every older value kept in another variable stays independent"""
    x, y = c.int("x"), c.int("y")
    c.assume(x < y)
    die = f"d[{c.num(x)},{c.num(y)}]"
    lines = []
    keep = sorted({1, 2, n // 2, n - 1} & set(range(1, n)))
    for k in range(1, n + 1):
        lines.append(f"VAR a = {die}")
        if k in keep:
            lines.append(f"VAR old_{'abcdefgh'[keep.index(k)]} = a")
    i = c.repo.PythonDiceInterpreter()
    if per_call:
        for l in lines:
            i.get_probability_distributions_dict([l])
    else:
        i.get_probability_distributions_dict(lines)
    h, q = c.ratio(1, 2), c.ratio(1, 4)
    for j in range(len(keep)):
        o = f"old_{'abcdefgh'[j]}"
        d = i.get_probability_distributions_dict([f"a - {o}"])
        c.same(ref.pairs(d["stdout"]), [(0, h), (x - y, q), (y - x, q)], "newest and older values are independent")
        c.same(ref.pairs(d["a"]), [(x, h), (y, h)], "newest value")
        for k in range(j):
            o2 = f"old_{'abcdefgh'[k]}"
            d = i.get_probability_distributions_dict([f"{o2} - {o}"])
            c.same(ref.pairs(d["stdout"]), [(0, h), (x - y, q), (y - x, q)], "older values are independent")
    d = i.get_probability_distributions_dict(["a - a"])
    c.same(ref.pairs(d["stdout"]), [(0, 1)], "newest value is one outcome")


def counter(c, n):
    """VAR a = a + step, n times"""
    x, s = c.int("x"), c.int("s")
    lines = [f"VAR a = d[{c.num(x)},{c.num(x + 1)}]"] + [f"VAR a = a + {c.num(s)}"] * n
    i = c.repo.PythonDiceInterpreter()
    d = i.get_probability_distributions_dict(lines)
    h = c.ratio(1, 2)
    c.same(ref.pairs(d["a"]), [(x + s * n, h), (x + 1 + s * n, h)], "repeated self assignment")
    c.check(c.repo.PythonDiceInterpreter().max(lines)["a"] == x + 1 + s * n, "max of repeated self assignment")
    law = c.law(lambda: c.repo.PythonDiceInterpreter().roll(lines)["a"])
    c.same([(v, p) for p, v, _ in law], [(x + s * n, h), (x + 1 + s * n, h)], "roll of repeated self assignment")


HARNESSES = {"program": program, "names": names, "many": many, "counter": counter}


def instances(tier, mined):
    th = tier == "thorough"
    out = []
    add = adder(out, ["dist"])
    a, b, d = var("a"), var("b"), var("d")
    X, Y, Z = die(0, 2, "o"), die(1, 2, "o"), die(2, 2, "o")
    hist = [
        [["a", X], ["a", Y], [None, a]],
        [["a", X], ["b", a], ["a", Y], [None, bop("-", a, b)]],
        [["a", X], ["b", a], ["a", X], [None, bop("-", a, b)]],
        [["a", X], ["b", bop("+", a, const("k"))], ["a", Y], [None, bop("-", b, a)]],
        [["a", X], ["a", bop("+", a, const("k"))], [None, bop("-", a, a)]],
        [["a", X], ["b", a], ["a", bop("+", a, const("k"))], [None, bop("-", a, b)]],
        [["a", X], ["b", a], ["a", bop("*", a, const("k"))], [None, bop("-", a, b)]],
        [["a", X], ["a", bop("+", a, Y)], [None, a]],
        [["a", X], ["b", a], ["a", bop("+", a, Y)], [None, bop("-", a, b)]],
        [["a", X], ["a", Y], ["a", Z], [None, bop("+", a, a)]],
        [["a", X], ["b", a], ["a", Y], ["d", a], ["a", Z], [None, bop("-", d, b)]],
        [["a", X], ["b", Y], ["a", b], ["b", Z], [None, bop("-", a, b)]],
        [["a", X], ["b", Y], ["d", a], ["a", b], ["b", d], [None, bop("-", a, b)]],  # swap
        [["a", X], ["b", a], ["a", const("k")], [None, bop("-", a, b)]],
        [["a", const("k")], ["b", a], ["a", X], [None, bop("-", a, b)]],
        [["a", X], ["b", ["not", a]], ["a", Y], [None, bop("+", a, b)]],
        [["a", X], ["b", ["abs", a]], ["a", Y], [None, bop("+", a, b)]],
        [["a", X], ["b", bop("MAX", a, Y)], ["a", Z], [None, bop("-", b, a)]],
        [["b", X], ["a", b], ["b", a], ["a", b], [None, bop("-", a, b)]],
        [["a", die(0, 2, "w")], ["a", die(1, 2, "w")], [None, a]],
        [["a", die(0, 2, "w")], ["b", a], ["a", die(1, 2, "w")], [None, bop("-", a, b)]],
        [["a", die(0, 2, "w")], ["a", bop("+", a, die(1, 2, "w"))], [None, a]],
        [["a", bop("-", X, X)], ["b", a], ["a", X], [None, bop("+", a, b)]],
    ]
    for h in hist:
        add(h)
        add(h, split=[1] * len(h))
        add(h, ["max", "min"])
        add(h, ["law"])
    for h in hist[:6]:
        add(h, ["law"], split=[1] * len(h))
        add(h, ["max", "min"], split=[1] * len(h))
    for op in OPS:
        if op != "//":
            add([["a", X], ["b", a], ["a", Y], [None, bop(op, a, b)]])
            add([["a", X], ["b", bop(op, a, const("k"))], ["a", Y], [None, bop("-", b, a)]])
    ns = ["a", "b", "ab", "a_", "_a", "a_b", "_", "__", "aa", "b_a", "stdout_", "d", "k", "max"]
    pairs = [("a", "b"), ("a", "a_"), ("a", "aa"), ("a", "_a"), ("a_", "a__"), ("_", "__"), ("ab", "a_b"), ("a", "stdout_"), ("b", "a"), ("aaaaaaaaaaaa", "aaaaaaaaaaab"), ("ab", "ba"), ("a_b", "b_a"), ("x", "xx"), ("self", "name")]
    if th:
        pairs += [(p, q) for p in ns for q in ns if p != q]
    mn = [n for n in mined["names"] if n not in ("d", "k", "stdout") and len(n) < 40]
    for n in mn[: 60 if th else 12]:
        pairs.append((n, "a" if n != "a" else "b"))
        pairs.append(("q", n))
    seen = set()
    for p, q in pairs:
        if (p, q) not in seen and p != q:
            seen.add((p, q))
            out.append({"h": "names", "params": {"p": p, "q": q}})
    counts = {2, 3, 5, 9, 10, 11, 12, 13}
    for v in mined["ints"]:
        if 2 <= v <= (130 if th else 40):
            counts |= {v, v + 1, v + 2}
    for n in sorted(counts):
        out.append({"h": "many", "params": {"n": n}})
        out.append({"h": "counter", "params": {"n": n}})
    for n in (3, 11):
        out.append({"h": "many", "params": {"n": n, "per_call": True}})
    return out
