from .. import ref

BOUNDS = {
    "quick": "up to 3 faces per die, any integer faces, any positive weights; unary operators nested to depth 2; any integer constant, also with up to 5 leading zeros; written out constants of up to 21 digits",
    "thorough": "up to 4 faces per die, any integer faces, any positive weights; unary operators nested to depth 3; any integer constant, also with leading zeros",
}


def wrap(ops, e):
    for o in reversed(ops):
        e = ("not", ("par", e)) if o == "not" else (o, e)
    return e


def unary(c, ops, n, weights=True):
    xs = [(c.int(f"x{i}"), c.int(f"w{i}", 1) if weights else 1) for i in range(n)]
    e = wrap(ops, ("die", None, xs))
    t = ref.text(c, e)
    r = ref.Ref(c).line(None, e)
    I = c.repo.PythonDiceInterpreter
    got = c.dist(I(), [t])
    c.same(got, r, "distribution of " + ",".join(ops))
    law = c.law(lambda: I().roll([t])["stdout"])
    c.check(all(x is None for _, _, x in law), "no exception")
    c.same([(v, p) for p, v, _ in law], r, "roll of " + ",".join(ops))
    vals = [v for v, _ in r]
    c.check(I().max([t])["stdout"] == c.max_of(vals), "max of " + ",".join(ops))
    c.check(I().min([t])["stdout"] == c.min_of(vals), "min of " + ",".join(ops))


def constant(c, ops, kind):
    if kind in ("True", "False"):
        v = {"True": 1, "False": 0}[kind]
        e = ("bool", kind)
    else:
        v = c.int("v") if kind == "int" else kind
        e = ("const", v)
    e = wrap(ops, e)
    t = ref.text(c, e)
    want = ref.Ref(c).line(None, e)[0][0]
    I = c.repo.PythonDiceInterpreter
    got = c.dist(I(), [t])
    c.check(c.all([c.eq(len(got), 1)] + [c.all([k == want, c.eq(p, 1)]) for k, p in got]), "distribution of a constant")
    c.check(I().roll([t])["stdout"] == want, "roll of a constant")
    c.check(I().max([t])["stdout"] == want, "max of a constant")
    c.check(I().min([t])["stdout"] == want, "min of a constant")
    c.check(c.eq(I().get_average([t])["stdout"], want), "average of a constant")


HARNESSES = {"unary": unary, "constant": constant}


def instances(tier, mined):
    out = []
    deep = [["abs"], ["not"], ["par"], ["abs", "abs"], ["not", "not"], ["not", "abs"], ["abs", "not"], ["par", "not"], ["par", "abs"]]
    if tier == "thorough":
        deep += [["not", "abs", "not"], ["abs", "par", "not"], ["not", "not", "not"], ["abs", "not", "abs"]]
    for ops in deep:
        for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
            out.append({"h": "unary", "params": {"ops": ops, "n": n}})
    for ops in [[]] + deep:
        for kind in ("int", "True", "False"):
            out.append({"h": "constant", "params": {"ops": ops, "kind": kind}})
    # leading zeros; constants written out, of many lengths
    for z in (1, 2, 5):
        for ops in ([], ["par"], ["abs"], ["not"]):
            out.append({"h": "constant", "params": {"ops": ops, "kind": "int", "_pad": z}})
    nums = {0, 1, 2, 7, 9, 10, 11, 19, 99, 100, 101, 999, 1000, 12345, 99999, 10**9, 2**31, 2**32 + 1, 2**53 + 1, 2**63, 10**20 + 7}
    nums |= {n + d for n in mined["ints"] for d in (-1, 0, 1)}
    for n in sorted(nums):
        for v in (n, -n):
            out.append({"h": "constant", "params": {"ops": [], "kind": v}})
            if abs(v) in (0, 9, 10, 100):
                out.append({"h": "constant", "params": {"ops": [], "kind": v, "_pad": 1}})
    return out
