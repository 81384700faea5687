"""Reference semantics, written independently of the implementation: a program is
evaluated over "worlds" (one joint outcome of all dice drawn so far).

Expression trees:
  ("die", count, [(face, weight), ...])     custom dice
  ("keep"|"drop", count, faces, k)
  ("const", v)   ("bool", "True")   ("var", name)
  ("bin", op, l, r)  op in + - * // == != < <= > >= AND OR
  ("mm", "MAX"|"MIN", l, r)  ("abs", x)  ("not", x)  ("par", x)
"""
import itertools


def faces_text(c, faces):
    out = []
    for v, w in faces:
        out.append(c.num(v) if type(w) is int and w == 1 else c.num(v) + "*" + c.num(w))
    return "[" + ",".join(out) + "]"


def text(c, e):
    k = e[0]
    if k == "die":
        n = e[1]
        return ("" if n is None else c.num(n)) + "d" + faces_text(c, e[2])
    if k in ("keep", "drop"):
        n = e[1]
        return ("" if n is None else c.num(n)) + "d" + faces_text(c, e[2]) + ("k" if k == "keep" else "d") + c.num(e[3])
    if k == "plain":
        return ("" if e[1] is None else c.num(e[1])) + "d" + c.num(e[2])
    if k == "const":
        return c.num(e[1])
    if k in ("bool", "var"):
        return e[1]
    if k == "bin":
        return f"{text(c, e[2])} {e[1]} {text(c, e[3])}"
    if k == "mm":
        return f"{e[1]}({text(c, e[2])}, {text(c, e[3])})"
    if k == "abs":
        return f"ABS({text(c, e[1])})"
    if k == "not":
        return f"!{text(c, e[1])}"
    if k == "par":
        return f"({text(c, e[1])})"
    raise AssertionError(k)


def apply(c, op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "//":
        return a // b
    if op == "==":
        return c.ite(a == b, 1, 0)
    if op == "!=":
        return c.ite(a == b, 0, 1)
    if op == "<":
        return c.ite(a < b, 1, 0)
    if op == "<=":
        return c.ite(a <= b, 1, 0)
    if op == ">":
        return c.ite(a > b, 1, 0)
    if op == ">=":
        return c.ite(a >= b, 1, 0)
    if op == "AND":
        return c.ite(c.all([a > 0, b > 0]), 1, 0)
    if op == "OR":
        return c.ite(c.any([a > 0, b > 0]), 1, 0)
    if op == "MAX":
        return c.ite(a >= b, a, b)
    if op == "MIN":
        return c.ite(a <= b, a, b)
    raise AssertionError(op)


def sort_network(c, xs):
    """ascending, without branching"""
    xs = list(xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = c.ite(a <= b, a, b), c.ite(a <= b, b, a)
    return xs


def draws(faces, n):
    """[(weight, values)] of n independent dice"""
    out = []
    for combo in itertools.product(faces, repeat=n):
        w = 1
        for _, fw in combo:
            w = w * fw
        out.append((w, [v for v, _ in combo]))
    return out


def total(faces):
    t = 0
    for _, w in faces:
        t = t + w
    return t


def evaluate(c, e, worlds):
    """worlds: [(weight, env)] -> [(weight, env, value)], and the factor the total
    weight grew by"""
    k = e[0]
    if k == "plain":
        return evaluate(c, ("die", e[1], [(i, 1) for i in range(1, e[2] + 1)]), worlds)
    if k == "die" or k in ("keep", "drop"):
        n = 1 if e[1] is None else e[1]
        ds = draws(e[2], n)
        vals = []
        for w, xs in ds:
            if k == "die":
                v = 0
                for x in xs:
                    v = v + x
            else:
                kk = e[3]
                xs = sort_network(c, xs)
                take = max(0, min(n, kk)) if k == "keep" else max(0, n - kk)
                sel = xs[n - take :] if k == "keep" else xs[:take]
                v = 0
                for x in sel:
                    v = v + x
            vals.append((w, v))
        f = 1
        for _ in range(n):
            f = f * total(e[2])
        return [(w * dw, env, v) for w, env in worlds for dw, v in vals], f
    if k == "const":
        return [(w, env, e[1]) for w, env in worlds], 1
    if k == "bool":
        return [(w, env, 1 if e[1] == "True" else 0) for w, env in worlds], 1
    if k == "var":
        return [(w, env, env[e[1]]) for w, env in worlds], 1
    if k in ("bin", "mm"):
        out = []
        f = None
        left, f1 = evaluate(c, e[2], worlds)
        f2 = 1
        for w, env, a in left:
            right, f2 = evaluate(c, e[3], [(w, env)])
            for w2, env2, b in right:
                out.append((w2, env2, apply(c, e[1], a, b)))
        return out, f1 * f2
    inner, f = evaluate(c, e[1], worlds)
    if k == "abs":
        return [(w, env, c.abs_(v)) for w, env, v in inner], f
    if k == "not":
        return [(w, env, c.ite(v > 0, 0, 1)) for w, env, v in inner], f
    if k == "par":
        return inner, f
    raise AssertionError(k)


class Ref:
    """runs lines (name or None, tree), keeping the joint worlds"""

    def __init__(self, c):
        self.c = c
        self.worlds = [(1, {})]
        self.den = 1

    def line(self, name, e):
        out, f = evaluate(self.c, e, self.worlds)
        if name is None:
            # a plain expression does not change the state
            den = self.den * f
            return [(v, self.c.ratio(w, den)) for w, _, v in out]
        self.den = self.den * f
        self.worlds = []
        for w, env, v in out:
            env = dict(env)
            env[name] = v
            self.worlds.append((w, env))
        return [(v, self.c.ratio(w, self.den)) for w, _, v in out]

    def var(self, name):
        return [(env[name], self.c.ratio(w, self.den)) for w, env in self.worlds]

    def values(self, name=None, e=None):
        if e is not None:
            out, _ = evaluate(self.c, e, self.worlds)
            return [v for _, _, v in out]
        return [env[name] for _, env in self.worlds]


def line_text(c, name, e):
    t = text(c, e)
    return t if name is None else f"VAR {name} = {t}"


def variables(e):
    k = e[0]
    if k == "var":
        return {e[1]}
    if k in ("bin", "mm"):
        return variables(e[2]) | variables(e[3])
    if k in ("abs", "not", "par"):
        return variables(e[1])
    return set()


def pairs(d):
    return list(d.items())
