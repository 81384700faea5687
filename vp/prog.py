"""Programs with symbolic dice and constants, described by JSON trees:

  ["die", id, faces, flags, count]            custom die, symbolic faces x<id>_<i>
  ["keep"|"drop", id, faces, flags, count, k]
  ["fixed", id, [faces], flags, count]        custom die with the given faces
  ["fkeep"|"fdrop", id, [faces], flags, count, k]
  ["plain", count|null, sides]                NdS, no symbolic part
  ["const", "id"] | ["const", 3] | ["bool", "True"] | ["var", name]
  ["bin", op, l, r]  ["mm", "MAX", l, r]  ["abs", x]  ["not", x]  ["par", x]

flags: w symbolic weights, d faces distinct, b faces 0 or 1, p faces >= 1, z faces not 0, o faces strictly increasing
"""
from . import ref


def build(c, t, memo=None):
    memo = {} if memo is None else memo
    k = t[0]
    if k in ("die", "keep", "drop"):
        i, n, flags, count = t[1], t[2], t[3], t[4]
        key = ("faces", i)
        if key not in memo:
            fs = []
            for j in range(n):
                if "b" in flags:
                    v = c.int(f"x{i}_{j}", 0, 1)
                elif "p" in flags:
                    v = c.int(f"x{i}_{j}", 1)
                else:
                    v = c.int(f"x{i}_{j}")
                if "z" in flags:
                    c.assume(c.not_(v == 0))
                fs.append((v, c.int(f"w{i}_{j}", 1) if "w" in flags else 1))
            if "o" in flags:
                for a in range(1, n):
                    c.assume(fs[a - 1][0] < fs[a][0])
            elif "d" in flags:
                for a in range(n):
                    for b in range(a):
                        c.assume(c.not_(fs[a][0] == fs[b][0]))
            memo[key] = fs
        fs = memo[key]
        if k == "die":
            return ("die", count, fs)
        return (k, count, fs, t[5])
    if k in ("fixed", "fkeep", "fdrop"):
        fs = [(v, c.int(f"w{t[1]}_{j}", 1) if "w" in t[3] else 1) for j, v in enumerate(t[2])]
        return ("die", t[4], fs) if k == "fixed" else (k[1:], t[4], fs, t[5])
    if k == "plain":
        return ("plain", t[1], t[2])
    if k == "const":
        return ("const", c.int("c" + t[1]) if isinstance(t[1], str) else t[1])
    if k in ("bool", "var"):
        return (k, t[1])
    if k in ("bin", "mm"):
        return (k, t[1], build(c, t[2], memo), build(c, t[3], memo))
    return (k, build(c, t[1], memo))


def pvars(t):
    if t[0] == "var":
        return {t[1]}
    out = set()
    for x in t[1:]:
        if isinstance(x, list):
            out |= pvars(x)
    return out


class Prog:
    def __init__(self, c, lines):
        memo = {}
        self.c = c
        self.lines = [(n, build(c, t, memo)) for n, t in lines]
        self.text = [ref.line_text(c, n, e) for n, e in self.lines]
        self.names = list(dict.fromkeys(n for n, _ in self.lines if n is not None))
        r = ref.Ref(c)
        self.out = None
        for n, e in self.lines:
            self.out = r.line(n, e)
        self.ref = r
        last = self.lines[-1]
        if last[0] is None:
            self.values = r.values(e=last[1])
        else:
            self.values = r.values(name=last[0])

    def calls(self, split):
        """the lines, cut into separate calls"""
        if not split:
            return [self.text]
        out, i = [], 0
        for n in split:
            out.append(self.text[i : i + n])
            i += n
        if i < len(self.text):
            out.append(self.text[i:])
        return out

    def run(self, method, split=None):
        interp = self.c.repo.PythonDiceInterpreter()
        res = None
        for lines in self.calls(split):
            res = getattr(interp, method)(lines)
        return res


def tight(c, got, values, sign, label):
    """got is the largest (sign 1) or smallest (-1) of values"""
    c.check(c.all([v <= got if sign > 0 else v >= got for v in values]), label + " is never exceeded")
    c.check(c.any([v == got for v in values]), label + " is reachable")


def program(c, lines, what=("dist",), split=None, skip=(), only_vars=False, outer=False):
    """what: dist, law, max, min, support, contained; skip: names left out of a comparison"""
    p = Prog(c, lines)
    names = [n for n in p.names if n not in skip]
    if "dist" in what or "support" in what:
        d = p.run("get_probability_distributions_dict", split)
        if "dist" in what:
            c.same(ref.pairs(d["stdout"]), p.out, "distribution of the last line")
        else:
            for v in p.values:
                c.check(c.in_support(v, ref.pairs(d["stdout"])), "possible outcome reported")
            for v, _ in ref.pairs(d["stdout"]):
                c.check(c.any([v == u for u in p.values]), "reported outcome possible")
        for n in names:
            c.same(ref.pairs(d[n]), p.ref.var(n), f"distribution of variable {n}")
    for m, s in (("max", 1), ("min", -1)):
        if m in what:
            r = p.run(m, split)
            if outer:
                got = r["stdout"]
                c.check(c.all([v <= got if s > 0 else v >= got for v in p.values]), m + " bounds the last line")
            else:
                tight(c, r["stdout"], p.values, s, m + " of the last line")
            for n in names:
                tight(c, r[n], p.ref.values(name=n), s, f"{m} of variable {n}")
    if "law" in what:
        law = c.law(lambda: p.run("roll", split))
        c.same([(r["stdout"], q) for q, r, _ in law], p.out, "law of the roll of the last line")
        for n in names:
            c.same([(r[n], q) for q, r, _ in law], p.ref.var(n), f"law of the rolled variable {n}")
    if "rolldist" in what:
        d = p.run("get_probability_distributions_dict", split)
        law = c.law(lambda: p.run("roll", split))
        c.same([(r["stdout"], q) for q, r, _ in law], ref.pairs(d["stdout"]), "roll follows the reported distribution")
    if "rollbound" in what:
        top = p.run("max", split)
        bot = p.run("min", split)
        for _, r, _ in c.law(lambda: p.run("roll", split)):
            for k in ["stdout"] + names:
                c.check(c.all([r[k] <= top[k], r[k] >= bot[k]]), f"rolled {k} within min and max")


def fixed(i, faces, flags="", count=None):
    return ["fixed", i, faces, flags, count]


# faces of several digits and either sign, not in order
ODD = [[-10, 9, 100, 2], [10, 9, -9, -10], [-1, 0, -11, 7], [99, 101, 100]]


def around(mined, lo, hi):
    """sizes next to the integers in the code"""
    out = set()
    for v in mined["ints"]:
        out |= {x for x in (v - 1, v, v + 1) if lo <= x <= hi}
    return sorted(out)


def die(i, n=2, flags="", count=None):
    return ["die", i, n, flags, count]


def const(x):
    return ["const", x]


def var(n):
    return ["var", n]


def bop(op, a, b):
    return ["mm", op, a, b] if op in ("MAX", "MIN") else ["bin", op, a, b]


def par(x):
    return ["par", x]


OPS = ["+", "-", "*", "//", "==", "!=", "<", "<=", ">", ">=", "AND", "OR", "MAX", "MIN"]


SIGNED = (
    "a numeral in a program text is one token for any integer, negative ones included; the sign's own "
    "syntax is checked by C02, C06, C15 and C18"
)


def flat(t):
    for x in t:
        if isinstance(x, list):
            yield from flat(x)
        else:
            yield x


def adder(out, what, h="program"):
    """adds an instance; comparisons fork where products meet MIN/MAX"""

    def add(lines, w=None, opts=None, **kw):
        i = {"h": h, "params": dict({"lines": lines, "what": list(w or what)}, **kw)}
        fl = list(flat(lines))
        o = dict(opts or {})
        if fl.count("*") and (fl.count("MAX") or fl.count("MIN")):
            o["fork"] = True
        if o:
            i["opts"] = o
        out.append(i)

    return add
