from ..prog import around

BOUNDS = {
    "quick": "up to 4 constraints over 3 names with value sets of up to 2 unbounded symbolic integers, null and impossible constraints; every split for merge_new_constraints / merge_constraints / add_constraint / combine_sets; sets iterated in insertion and in reverse order (every order for pairs); assignments of any integers to none, each or all of the names and to an unconstrained name",
    "thorough": "as quick, sets of up to 3 values, and every iteration order of the sets",
}
ASSUMPTIONS = ["constraints compare by their printed form, which the engine models with canonical numerals"]
OPTS = {"signed": True}


def mk(c, f, spec):
    """spec: list of ["v", name, [ids]] | ["n"] | ["x"] -> [(constraint, kind, name, values)]"""
    out = []
    for s in spec:
        if s[0] == "n":
            out.append((f.null_constraint, "n", None, None))
        elif s[0] == "x":
            out.append((f.impossible_constraint, "x", None, None))
        else:
            vals = [c.int("v" + i) if isinstance(i, str) else i for i in s[2]]
            out.append((f.var_value_constraint(name=s[1], values=c.set(vals)), "v", s[1], vals))
    return out


def names_of(spec):
    return sorted({s[1] for s in spec if s[0] == "v"})


def meaning(c, cs):
    """formula: some value allowed for every constrained name and no impossible constraint"""
    if any(k == "x" for _, k, _, _ in cs):
        return False
    oks = []
    for n in sorted({n for _, k, n, _ in cs if k == "v"}):
        sets = [vs for _, k, m, vs in cs if k == "v" and m == n]
        cand = []
        for v in sets[0]:
            cand.append(c.all([c.any([v == u for u in vs]) for vs in sets[1:]]))
        oks.append(c.any(cand))
    return c.all(oks)


def accepts(c, cs, asg):
    oks = []
    for _, k, n, vs in cs:
        if k == "v" and n in asg:
            oks.append(c.any([asg[n] == v for v in vs]))
    return c.all(oks)


def boolean(c, x):
    return c.ite(x, 1, 0)


def judge(c, got, cs, spec, label, few=False):
    """got: ConstraintSet-like (complies, is_possible)"""
    ok = meaning(c, cs)
    c.check(boolean(c, got.is_possible()) == boolean(c, ok), label + ": possible")
    if c.decided(ok):
        ns = names_of(spec)
        if ns and (len(ns) > 3 or few):
            ns = [ns[-1]] if few else [ns[0], ns[-1]]
        ns = ns + ["zz"]
        subs = [list(ns), ns[:-1]] + [[n] for n in ns[:-1]] + [[]]
        for sub in [x for i, x in enumerate(subs) if x not in subs[:i]]:
            asg = {n: c.int("t_" + n) for n in sub}
            c.check(
                boolean(c, got.complies(c.dict(list(asg.items())))) == boolean(c, accepts(c, cs, asg)),
                label + ": accepts",
            )


class FromSet:
    def __init__(self, s):
        self.s = s

    def is_possible(self):
        return all(x.is_possible() for x in self.s)

    def complies(self, v):
        return all(x.complies(v) for x in self.s)


def untouched(c, cs):
    """the given constraints still mean what they were made for"""
    for k, kind, n, vs in cs if len(cs) <= 5 else cs[:1] + cs[-3:]:
        if kind == "v":
            c.check(boolean(c, k.is_possible()) == (1 if vs else 0), "constraint untouched: possible")
            t = c.int("t_" + n)
            if vs:
                c.check(boolean(c, k.complies({n: t})) == boolean(c, c.any([t == v for v in vs])), "constraint untouched: accepts")
            c.check(k.name == n, "constraint untouched: name")
        else:
            c.check(k.is_possible() == (kind == "n"), "constraint untouched")


def merge(c, spec, how, left=0):
    f = c.repo.ConstraintFactory()
    cs = mk(c, f, spec)
    m = c.repo.ConstraintMerger()
    objs = [x[0] for x in cs]
    if how == "merge":
        src = c.set(objs)
        n = len(src)
        got = FromSet(m.merge_constraints(src))
        c.check(len(src) == n, "input set untouched")
    elif how == "new":
        s = c.set([objs[0]])
        for o in objs[1:]:
            before_len = len(s)
            s2 = m.merge_new_constraints(s, o)
            c.check(len(s) == before_len, "input set untouched")
            s = s2
        got = FromSet(s)
    elif how == "set":
        got = c.repo.ConstraintSet(c.set(objs), m)
    elif how == "add":
        got = c.repo.ConstraintSetFactory().create_constraint_set()
        for o in objs:
            got.add_constraint(o)
    elif how == "ask":
        # what was answered before an addition is not what is answered after it
        got = c.repo.ConstraintSetFactory().create_constraint_set()
        for k, o in enumerate(objs):
            c.check(boolean(c, got.is_possible()) == boolean(c, meaning(c, cs[:k])), "possible so far")
            got.complies({})
            for n in names_of(spec):
                if c.decided(meaning(c, cs[:k])):
                    asg = {n: c.int("t_" + n)}
                    c.check(boolean(c, got.complies(asg)) == boolean(c, accepts(c, cs[:k], asg)), "accepts so far")
            len(got.constraints), str(got)
            got.add_constraint(o)
    elif how == "askcombine":
        one = c.repo.ConstraintSet(c.set(objs[:left]), m)
        two = c.repo.ConstraintSet(c.set(objs[left:-1]), m)
        for s, part in ((one, cs[:left]), (two, cs[left:-1])):
            c.check(boolean(c, s.is_possible()) == boolean(c, meaning(c, part)), "operand possible")
            s.complies({}), str(s)
        mid = one.combine_sets(two)
        c.check(boolean(c, mid.is_possible()) == boolean(c, meaning(c, cs[:-1])), "combined possible")
        two.add_constraint(objs[-1])
        got = one.combine_sets(two)
        judge(c, one, cs[:left], spec[:left], "left operand afterwards")
        judge(c, mid, cs[:-1], spec[:-1], "combination made before the addition")
    elif how == "combine":
        one = c.repo.ConstraintSet(c.set(objs[:left]), m)
        two = c.repo.ConstraintSet(c.set(objs[left:]), m)
        got = one.combine_sets(two)
        few = len(names_of(spec)) > 3
        judge(c, one, cs[:left], spec[:left], "left operand afterwards", few)
        judge(c, two, cs[left:], spec[left:], "right operand afterwards", few)
    judge(c, got, cs, spec, how)
    if how in ("set", "add", "combine", "ask", "askcombine"):
        got.constraints.clear()
        judge(c, got, cs, spec, how + " after clearing the copy of its constraints")
    untouched(c, cs)


def single(c, spec):
    """one constraint on its own, and can_merge/merge of a pair"""
    f = c.repo.ConstraintFactory()
    cs = mk(c, f, spec)
    for x in cs:
        judge(c, x[0], [x], spec, "single constraint")
    if len(cs) == 2:
        a, b = cs[0][0], cs[1][0]
        for p, q in ((a, b), (b, a)):
            if p.can_merge(q):
                judge(c, p.merge(q), cs, spec, "merge of a pair")
            else:
                e, _ = c.raises(lambda: p.merge(q))
                c.check(e is not None, "merging what can not be merged is an error")


HARNESSES = {"merge": merge, "single": single}


def instances(tier, mined):
    th = tier == "thorough"
    out = []

    def add(h, order="all", **p):
        out.append({"h": h, "params": p, "opts": {"set_order": order}})

    V = lambda n, *ids: ["v", n, list(ids)]
    N, X = ["n"], ["x"]
    for s in (
        [V("a", "0")], [V("a", "0", "1")], [V("a")], [N], [X],
        [V("a", "0"), V("a", "1")], [V("a", "0", "1"), V("a", "2", "3")], [V("a", "0"), V("b", "1")],
        [V("a", "0"), N], [V("a", "0"), X], [N, X], [N, N], [X, X], [V("a"), V("a", "0")], [V("a", "0", "1"), V("b", "0")],
    ):
        add("single", spec=s)
    specs = [
        [V("a", "0")],
        [V("a", "0", "1")],
        [N], [X],
        [V("a", "0"), V("a", "1")],
        [V("a", "0", "1"), V("a", "2", "3")],
        [V("a", "0"), V("b", "1")],
        [V("a", "0"), N],
        [V("a", "0"), X],
        [V("a", "0"), V("b", "1"), V("a", "2")],
        [V("a", "0", "1"), V("b", "0"), V("a", "1", "2")],
        [V("a", "0"), V("a", "1"), V("a", "2")],
        [V("a", "0", "1"), V("a", "1", "2"), V("a", "2", "0")],
        [V("a", "0"), N, V("a", "1")],
        [V("a", "0"), N, V("b", "1")],
        [V("a", "0"), V("b", "1"), X],
        [N, X, V("a", "0")],
        [V("a"), V("b", "0")],
        [V("a", "0"), V("b", "1"), V("d", "2")],
    ]
    big = [
        [V("a", "0"), V("b", "1"), V("a", "2"), V("b", "3")],
        [V("a", "0", "1"), V("b", "2"), V("a", "1", "3"), V("b", "0")],
        [V("a", "0"), V("b", "1"), N, V("a", "2")],
        [V("a", "0"), V("b", "1"), V("d", "2"), V("b", "3")],
    ]
    for s in specs:
        for how in ("merge", "new", "set", "add"):
            add("merge", spec=s, how=how, order="flip")
        add("merge", spec=s, how="ask", order="insertion")
        if len(s) > 2:
            add("merge", spec=s, how="askcombine", left=1, order="insertion")
        for l in range(1, len(s)):
            add("merge", spec=s, how="combine", left=l, order="flip")
    for s in big:
        for how in ("merge", "set", "add", "new"):
            add("merge", spec=s, how=how, order="flip")
        add("merge", spec=s, how="combine", left=2, order="flip")
    # larger sets and more constraints, mostly given values
    for n in sorted({3, 5, 10, 20} | set(around(mined, 3, 64))):
        e = list(range(n))
        for s in (
            [V("a", *e), V("a", "0" if n < 12 else n, *e[1:])],
            [V("a", *e), V("a", *[x + n - 1 for x in e])],
            [V("a", *e), V("a", *[x + n for x in e])],
            [V("a", *[-x for x in e]), V("b", 4), V("a", "1" if n < 12 else 1 - n, 1)],
        ):
            for how in ("merge", "add"):
                add("merge", spec=s, how=how, order="insertion")
            add("merge", spec=s, how="combine", left=1, order="insertion")
        names = ["n" + "abcdefghij"[i // 10] + "abcdefghij"[i % 10] for i in range(min(n, 24))]
        s = [V(x, i, i + 100) for i, x in enumerate(names)] + [V(names[-1], "1", 7), V(names[0], "0", 3)]
        for how in ("merge", "set", "add"):
            add("merge", spec=s, how=how, order="insertion")
        add("merge", spec=s, how="combine", left=len(s) // 2, order="insertion")
    for x, y in ((9, 10), (-1, 1), (0, -1), (1, 11), (2, 10), (99, 100)):
        add("merge", spec=[V("a", x, y, "0"), V("a", y, "1")], how="merge", order="flip")
        add("merge", spec=[V("a", x, y, "0"), V("b", x), V("a", y, "1")], how="combine", left=1, order="flip")
    for x, y in (("a", "aa"), ("a", "_a"), ("ab", "b"), ("a_b", "a"), ("zz_a", "zz_b")):
        for how in ("merge", "set", "add"):
            add("merge", spec=[V(x, "0", "1"), V(y, "2"), V(x, "1", "3")], how=how, order="flip")
            add("merge", spec=[V(x, "0"), V(y, "0", "1"), V(y, "2", "1")], how=how, order="flip")
    if th:
        big.append([V("a", "0", "1"), V("b", "2", "3"), V("a", "1", "4"), V("b", "3", "5")])
        big.append([V("a", "0", "1", "2"), V("a", "1", "3", "4"), V("a", "2", "4", "0")])
        for s in big[-2:]:
            for how in ("merge", "set", "add", "new"):
                add("merge", spec=s, how=how, order="flip")
        for s in big[:-2] + specs:
            for how in ("merge", "set", "add", "new"):
                add("merge", spec=s, how=how, order="all")
    return out
