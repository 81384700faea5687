"""Symbolic execution core: symbolic integers/booleans/reals that flow through the
real python_dice code, a path condition decided by z3, and depth first path
exploration by re-execution.

Integers are kept as polynomials over atoms (input variables, if-then-else terms,
floor divisions).  Products of atoms are handed to z3 as uninterpreted integer
constants with sign facts only (a sound over-approximation for proving); before a
counterexample is reported the products and divisions get their exact definitions.
"""
import math
import operator
import time
import unicodedata
from fractions import Fraction

import z3

# ------------------------------------------------------------------ control


class VpControl(BaseException):
    """Engine control flow; never caught by the code under test."""


class PathInfeasible(VpControl):
    pass


class PathAbort(VpControl):
    """Path given up (bound or budget); recorded as incomplete."""


class Unsupported(VpControl):
    pass


class Nondeterminism(VpControl):
    pass


# ------------------------------------------------------------------ atoms


class Atom:
    __slots__ = ("id", "kind", "z", "pos", "nonneg", "args", "name", "deps")

    def __init__(self, kind, z, pos=False, nonneg=False, args=(), name=None, deps=frozenset()):
        self.id = len(G.atoms)
        self.kind = kind
        self.z = z
        self.pos = pos
        self.nonneg = nonneg or pos
        self.args = args
        self.name = name
        self.deps = deps  # nonlinear monomials / div atoms used inside
        G.atoms.append(self)


class Registry:
    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.mono_z = {}
        self.formulas = {}


G = Registry()


def var_atom(name, pos, nonneg):
    key = ("var", name, pos, nonneg)
    a = G.by_key.get(key)
    if a is None:
        a = Atom("var", z3.Int(name), pos=pos, nonneg=nonneg, name=name)
        G.by_key[key] = a
    return a


# ------------------------------------------------------------------ polynomials
# a poly is a dict {monomial: int}; a monomial is a sorted tuple of atom ids

ONE = ()


def p_const(c):
    return {ONE: c} if c else {}


def p_atom(a):
    return {(a.id,): 1}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_key(a):
    return frozenset(a.items())


def p_is_const(a):
    return not a or (len(a) == 1 and ONE in a)


def p_cval(a):
    return a.get(ONE, 0)


def mono_z3(m):
    z = G.mono_z.get(m)
    if z is None:
        if len(m) == 1:
            z = G.atoms[m[0]].z
        else:
            z = z3.Int("mono_" + "_".join(map(str, m)))
        G.mono_z[m] = z
    return z


def p_z3(a):
    terms = []
    const = 0
    for m, c in sorted(a.items()):
        if not m:
            const = c
            continue
        z = mono_z3(m)
        terms.append(z if c == 1 else z * c)
    if const or not terms:
        terms.append(z3.IntVal(const))
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def p_deps(a):
    """nonlinear monomials and defined atoms that z3 sees as opaque constants"""
    out = set()
    for m in a:
        if len(m) > 1:
            out.add(m)
        for i in m:
            at = G.atoms[i]
            if at.kind in ("div",):
                out.add(("atom", i))
            out |= at.deps
    return out


# ------------------------------------------------------------------ formulas


class F:
    __slots__ = ("op", "args", "key", "_z", "_deps", "_neg")

    def __init__(self, op, args, key):
        self.op = op
        self.args = args
        self.key = key
        self._z = None
        self._deps = None
        self._neg = None

    @property
    def z(self):
        if self._z is None:
            if self.op == "eq":
                self._z = p_z3(self.args) == 0
            elif self.op == "le":
                self._z = p_z3(self.args) <= 0
            elif self.op == "not":
                self._z = z3.Not(self.args.z)
            elif self.op == "and":
                self._z = z3.And([a.z for a in self.args])
            elif self.op == "or":
                self._z = z3.Or([a.z for a in self.args])
            else:
                raise AssertionError(self.op)
        return self._z

    @property
    def deps(self):
        if self._deps is None:
            if self.op in ("eq", "le"):
                self._deps = frozenset(p_deps(self.args))
            elif self.op == "not":
                self._deps = self.args.deps
            else:
                d = frozenset()
                for a in self.args:
                    d |= a.deps
                self._deps = d
        return self._deps


def _mk(op, args, key):
    f = G.formulas.get(key)
    if f is None:
        f = F(op, args, key)
        G.formulas[key] = f
    return f


def f_eq(p):
    if p_is_const(p):
        return p_cval(p) == 0
    g = 0
    for m, c in p.items():
        if m:
            g = math.gcd(g, c)
    k = p_cval(p)
    if k % g:
        return False
    lead = min(m for m in p if m)
    if p[lead] < 0:
        g = -g
    if g != 1:
        p = {m: c // g for m, c in p.items()}
    return _mk("eq", p, ("eq", p_key(p)))


def f_le(p):
    """p <= 0"""
    if p_is_const(p):
        return p_cval(p) <= 0
    # sign shortcut: all atoms known nonneg
    if all((not m) or all(G.atoms[i].nonneg for i in m) for m in p):
        coef = [c for m, c in p.items() if m]
        if all(c > 0 for c in coef):
            low = p_cval(p) + sum(c for m, c in p.items() if m and all(G.atoms[i].pos for i in m))
            if low > 0:
                return False
        if all(c < 0 for c in coef):
            high = p_cval(p) + sum(c for m, c in p.items() if m and all(G.atoms[i].pos for i in m))
            if high <= 0:
                return True
    g = 0
    for m, c in p.items():
        if m:
            g = math.gcd(g, c)
    if g != 1:
        k = p_cval(p)
        # g*q + k <= 0  <=>  q <= floor(-k/g)
        q = {m: c // g for m, c in p.items() if m}
        kk = -((-k) // g)
        if kk:
            q[ONE] = kk
        p = q
    return _mk("le", p, ("le", p_key(p)))


def f_not(f):
    if f is True or f is False:
        return not f
    if f.op == "not":
        return f.args
    if f.op == "le":
        # not p<=0  <=> p>=1 <=> 1-p<=0
        return f_le(p_add(p_const(1), f.args, -1))
    return _mk("not", f, ("not", f.key))


def f_and(fs):
    out = []
    seen = set()
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        for g in f.args if f.op == "and" else (f,):
            if g.key not in seen:
                seen.add(g.key)
                out.append(g)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), ("and", frozenset(seen)))


def f_or(fs):
    out = []
    seen = set()
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        for g in f.args if f.op == "or" else (f,):
            if g.key not in seen:
                seen.add(g.key)
                out.append(g)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), ("or", frozenset(seen)))


# ------------------------------------------------------------------ engine state

DIGITS = [
    chr(c)
    for c in range(0x80, 0x20000)
    if unicodedata.category(chr(c)) == "Nd"
    # one char per script digit is enough; \d and str.isdigit() accept all of them
]


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.discharged = 0
        self.discharged_norm = 0
        self.unknown = 0
        self.exact_queries = 0


class Path:
    """One execution of the harness."""

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.stats = stats
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("timeout_ms", 5000))
        self.known = {}
        self.axioms = set()
        self.vars = {}  # name -> (poly, lo, hi)
        self.tokens = {}  # char -> poly
        self.token_list = []  # (poly, char)
        self.text_tokens = {}
        self.real_tokens = []
        self.choices = []
        self.choice_stack = None
        self.incomplete = []
        self.conds = []
        self.deadline = opts.get("deadline")
        self.set_order = opts.get("set_order", "insertion")
        self.flipped = None

    # -- solver plumbing
    def _axioms(self, deps):
        for d in deps:
            if d in self.axioms:
                continue
            self.axioms.add(d)
            if d and d[0] == "atom":
                continue
            z = mono_z3(d)
            ats = [G.atoms[i] for i in d]
            if all(a.pos for a in ats):
                self.solver.add(z >= 1)
            elif all(a.nonneg for a in ats):
                self.solver.add(z >= 0)
            elif len(d) == 2 and d[0] == d[1]:
                self.solver.add(z >= 0)
            if len(d) == 2 and d[0] != d[1]:
                a, b = ats[0].z, ats[1].z
                self.solver.add(z3.Implies(z3.Or(a == 0, b == 0), z == 0))
                self.solver.add(z3.Implies(z == 0, z3.Or(a == 0, b == 0)))
                self.solver.add(z3.Implies(a == 1, z == b), z3.Implies(b == 1, z == a))

    def add(self, f):
        if f is True:
            return
        if f is False:
            raise PathInfeasible()
        self._axioms(f.deps)
        self.solver.add(f.z)
        self.conds.append(f)
        self.learn(f, True)

    def learn(self, f, val):
        self.known[f.key] = val
        if val and f.op == "and":
            for g in f.args:
                self.learn(g, True)
        elif not val and f.op == "or":
            for g in f.args:
                self.learn(g, False)
        elif f.op == "not":
            self.learn(f.args, not val)
        elif f.op == "le":
            if val:
                # p<=0 : opposite strict  p>=1 false ; p==1.. ignore
                g = f_le(p_add(p_const(1), f.args, -1))
                if g is not True and g is not False:
                    self.known[g.key] = False
                # p <= 0 implies p-1 != 0 i.e. p == 1 impossible
                e = f_eq(p_add(f.args, p_const(-1)))
                if e is not True and e is not False:
                    self.known.setdefault(e.key, False)
                    if self.known[e.key] is None:
                        self.known[e.key] = False
            else:
                g = f_le(p_add(p_const(1), f.args, -1))
                if g is not True and g is not False:
                    self.known[g.key] = True
                e = f_eq(f.args)
                if e is not True and e is not False:
                    self.known.setdefault(e.key, False)
        elif f.op == "eq" and val:
            for p in (f.args, p_scale(f.args, -1)):
                g = f_le(p)
                if g is not True and g is not False:
                    self.known[g.key] = True

    def check_sat(self, *fs):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise PathAbort("time budget")
        self.stats.queries += 1
        for f in fs:
            self._axioms(f.deps)
        r = self.solver.check(*[f.z for f in fs])
        self.stats.solver_s += time.time() - t
        return r

    # -- decisions
    def _next(self, kind):
        i = len(self.trace)
        if i < len(self.prefix):
            e = self.prefix[i]
            if e[0] != kind and not (kind == "v" and e[0] == "x"):
                raise Nondeterminism(f"expected {e[0]} got {kind} at {i}")
            return e
        return None

    def decide(self, f):
        if f is True or f is False:
            return f
        k = self.known.get(f.key)
        if k is not None:
            return k
        e = self._next("b")
        if e is not None:
            if e[2] != f.key:
                raise Nondeterminism("different branch condition on re-execution")
            self.trace.append(e)
            if len(e) > 3:  # forced: follows from the path condition
                self.learn(f, e[1])
            else:
                self.add(f if e[1] else f_not(f))
            return e[1]
        nf = f_not(f)
        rt = self.check_sat(f)
        rf = self.check_sat(nf) if rt != z3.unsat else z3.sat
        if rt == z3.unsat:
            self.trace.append(("b", False, f.key, "forced"))
            self.learn(f, False)
            return False
        if rf == z3.unsat:
            self.trace.append(("b", True, f.key, "forced"))
            self.learn(f, True)
            return True
        self.stats.branches += 1
        self.alts.append(self.trace + [("b", False, f.key)])
        self.trace.append(("b", True, f.key))
        if len(self.trace) > self.opts.get("max_decisions", 20000):
            raise PathAbort("decision bound")
        self.add(f)
        return True

    def concretise(self, poly, why=""):
        if p_is_const(poly):
            return p_cval(poly)
        e = self._next("v")
        excl = []
        if e is not None:
            if e[0] == "v":
                self.trace.append(e)
                self.add(f_eq(p_add(poly, p_const(e[1]), -1)))
                return e[1]
            excl = e[1]
            for v in excl:
                self.add(f_not(f_eq(p_add(poly, p_const(v), -1))))
        if len(excl) >= self.opts.get("max_values", 40):
            self.incomplete.append(f"more than {len(excl)} values of a concretised integer {why}")
            raise PathAbort("concretisation bound " + why)
        if self.check_sat() != z3.sat:
            raise PathInfeasible()
        m = self.solver.model()
        v = m.eval(p_z3(poly), model_completion=True).as_long()
        fe = f_eq(p_add(poly, p_const(v), -1))
        if fe is not True:
            self.alts.append(self.trace + [("x", excl + [v])])
        self.trace.append(("v", v))
        self.add(fe)
        return v

    def choose(self, n, why=""):
        """nondeterministic environment choice (recorded for replay)"""
        if n <= 1:
            return 0
        e = self._next("c")
        if e is not None:
            self.trace.append(e)
            return e[1]
        for j in range(n - 1, 0, -1):
            self.alts.append(self.trace + [("c", j)])
        self.trace.append(("c", 0))
        return 0

    def flip(self):
        """sets iterate forwards or backwards, one choice for the whole path"""
        if self.flipped is None:
            self.flipped = self.choose(2, "set direction") == 1
        return self.flipped

    # -- numerals
    def token(self, poly):
        """text of a non negative symbolic integer: one exotic decimal digit"""
        for q, ch in self.token_list:
            if self.decide(f_eq(p_add(poly, q, -1))):
                return ch
        if len(self.token_list) >= len(DIGITS) - 300:
            raise PathAbort("out of numeral tokens")
        ch = DIGITS[len(self.token_list)]
        self.token_list.append((poly, ch))
        self.tokens[ch] = poly
        return ch

    def numeral(self, poly, canonical=False):
        """numeral written by the harness into a program text"""
        if not self.opts.get("signed") and self.decide(f_le(p_add(poly, p_const(1)))):
            return "-" + self.numeral(p_scale(poly, -1), canonical)
        if canonical:
            return self.token(poly)
        k = p_key(poly)
        ch = self.text_tokens.get(k)
        if ch is None:
            n = len(self.text_tokens)
            if n >= 300:
                raise PathAbort("out of numeral tokens")
            ch = DIGITS[-1 - n]
            self.text_tokens[k] = ch
            self.tokens[ch] = poly
        return ch

    def int_text(self, poly):
        if not self.opts.get("signed") and self.decide(f_le(p_add(poly, p_const(1)))):  # poly <= -1
            return "-" + self.token(p_scale(poly, -1))
        return self.token(poly)


CUR = None  # current Path


def set_path(p):
    global CUR
    CUR = p


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside a path")
    return CUR


# ------------------------------------------------------------------ values


def mk_int(p):
    if p_is_const(p):
        return p_cval(p)
    return SymInt(p)


def mk_bool(f):
    if f is True or f is False:
        return f
    if CUR is not None:
        k = CUR.known.get(f.key)
        if k is not None:
            return k
    return SymBool(f)


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymBool or t is SymReal


def as_poly(x):
    """poly of an int-like value or None"""
    t = type(x)
    if t is SymInt:
        return x.p
    if t is int or t is bool:
        return p_const(int(x))
    if t is SymBool:
        return ite_poly(x.f, p_const(1), {})
    if isinstance(x, int) and not is_sym(x):
        return p_const(int(x))
    return None


def as_formula(x):
    t = type(x)
    if t is bool:
        return x
    if t is SymBool:
        return x.f
    if t is SymInt:
        return f_not(f_eq(x.p))
    if t is SymReal:
        return f_not(f_eq(x.n))
    return bool(x)


def ite_poly(f, a, b):
    if f is True:
        return a
    if f is False:
        return b
    if CUR is not None:
        k = CUR.known.get(f.key)
        if k is not None:
            return a if k else b
    if f.op == "not":
        f, a, b = f.args, b, a
    ka, kb = p_key(a), p_key(b)
    if ka == kb:
        return a
    if f.op == "eq" and ka != kb:
        # ite(x==y, x, y) is y
        d = p_add(a, b, -1)
        fe = f_eq(d)
        if fe is f:
            return b
    key = ("ite", f.key, ka, kb)
    at = G.by_key.get(key)
    if at is None:
        deps = f.deps | p_deps(a) | p_deps(b)

        def low(p):
            if p_is_const(p):
                return p_cval(p)
            if all((not m) or (c > 0 and all(G.atoms[i].nonneg for i in m)) for m, c in p.items()):
                return p_cval(p) + sum(c for m, c in p.items() if m and all(G.atoms[i].pos for i in m))
            return None

        la, lb = low(a), low(b)
        lo = None if la is None or lb is None else min(la, lb)
        at = Atom(
            "ite",
            z3.If(f.z, p_z3(a), p_z3(b)),
            pos=lo is not None and lo >= 1,
            nonneg=lo is not None and lo >= 0,
            args=(f, a, b),
            deps=frozenset(deps),
        )
        G.by_key[key] = at
    return p_atom(at)


def div_poly(a, b):
    """floor(a / b), b != 0 already decided on this path"""
    if p_is_const(b):
        c = p_cval(b)
        if p_is_const(a):
            return p_const(p_cval(a) // c)
        if all(v % c == 0 for v in a.values()):
            return {m: v // c for m, v in a.items()}
        key = ("divc", p_key(a), c)
        at = G.by_key.get(key)
        if at is None:
            # z3 div by constant: euclidean; adjust for negative divisor
            az = p_z3(a)
            if c > 0:
                z = az / z3.IntVal(c)
            else:
                z = (-az) / z3.IntVal(-c)
            at = Atom("divc", z, args=(a, b), deps=frozenset(p_deps(a)))
            G.by_key[key] = at
        return p_atom(at)
    key = ("div", p_key(a), p_key(b))
    at = G.by_key.get(key)
    if at is None:
        at = Atom("div", z3.Int(f"div_{len(G.atoms)}"), args=(a, b), deps=frozenset(p_deps(a) | p_deps(b)))
        G.by_key[key] = at
    return p_atom(at)


def floordiv(a, b):
    if CUR.decide(f_eq(b)) if not p_is_const(b) else p_cval(b) == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    return div_poly(a, b)


def ite(c, a, b):
    """merged if-then-else on int-like values"""
    f = as_formula(c)
    if f is True:
        return a
    if f is False:
        return b
    if type(a) is SymReal or type(b) is SymReal or type(a) is float or type(b) is float:
        ra, rb = to_real(a), to_real(b)
        if p_key(ra.d) == p_key(rb.d):
            return mk_real(ite_poly(f, ra.n, rb.n), ra.d)
        return a if CUR.decide(f) else b
    pa, pb = as_poly(a), as_poly(b)
    if pa is None or pb is None:
        return a if CUR.decide(f) else b
    if CUR is not None and CUR.opts.get("fork") and not (p_is_const(pa) and p_is_const(pb)):
        return a if CUR.decide(f) else b
    return mk_int(ite_poly(f, pa, pb))


class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().decide(self.f)

    def _int(self):
        return mk_int(ite_poly(self.f, p_const(1), {}))

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return mk_bool(f_and([self.f, as_formula(o)]))
        return self._int() & o

    def __rand__(self, o):
        return self.__and__(o)

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return mk_bool(f_or([self.f, as_formula(o)]))
        return self._int() | o

    def __ror__(self, o):
        return self.__or__(o)

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            g = as_formula(o)
            return mk_bool(f_or([f_and([self.f, f_not(g)]), f_and([f_not(self.f), g])]))
        return self._int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            g = as_formula(o)
            return mk_bool(f_or([f_and([self.f, g]), f_and([f_not(self.f), f_not(g)])]))
        return self._int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else vnot(r)

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def vnot(x):
    return mk_bool(f_not(as_formula(x)))


def vand(*xs):
    return mk_bool(f_and([as_formula(x) for x in xs]))


def vor(*xs):
    return mk_bool(f_or([as_formula(x) for x in xs]))


def _lift(name):
    def op(self, *a):
        return getattr(operator, name)(self._int(), *a)

    return op


for _n in ("add", "sub", "mul", "floordiv", "truediv", "mod", "pow", "lt", "le", "gt", "ge"):
    setattr(SymBool, f"__{_n}__", (lambda n: lambda s, o: getattr(operator, n)(s._int(), o))(_n))
for _n in ("add", "sub", "mul", "floordiv", "truediv", "mod", "pow"):
    setattr(SymBool, f"__r{_n}__", (lambda n: lambda s, o: getattr(operator, n)(o, s._int()))(_n))
SymBool.__neg__ = lambda s: -s._int()
SymBool.__pos__ = lambda s: s._int()
SymBool.__abs__ = lambda s: s._int()
SymBool.__invert__ = lambda s: ~s._int()


def frac(x):
    """exact value given to a float literal/constant: its shortest decimal form"""
    if isinstance(x, Fraction):
        return x
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non finite float")
    return Fraction(repr(x))


class SymInt:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    @property
    def __class__(self):
        return int

    # conversions
    def __bool__(self):
        return cur().decide(f_not(f_eq(self.p)))

    def __int__(self):
        return cur().concretise(self.p, "int()")

    def __index__(self):
        return cur().concretise(self.p, "index")

    def __float__(self):
        return float(cur().concretise(self.p, "float()"))

    def __hash__(self):
        return hash(cur().concretise(self.p, "hash"))

    def __str__(self):
        return cur().int_text(self.p)

    __repr__ = __str__

    def __format__(self, spec):
        if spec in ("", "d", "s"):
            return str(self)
        return format(int(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling")

    def bit_length(self):
        return int(self).bit_length()

    @property
    def real(self):
        return self

    numerator = real

    @property
    def denominator(self):
        return 1

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    # arithmetic
    def _bin(self, o, fn, rev=False):
        q = as_poly(o)
        if q is None:
            return None
        return fn(q, self.p) if rev else fn(self.p, q)

    def __add__(self, o):
        q = as_poly(o)
        if q is None:
            return to_real(self) + o if _realish(o) else NotImplemented
        return mk_int(p_add(self.p, q))

    __radd__ = __add__

    def __sub__(self, o):
        q = as_poly(o)
        if q is None:
            return to_real(self) - o if _realish(o) else NotImplemented
        return mk_int(p_add(self.p, q, -1))

    def __rsub__(self, o):
        q = as_poly(o)
        if q is None:
            return to_real(o) - self if _realish(o) else NotImplemented
        return mk_int(p_add(q, self.p, -1))

    def __mul__(self, o):
        q = as_poly(o)
        if q is None:
            if _realish(o):
                return to_real(self) * o
            if isinstance(o, (str, list, tuple)):
                return o * int(self)
            return NotImplemented
        return mk_int(p_mul(self.p, q))

    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(p_scale(self.p, -1))

    def __pos__(self):
        return self

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def __floordiv__(self, o):
        q = as_poly(o)
        if q is None:
            return to_real(self) // o if _realish(o) else NotImplemented
        return mk_int(floordiv(self.p, q))

    def __rfloordiv__(self, o):
        q = as_poly(o)
        if q is None:
            return NotImplemented
        return mk_int(floordiv(q, self.p))

    def __mod__(self, o):
        q = as_poly(o)
        if q is None:
            return NotImplemented
        d = floordiv(self.p, q)
        return mk_int(p_add(self.p, p_mul(d, q), -1))

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % int(self)
        q = as_poly(o)
        if q is None:
            return NotImplemented
        d = floordiv(q, self.p)
        return mk_int(p_add(q, p_mul(d, self.p), -1))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        if not _realish(o) and as_poly(o) is None:
            return NotImplemented
        return to_real(self) / o

    def __rtruediv__(self, o):
        if not _realish(o) and as_poly(o) is None:
            return NotImplemented
        return to_real(o) / self

    def __pow__(self, o, mod=None):
        if mod is not None:
            return (self**o) % mod
        if type(o) is SymInt:
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            return 1 / (self ** (-o))
        r = p_const(1)
        for _ in range(o):
            r = p_mul(r, self.p)
        return mk_int(r)

    def __rpow__(self, o):
        return o ** int(self)

    def __lshift__(self, o):
        return self * 2 ** int(o)

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __rrshift__(self, o):
        return o >> int(self)

    def _bit(self, o, fn, opf, rev=False):
        q = as_poly(o)
        if q is None:
            if type(o) is SymHash:
                return NotImplemented
            return NotImplemented
        c = cur()
        zo = f_and([f_le(p_scale(self.p, -1)), f_le(p_add(self.p, p_const(-1))), f_le(p_scale(q, -1)), f_le(p_add(q, p_const(-1)))])
        nz = f_not(zo)
        if zo is True or (zo is not False and c.check_sat(nz) == z3.unsat):
            a, b = f_eq(p_add(self.p, p_const(-1))), f_eq(p_add(q, p_const(-1)))
            return mk_int(ite_poly(opf(a, b), p_const(1), {}))
        x, y = int(self), c.concretise(q, "bitwise")
        return fn(x, y)

    def __and__(self, o):
        return self._bit(o, operator.and_, lambda a, b: f_and([a, b]))

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, operator.or_, lambda a, b: f_or([a, b]))

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, operator.xor, lambda a, b: f_or([f_and([a, f_not(b)]), f_and([f_not(a), b])]))

    __rxor__ = __xor__

    # comparison
    def __eq__(self, o):
        q = as_poly(o)
        if q is None:
            if _realish(o):
                return to_real(self) == o
            return NotImplemented
        return mk_bool(f_eq(p_add(self.p, q, -1)))

    def __ne__(self, o):
        q = as_poly(o)
        if q is None:
            if _realish(o):
                return to_real(self) != o
            return NotImplemented
        return mk_bool(f_not(f_eq(p_add(self.p, q, -1))))

    def __lt__(self, o):
        q = as_poly(o)
        if q is None:
            return to_real(self) < o if _realish(o) else NotImplemented
        return mk_bool(f_le(p_add(p_add(self.p, q, -1), p_const(1))))

    def __le__(self, o):
        q = as_poly(o)
        if q is None:
            return to_real(self) <= o if _realish(o) else NotImplemented
        return mk_bool(f_le(p_add(self.p, q, -1)))

    def __gt__(self, o):
        q = as_poly(o)
        if q is None:
            return to_real(self) > o if _realish(o) else NotImplemented
        return mk_bool(f_le(p_add(p_add(q, self.p, -1), p_const(1))))

    def __ge__(self, o):
        q = as_poly(o)
        if q is None:
            return to_real(self) >= o if _realish(o) else NotImplemented
        return mk_bool(f_le(p_add(q, self.p, -1)))

    def __round__(self, n=None):
        if n is not None and n < 0:
            return round(int(self), n)
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__


def _realish(o):
    return type(o) is SymReal or type(o) is float or isinstance(o, Fraction)


def p_content(p):
    g = 0
    for c in p.values():
        g = math.gcd(g, c)
    return g


def mk_real(n, d):
    """n/d with d > 0 on this path; stays a real even when integral"""
    if p_is_const(d) and p_is_const(n):
        v = Fraction(p_cval(n), p_cval(d))
        return SymReal(p_const(v.numerator), p_const(v.denominator))
    if not n:
        return SymReal({}, p_const(1))
    g = math.gcd(p_content(n), p_content(d))
    if g > 1:
        n = {m: c // g for m, c in n.items()}
        d = {m: c // g for m, c in d.items()}
    if p_key(n) == p_key(d):
        return SymReal(p_const(1), p_const(1))
    return SymReal(n, d)


def to_real(x):
    if type(x) is SymReal:
        return x
    if type(x) is float or isinstance(x, Fraction):
        v = frac(x)
        return SymReal(p_const(v.numerator), p_const(v.denominator))
    p = as_poly(x)
    if p is None:
        raise Unsupported(f"real from {type(x)}")
    return SymReal(p, p_const(1))


class SymReal:
    """exact ratio standing for a Python float (floats are modelled as reals)"""

    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @property
    def __class__(self):
        return float

    def const(self):
        if p_is_const(self.n) and p_is_const(self.d):
            return Fraction(p_cval(self.n), p_cval(self.d))
        return None

    def __bool__(self):
        return cur().decide(f_not(f_eq(self.n)))

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        raise Unsupported("hash of a symbolic real")

    def __float__(self):
        c = self.const()
        if c is None:
            n = cur().concretise(self.n, "float")
            d = cur().concretise(self.d, "float")
            c = Fraction(n, d)
        return float(c)

    def _text(self):
        c = self.const()
        if c is not None:
            return repr(float(c))
        P = cur()
        for r, ch in P.real_tokens:
            if P.decide(f_eq(p_add(p_mul(r.n, self.d), p_mul(self.n, r.d), -1))):
                return ch
        ch = chr(0xE000 + len(P.real_tokens))
        P.real_tokens.append((self, ch))
        return ch

    def __str__(self):
        return self._text()

    __repr__ = __str__

    def __format__(self, spec):
        return self._text()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _o(self, o):
        if type(o) is SymReal:
            return o
        if _realish(o) or as_poly(o) is not None:
            return to_real(o)
        return None

    def __add__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        if p_key(self.d) == p_key(o.d):
            return mk_real(p_add(self.n, o.n), self.d)
        return mk_real(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d))

    __radd__ = __add__

    def __neg__(self):
        return SymReal(p_scale(self.n, -1), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        n1, d1, n2, d2 = self.n, self.d, o.n, o.d
        if p_key(n1) == p_key(d2):
            return mk_real(n2, d1)
        if p_key(n2) == p_key(d1):
            return mk_real(n1, d2)
        return mk_real(p_mul(n1, n2), p_mul(d1, d2))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        P = cur()
        if P.decide(f_eq(o.n)):
            raise ZeroDivisionError("division by zero")
        if P.decide(f_le(o.n)):
            o = SymReal(p_scale(o.n, -1), o.d)
            return -(self * SymReal(o.d, o.n))
        return self * SymReal(o.d, o.n)

    def __rtruediv__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        r = self / o
        return SymReal(div_poly(r.n, r.d), p_const(1))

    def __mod__(self, o):
        o = self._o(o)
        return self - o * (self // o)

    def __abs__(self):
        return self if cur().decide(f_le(p_scale(self.n, -1))) else -self

    def __pow__(self, o):
        if isinstance(o, int) and not is_sym(o) and 0 <= o < 10:
            r = to_real(1)
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("real power")

    def _cmp(self, o):
        if p_key(self.d) == p_key(o.d):
            return p_add(self.n, o.n, -1)
        return p_add(p_mul(self.n, o.d), p_mul(o.n, self.d), -1)

    def __eq__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return mk_bool(f_eq(self._cmp(o)))

    def __ne__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return mk_bool(f_not(f_eq(self._cmp(o))))

    def __le__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return mk_bool(f_le(self._cmp(o)))

    def __lt__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return mk_bool(f_le(p_add(self._cmp(o), p_const(1))))

    def __ge__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return mk_bool(f_le(p_scale(self._cmp(o), -1)))

    def __gt__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return mk_bool(f_le(p_add(p_scale(self._cmp(o), -1), p_const(1))))

    def __floor__(self):
        return mk_int(div_poly(self.n, self.d))

    def __ceil__(self):
        return mk_int(p_scale(div_poly(p_scale(self.n, -1), self.d), -1))

    def __trunc__(self):
        return self.__floor__() if cur().decide(f_le(p_scale(self.n, -1))) else self.__ceil__()

    def __int__(self):
        r = self.__trunc__()
        return int(r)

    def __round__(self, nd=None):
        s = 10 ** (nd or 0)
        n2 = p_add(p_scale(self.n, 2 * s), self.d)
        d2 = p_scale(self.d, 2)
        q = div_poly(n2, d2)
        if cur().decide(f_eq(p_add(n2, p_mul(q, d2), -1))):
            h = div_poly(q, p_const(2))
            odd = p_add(q, p_scale(h, 2), -1)
            q = p_add(q, odd, -1)
        if nd is None:
            return mk_int(q)
        return mk_real(q, p_const(s))

    def is_integer(self):
        return mk_bool(f_eq(p_add(self.n, p_mul(div_poly(self.n, self.d), self.d), -1)))


class SymHash:
    """structural stand-in for a hash that depends on symbolic values"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    @property
    def __class__(self):
        return int

    def _op(self, name, o):
        return SymHash((name, self, o))

    def __hash__(self):
        raise Unsupported("hash of hash")


for _n in ("add", "sub", "mul", "xor", "and", "or", "mod", "lshift", "rshift", "floordiv"):
    setattr(SymHash, f"__{_n}__", (lambda n: lambda s, o: SymHash((n, s, o)))(_n))
    setattr(SymHash, f"__r{_n}__", (lambda n: lambda s, o: SymHash((n, s, o)))(_n))


def hash_eq(a, b):
    """formula: hashes agree (structurally; accidental collisions are not modelled)"""
    if type(a) is SymHash and type(b) is SymHash:
        if len(a.parts) != len(b.parts) or a.parts[0] != b.parts[0]:
            return True  # not comparable structurally: leave it to __eq__
        if len(a.parts) == 2:
            return hash_eq(a.parts[1], b.parts[1])
        fs = []
        for x, y in zip(a.parts[1:], b.parts[1:]):
            h = hash_eq(x, y)
            if h is False:
                return False
            if h is not True:
                fs.append(h)
        return f_and(fs) if fs else True
    if type(a) is SymHash or type(b) is SymHash:
        return True  # leave it to __eq__
    if type(a) is int and type(b) is int:
        return a == b
    if is_sym(a) or is_sym(b):
        pa, pb = as_poly(a), as_poly(b)
        if pa is None or pb is None:
            return False
        return f_eq(p_add(pa, pb, -1))
    return a == b


def struct_key(h):
    """hashable structure of a hash; None when it has none"""
    t = type(h)
    if t is int or t is str:
        return h
    if t is SymHash:
        out = []
        for x in h.parts:
            k = struct_key(x)
            if k is None:
                return None
            out.append(k)
        return tuple(out)
    if t is SymInt:
        return ("p", p_key(h.p))
    return None


def vhash(x):
    t = type(x)
    if t in (SymInt, SymBool):
        return SymHash(("int", x if t is SymInt else x._int()))
    if t is SymHash:
        return x
    if t is tuple:
        hs = [vhash(e) for e in x]
        if any(type(h) is not int for h in hs):
            return SymHash(("tuple",) + tuple(hs))
        return hash(x)
    h = getattr(t, "__hash__", None)
    if h is None:
        raise TypeError(f"unhashable type: '{t.__name__}'")
    r = h(x)
    if type(r) is SymInt:
        return SymHash(("int", r))
    return r
