"""What a harness sees.  Base class + the concrete (native replay) version.
Runs on PyPy 3.9 and CPython; no z3 here."""
import os
import math
import sys
import types
from fractions import Fraction

from . import shims

REPO = os.environ.get("VP_REPO", "/repo")
TOL = Fraction(1, 10**9)  # relative
SMALL = Fraction(1, 10**15)  # absolute
NOISE = Fraction(1, 10**12)


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class Repo:
    """the public names a harness uses, imported lazily from the loaded package"""

    def __getattr__(self, name):
        import importlib

        where = {
            "PythonDiceInterpreter": "python_dice",
            "ProbabilityDistributionFactory": "python_dice.src.probability_distribution.probability_distribution_factory",
            "ProbabilityDistributionStateFactory": "python_dice.src.probability_distribution.probability_distribution_state_factory",
            "ProbabilityOutcomeFactory": "python_dice.src.probability_distribution.probability_outcome_factory",
            "PythonDiceParser": "python_dice.src.python_dice_parser",
            "PythonDiceLexer": "python_dice.src.python_dice_lexer",
            "ConstraintFactory": "python_dice.src.constraint.constraint_factory",
            "ConstraintSet": "python_dice.src.constraint.constraint_set",
            "ConstraintSetFactory": "python_dice.src.constraint.constraint_set_factory",
            "ConstraintMerger": "python_dice.src.constraint.constraint_merger",
            "IProbabilityDistribution": "python_dice.interface.probability_distribution.i_probability_distribution",
        }[name]
        return getattr(importlib.import_module(where), name)


class BaseCtx:
    symbolic = False
    pad = 0

    def own(self, params):
        """parameters of the context, not of the harness: _pad zeros in front of every numeral"""
        self.pad = params.get("_pad", 0)
        return {k: v for k, v in params.items() if k[0] != "_"}

    def padded(self, t):
        if not self.pad:
            return t
        return "-" + "0" * self.pad + t[1:] if t[:1] == "-" else "0" * self.pad + t

    def __init__(self):
        self.repo = Repo()
        self.labels = []

    # shared helpers
    def raises(self, fn):
        """(exception or None, value)"""
        try:
            return None, fn()
        except Exception as e:  # engine control flow is BaseException
            return e, None

    def implies(self, a, b):
        return self.any([self.not_(a), b])

    def max_of(self, xs):
        best = xs[0]
        for x in xs[1:]:
            best = self.ite(x > best, x, best)
        return best

    def min_of(self, xs):
        best = xs[0]
        for x in xs[1:]:
            best = self.ite(x < best, x, best)
        return best

    def pick(self, name, lo, hi):
        """a symbolic integer in lo..hi and its concrete value on this path"""
        x = self.int(name, lo, hi)
        for k in range(lo, hi):
            if self.decided(x == k):
                return x, k
        return x, hi

    def faces_drawn(self, fn, n, s, support=None):
        """fn rolls n dice of s faces: [value with every draw at option j]; None when the code does
        not draw the dice one by one over their faces (then only smaller cases are judged by law)"""
        out = []
        for j in range(s):
            v, draws = self.scripted(fn, lambda w, i: min(j, len(w) - 1))
            if any(len(w) != s for w in draws):
                if support is not None:
                    for i in range(3):
                        v, ws = self.scripted(fn, lambda w, k: min(i, len(w) - 1))
                        if any(type(x) is int and x <= 0 for w in ws for x in w):
                            continue
                        self.check(self.any([v == u for u in support]), f"{n} dice roll a sum of {n} faces")
                return None
            if s > 1:
                self.check(len(draws) == n, f"{n} dice are {n} draws")
                self.check(self.all([x == w[0] for w in draws for x in w]), "faces of equal weight are drawn with equal weight")
            out.append(v)
        return out

    def dist(self, interp, lines):
        return list(interp.get_probability_distributions_dict(lines)["stdout"].items())

    def in_support(self, v, pairs):
        return self.any([v == k for k, _ in pairs])

    def truth(self, x):
        return self.ite(x > 0, 1, 0)

    def abs_(self, x):
        return self.ite(x < 0, -x, x)


class ConcreteBackend:
    def __init__(self, ctx):
        self.ctx = ctx

    range = staticmethod(range)

    def draw(self, weights):
        c = self.ctx
        if c.law_state is not None:
            return c.law_state.draw(weights)
        if c.choices:
            return c.choices.pop(0)
        for j, w in enumerate(weights):
            if w > 0:
                return j
        raise ValueError("Total of weights must be greater than zero")

    ratio = staticmethod(lambda a, b: Fraction(a) / b)
    floor = staticmethod(math.floor)

    def proportions(self, ws):
        den = 1
        for w in ws:
            den = den * Fraction(w).denominator // math.gcd(den, Fraction(w).denominator)
        return [int(w * den) for w in ws]

    def unsupported(self, name):
        raise RuntimeError("unsupported in replay: " + name)


class Script:
    def __init__(self, pick):
        self.pick = pick
        self.draws = []

    def draw(self, weights):
        j = self.pick(weights, len(self.draws))
        self.draws.append(list(weights))
        return j


class ConcreteCtx(BaseCtx):
    def __init__(self, values, choices=()):
        super().__init__()
        self.values = values
        self.choices = list(choices)
        self.law_state = None
        self.rec = shims.Recorder()
        self.failures = []

    def fresh(self):
        """import python_dice anew from /repo with the stubs in place"""
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        import rply  # noqa: F401  (before random is replaced)

        for k in [k for k in sys.modules if k == "python_dice" or k.startswith("python_dice.")]:
            del sys.modules[k]
        shims.install_plot_modules(self.rec)
        import secrets

        real = sys.modules.get("random")
        sys.modules["random"] = sys.modules["secrets"] = shims.RandomStub(ConcreteBackend(self))
        try:
            import python_dice

            self.origin = python_dice.__file__
            for m in list(vars(Repo)):
                pass
            import python_dice.src.python_dice_interpreter  # noqa: F401
        finally:
            if real is not None:
                sys.modules["random"] = real
            sys.modules["secrets"] = secrets

    def int(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else (min(0, hi) if hi is not None else 0)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed(f"{name}={v} outside [{lo},{hi}]")
        return v

    def assume(self, cond, why=""):
        if not cond:
            raise AssumeFailed(why)

    def check(self, cond, label):
        self.labels.append(label)
        if not cond:
            raise CheckFailed(label)

    def ite(self, c, a, b):
        return a if c else b

    def all(self, xs):
        return all(xs)

    def any(self, xs):
        return any(xs)

    def not_(self, x):
        return not x

    def eq(self, a, b):
        """a == b for numbers; floats within rounding"""
        if isinstance(a, float) or isinstance(b, float):
            return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
        return a == b

    def ratio(self, a, b):
        return Fraction(a, b)

    def num(self, x):
        return self.padded(str(x))

    def dict(self, pairs):
        return dict(pairs)

    def set(self, items):
        return set(items)

    def decided(self, cond):
        return bool(cond)

    def same(self, A, B, label):
        """A, B: lists of (value, probability); equal as distributions"""
        self.labels.append(label)
        acc, top = {}, {}
        for v, p in A:
            acc[v] = acc.get(v, 0) + Fraction(p)
        for v, p in B:
            top[v] = top.get(v, 0) + Fraction(p)
        for v in list(acc) + [v for v in top if v not in acc]:
            a, b = acc.get(v, 0), top.get(v, 0)
            # float noise is no difference, an outcome that is missing is one
            if abs(a - b) > max(NOISE if a and b else SMALL, TOL * max(a, b)):
                raise CheckFailed(f"{label}: probability of {v} is off by {float(a - b)}")

    def scripted(self, fn, pick):
        """run fn with every random draw decided by pick(weights, number of the draw);
        returns (value, [weights of each draw])"""
        st = Script(pick)
        self.law_state = st
        try:
            return fn(), st.draws
        finally:
            self.law_state = None

    def law(self, fn, limit=200000):
        out = []
        stack = [[]]
        while stack:
            st = shims.LawState()
            st.prefix = stack.pop()
            self.law_state = st
            exc = val = None
            try:
                val = fn()
            except Exception as e:
                exc = e
            finally:
                self.law_state = None
            stack.extend(st.alts)
            den = 1
            for d in st.dens:
                den *= d
            if exc is not None and not isinstance(exc, (ZeroDivisionError,)):
                raise exc
            p = Fraction(st.num, den) if den else Fraction(0)
            if p > 0:
                out.append((p, val, exc))
            if len(out) > limit:
                raise AssumeFailed("law too large")
        return out


def run_concrete(fn, params, values, choices=()):
    """(status, detail): ok | violation | skipped"""
    import random as _random

    c = ConcreteCtx(values, choices)
    try:
        c.fresh()
        fn(c, **c.own(params))
    except AssumeFailed as e:
        return "skipped", str(e), c
    except CheckFailed as e:
        return "violation", str(e), c
    except Exception as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""
        return "violation", f"unexpected {type(e).__name__}: {e} ({where})", c
    return "ok", ",".join(c.labels[:8]), c
