"""Environment stubs shared by symbolic and concrete runs: the random module's
documented contract, a matplotlib/PIL recorder.  No z3 here (also used by replay)."""
import sys
import types
from fractions import Fraction


class LawState:
    """enumerates the outcomes of the random draws made by one thunk"""

    def __init__(self):
        self.prefix = []
        self.trace = []
        self.alts = []
        self.num = 1
        self.nums = []
        self.dens = []

    def draw(self, weights):
        i = len(self.trace)
        n = len(weights)
        if n == 0:
            raise IndexError("Cannot choose from an empty population")
        if i < len(self.prefix):
            j = self.prefix[i]
        else:
            j = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.trace + [k])
        self.trace.append(j)
        self.num = self.num * weights[j]
        self.nums.append(weights[j])
        tot = 0
        for w in weights:
            tot = tot + w
        self.dens.append(tot)
        return j


class Uniform:
    """factor * U + shift for a U drawn uniformly from [lo, hi) within [0, 1): whatever is asked
    about it splits the interval, each part drawn with its length as weight (exact, so the law of
    what is computed from it is).  Single points have no weight and are ignored."""

    __slots__ = ("b", "u", "a", "c")
    LIMIT = 20000

    def __init__(self, backend, u, a, c):
        self.b, self.u, self.a, self.c = backend, u, a, c

    def _num(self, x):
        if isinstance(x, Uniform):
            return None
        if isinstance(x, float) and type(x) is float:
            return Fraction(x)
        return x if isinstance(x, (int, float, Fraction)) else None

    def _with(self, a, c):
        return Uniform(self.b, self.u, a, c)

    def __add__(self, x):
        n = self._num(x)
        return self.b.unsupported("sum of random()s") if n is None else self._with(self.a, self.c + n)

    __radd__ = __add__

    def __neg__(self):
        return self._with(-self.a, -self.c)

    def __pos__(self):
        return self

    def __sub__(self, x):
        n = self._num(x)
        return self.b.unsupported("sum of random()s") if n is None else self._with(self.a, self.c - n)

    def __rsub__(self, x):
        return (-self) + x

    def __mul__(self, x):
        n = self._num(x)
        return self.b.unsupported("product of random()s") if n is None else self._with(self.a * n, self.c * n)

    __rmul__ = __mul__

    def __truediv__(self, x):
        n = self._num(x)
        if n is None:
            return self.b.unsupported("quotient of random()s")
        return self._with(self.b.ratio(self.a, n), self.b.ratio(self.c, n))

    def _below(self, t):
        """is the value below t"""
        t = self._num(t)
        if t is None:
            return self.b.unsupported("comparison of random()s")
        if self.a == 0:
            return bool(self.c < t)
        s = self.b.ratio(t - self.c, self.a)
        up = bool(self.a > 0)
        lo, hi = self.u
        if s <= lo:
            return not up
        if s >= hi:
            return up
        j = self.b.draw(self.b.proportions([s - lo, hi - s]))
        self.u[:] = [lo, s] if j == 0 else [s, hi]
        return (j == 0) == up

    def __lt__(self, x):
        return self._below(x)

    __le__ = __lt__

    def __gt__(self, x):
        return not self._below(x)

    __ge__ = __gt__

    def __eq__(self, x):
        return self is x

    def __ne__(self, x):
        return self is not x

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True

    def _floor(self, shift):
        """floor of the value + shift"""
        v = self + shift
        lo, hi = v.u
        ends = [v.a * lo + v.c, v.a * hi + v.c]
        if not ends[0] <= ends[1]:
            ends.reverse()
        k = self.b.floor(ends[0])
        cuts = []
        while k + len(cuts) + 1 < ends[1]:
            cuts.append(k + len(cuts) + 1)
            if len(cuts) > self.LIMIT:
                return self.b.unsupported("floor of random() over a wide range")
        if not cuts:
            return k
        at = [self.b.ratio(t - v.c, v.a) for t in cuts]
        vals = [k] + cuts
        if not v.a > 0:
            at.reverse()
            vals.reverse()
        edges = [lo] + at + [hi]
        j = self.b.draw(self.b.proportions([edges[i + 1] - edges[i] for i in range(len(vals))]))
        v.u[:] = [edges[j], edges[j + 1]]
        return vals[j]

    def __floor__(self):
        return self._floor(0)

    def __ceil__(self):
        return self._floor(1)

    def __trunc__(self):
        return self._floor(0) if not self._below(0) else self._floor(1)

    __int__ = __trunc__

    def __round__(self, n=None):
        if n is not None:
            return self.b.unsupported("random() rounded to digits")
        return self._floor(Fraction(1, 2))

    def __floordiv__(self, x):
        return (self / x)._floor(0)

    def __mod__(self, x):
        return self - (self / x)._floor(0) * x

    def __float__(self):
        return self.b.unsupported("float() of random()")

    def __repr__(self):
        return self.b.unsupported("text of random()")


class RandomStub(types.ModuleType):
    """random with every draw routed to the current law enumeration, or to a
    nondeterministic environment choice outside of one"""

    def __init__(self, backend):
        super().__init__("random")
        self._b = backend

    def _draw(self, weights):
        return self._b.draw(list(weights))

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        population = list(population)
        if cum_weights is not None:
            if weights is not None:
                raise TypeError("Cannot specify both weights and cumulative weights")
            cum = list(cum_weights)
            weights = [cum[0]] + [cum[i] - cum[i - 1] for i in range(1, len(cum))]
        if weights is None:
            weights = [1] * len(population)
        weights = list(weights)
        if len(weights) != len(population):
            raise ValueError("The number of weights does not match the population")
        out = []
        for _ in self._b.range(k):
            out.append(population[self._draw(weights)])
        return out

    def choice(self, seq):
        seq = list(seq)
        if not seq:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self._draw([1] * len(seq))]

    def randrange(self, start, stop=None, step=1):
        vals = list(self._b.range(start) if stop is None else self._b.range(start, stop, step))
        if not vals:
            raise ValueError("empty range for randrange()")
        return vals[self._draw([1] * len(vals))]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def sample(self, population, k, *, counts=None):
        pop = list(population)
        if counts is not None:
            pop = [p for p, c in zip(pop, counts) for _ in self._b.range(c)]
        out = []
        for _ in self._b.range(k):
            if not pop:
                raise ValueError("Sample larger than population or is negative")
            out.append(pop.pop(self._draw([1] * len(pop))))
        return out

    def shuffle(self, x):
        pool = list(x)
        for i in range(len(x)):
            x[i] = pool.pop(self._draw([1] * len(pool)))

    def random(self):
        return Uniform(self._b, [0, 1], 1, 0)

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def gauss(self, mu=0, sigma=1):
        """no finite law: three of its values stand for it, which shows that the outcome depends on it"""
        return mu + sigma * Fraction((-2, 0, 2)[self._draw([1, 1, 1])], 3)

    normalvariate = gauss

    def randbelow(self, n):
        return self.randrange(n)

    randbits = property(lambda self: self.getrandbits)

    def seed(self, *a, **k):
        return None

    def getrandbits(self, k):
        return self.randrange(2 ** int(k))

    def Random(self, *a, **k):
        return self

    def SystemRandom(self, *a, **k):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self._b.unsupported("random." + name)


class Recorder:
    """stands in for matplotlib.pyplot / axes / PIL.Image: records (call, args, kwargs, figure)"""

    def __init__(self):
        self.clear()

    def clear(self):
        self.calls = []
        self.figures = 0
        self.current = None

    def new(self):
        self.figures += 1
        self.current = self.figures
        return self.current

    def fig(self):
        return self.new() if self.current is None else self.current

    def drawn(self):
        """the calls that made the image opened last"""
        saved = [f for n, _, _, f in self.calls if n == "savefig"]
        if not saved:
            return []
        out = []
        for n, a, k, f in self.calls:
            if f == saved[-1]:
                if n in ("clf", "cla", "clear"):
                    out = []
                elif n != "savefig":
                    out.append((n, a, k))
        return out


class _Axis:
    """an axis or a figure"""

    def __init__(self, rec, fig):
        object.__setattr__(self, "_rec", rec)
        object.__setattr__(self, "_fig", fig)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        rec, fig = self._rec, self._fig
        if name in ("figure", "axes"):
            return self

        def call(*a, **k):
            rec.calls.append((name, a, k, fig))
            if name in ("add_subplot", "gca", "subplots", "get_figure", "add_axes"):
                return self
            return None

        return call


def make_plot_modules(rec):
    mpl = types.ModuleType("matplotlib")
    pyplot = types.ModuleType("matplotlib.pyplot")

    def subplots(*a, **k):
        x = _Axis(rec, rec.new())
        return x, x

    pyplot.subplots = subplots
    pyplot.figure = lambda *a, **k: _Axis(rec, rec.new())
    pyplot.gca = lambda *a, **k: _Axis(rec, rec.fig())
    pyplot.gcf = pyplot.gca
    pyplot.axes = pyplot.gca

    def close(*a, **k):
        rec.current = None

    pyplot.close = close

    def other(name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(_Axis(rec, rec.fig()), name)

    pyplot.__getattr__ = other
    mpl.pyplot = pyplot
    mpl.use = lambda *a, **k: None
    pil = types.ModuleType("PIL")
    image = types.ModuleType("PIL.Image")

    class Image:
        def __init__(self, number):
            self.number = number

    image.Image = Image

    def open_(buffer, *a, **k):
        rec.calls.append(("image", (), {}, rec.current))
        return Image(len(rec.calls))

    image.open = open_
    pil.Image = image
    return {"matplotlib": mpl, "matplotlib.pyplot": pyplot, "PIL": pil, "PIL.Image": image}


def install_plot_modules(rec):
    mods = make_plot_modules(rec)
    sys.modules.update(mods)
    return mods
