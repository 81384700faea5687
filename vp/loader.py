"""Loads /repo/python_dice from its current source, instrumented: displays of dicts
and sets become vdict/vset, builtins that would force a concrete integer are replaced."""
import ast
import builtins
import collections
import functools
import importlib.abc
import importlib.util
import itertools
import math
import os
import re
import sys
import types

from . import core, shims
from .containers import is_vd, vCounter, vdefaultdict, vdict, vfrozenset, vOrderedDict, vset
from .core import (
    PathAbort,
    SymBool,
    SymHash,
    SymInt,
    SymReal,
    Unsupported,
    as_poly,
    cur,
    is_sym,
    ite,
    mk_int,
    p_scale,
    to_real,
    vhash,
)

REPO = os.environ.get("VP_REPO", "/repo")
SITE = "/opt/venv/lib/pypy3.9/site-packages"


# ------------------------------------------------------------------ builtins


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return c is vint or issubclass(c, int)

    def __call__(cls, *a, **k):
        if cls is not vint:
            return type.__call__(cls, *a, **k)
        if len(a) == 1 and not k:
            x = a[0]
            t = type(x)
            if t is SymInt:
                return x
            if t is SymBool:
                return x._int()
            if t is SymReal:
                return x.__trunc__()
            if t is str:
                return parse_int(x)
        elif a and type(a[0]) is str and core.CUR is not None and any(c in core.CUR.tokens for c in a[0]):
            if (len(a) > 1 and a[1] == 10) or k.get("base") == 10:
                return parse_int(a[0])
            raise Unsupported("int() of a symbolic numeral with a base")
        return int(*a, **k)

    def __getattr__(cls, name):
        return getattr(int, name)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __or__(cls, o):
        return int

    __ror__ = __or__


class vint(metaclass=_IntMeta):
    pass


def parse_int(s):
    P = core.CUR
    if P is not None and P.tokens:
        body = s.strip()
        sign = 1
        if body[:1] in ("+", "-"):
            sign = -1 if body[0] == "-" else 1
            body = body[1:]
        if any(c in P.tokens for c in body):
            if len(body) != 1:
                if all(c in P.tokens or c == "0" for c in body) and set(body[:-1]) == {"0"}:
                    body = body[-1]
                else:
                    if not all(c in P.tokens or c.isdigit() for c in body):
                        raise ValueError(f"invalid literal for int() with base 10: {s!r}")
                    v = 0
                    raise Unsupported("numeral made of several symbolic numerals")
            return mk_int(p_scale(P.tokens[body], sign))
    return int(s)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, *a):
        if a:
            t = type(a[0])
            if t in (SymInt, SymBool, SymReal):
                return to_real(a[0])
            if t is str and core.CUR is not None and any(c in core.CUR.tokens for c in a[0]):
                return to_real(parse_int(a[0]))
        return float(*a)

    def __getattr__(cls, name):
        return getattr(float, name)


class vfloat(metaclass=_FloatMeta):
    pass


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, range) or type(x) is vrange

    def __call__(cls, *a):
        if not any(type(x) in (SymInt, SymBool) for x in a):
            return range(*a)
        return type.__call__(cls, *a)


class vrange(metaclass=_RangeMeta):
    LIMIT = 400

    def __init__(self, *a):
        a = [x._int() if type(x) is SymBool else x for x in a]
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        elif len(a) == 2:
            (self.start, self.stop), self.step = a, 1
        else:
            self.start, self.stop, self.step = a
        if type(self.step) is SymInt:
            self.step = int(self.step)
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.start
        n = 0
        while True:
            c = i < self.stop if self.step > 0 else i > self.stop
            if not c:
                return
            yield i
            i = i + self.step
            n += 1
            if n > cur().opts.get("max_iter", self.LIMIT):
                cur().incomplete.append("range longer than the iteration bound")
                raise PathAbort("iteration bound")

    def __len__(self):
        n = 0
        for _ in self:
            n += 1
        return n

    def __bool__(self):
        return bool(self.start < self.stop if self.step > 0 else self.start > self.stop)

    def __contains__(self, x):
        if not isinstance(x, int):
            return False
        if self.step > 0:
            return bool(core.vand(self.start <= x, x < self.stop, (x - self.start) % self.step == 0))
        return bool(core.vand(self.start >= x, x > self.stop, (self.start - x) % (-self.step) == 0))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return list(self)[i]
        if not is_sym(i) and i >= 0 and self.step == 1:
            v = self.start + i
            if not (v < self.stop):
                raise IndexError("range object index out of range")
            return v
        return list(self)[i]

    def __reversed__(self):
        return reversed(list(self))

    def index(self, x):
        return list(self).index(x)

    def count(self, x):
        return 1 if x in self else 0

    def __eq__(self, o):
        return list(self) == list(o) if isinstance(o, range) or type(o) is vrange else NotImplemented

    __hash__ = None

    def __repr__(self):
        return f"range({self.start}, {self.stop})"


_NO = object()


def _extreme(name, native, better, args, key, default):
    if len(args) == 1:
        items = list(args[0])
    else:
        items = list(args)
    if not items:
        if default is _NO:
            raise ValueError(f"{name}() arg is an empty sequence")
        return default
    if key is None and any(type(x) in (SymInt, SymReal) for x in items) and all(
        type(x) in (SymInt, SymReal, int, float, bool) for x in items
    ):
        best = items[0]
        for x in items[1:]:
            best = ite(better(x, best), x, best)
        return best
    best = items[0]
    kb = key(best) if key else best
    for x in items[1:]:
        kx = key(x) if key else x
        if better(kx, kb):
            best, kb = x, kx
    return best


def vmax(*args, key=None, default=_NO):
    return _extreme("max", max, lambda a, b: a > b, args, key, default)


def vmin(*args, key=None, default=_NO):
    return _extreme("min", min, lambda a, b: a < b, args, key, default)


vmax.__name__ = vmax.__qualname__ = "max"
vmin.__name__ = vmin.__qualname__ = "min"


def vtype(*a, **k):
    if len(a) == 1:
        t = type(a[0])
        if t is SymInt or t is int:
            return vint
        if t is SymBool:
            return bool
        if t is SymReal or t is float:
            return vfloat
        return t
    return type(*a, **k)


def vp_dict(pairs):
    d = vdict()
    for k, v in pairs:
        d[k] = v
    return d


def vp_dict_parts(parts):
    d = vdict()
    for k, v in parts:
        if k is _NO:
            d.update(v)
        else:
            d[k] = v
    return d


def vp_set(it):
    return vset(it)


def vp_if(c, a, b):
    if type(c) is SymBool:
        return ite(c, a, b)
    return a if c else b


_NUM = (int, bool, float, SymInt, SymBool, SymReal)


def vp_div(a, b):
    """true division: exact (floats are modelled as reals)"""
    if type(a) in _NUM and type(b) in _NUM:
        if not (type(a) is float and not math.isfinite(a)) and not (type(b) is float and not math.isfinite(b)):
            return to_real(a) / b
    return a / b


def vsum(it, start=0):
    for x in it:
        start = start + x
    return start


# ------------------------------------------------------------------ module shims


class _Proxy(types.ModuleType):
    def __init__(self, mod, over):
        super().__init__(mod.__name__)
        self.__dict__["_mod"] = mod
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_mod"], name)


def _fix_pattern(p):
    if isinstance(p, str):
        p = re.sub(r"\[([^\]\\]|\\.)*\]", lambda m: re.sub(r"[01]-9", lambda x: x.group(0) + r"\d", m.group(0)), p)
    return p


def _re_wrap(name):
    fn = getattr(re, name)

    def w(pattern, *a, **k):
        return fn(_fix_pattern(pattern), *a, **k)

    return w


RE = _Proxy(
    re,
    {n: _re_wrap(n) for n in ("compile", "match", "fullmatch", "search", "split", "sub", "subn", "findall", "finditer")},
)


def _lru_cache(maxsize=128, typed=False):
    def deco(fn):
        store = []

        @functools.wraps(fn)
        def w(*a, **k):
            from .containers import keys_equal

            key = (tuple(a), tuple(sorted(k.items())))
            for kk, v in store:
                if keys_equal(kk, key):
                    return v
            v = fn(*a, **k)
            store.append((key, v))
            return v

        w.cache_clear = store.clear
        w.cache_info = lambda: (0, 0, maxsize, len(store))
        return w

    if callable(maxsize):
        fn, maxsize = maxsize, 128
        return deco(fn)
    return deco


FUNCTOOLS = _Proxy(functools, {"lru_cache": _lru_cache, "cache": lambda f: _lru_cache(None)(f)})
COLLECTIONS = _Proxy(
    collections, {"defaultdict": vdefaultdict, "Counter": vCounter, "OrderedDict": vOrderedDict}
)


def _comb(n, k):
    return math.comb(int(n), int(k))


def _fsum(it):
    return vsum(it, 0.0)


def _prod(it, *, start=1):
    for x in it:
        start = start * x
    return start


def _mfloor(x):
    return x.__floor__() if is_sym(x) and type(x) is not SymBool else math.floor(x)


def _mceil(x):
    return x.__ceil__() if is_sym(x) and type(x) is not SymBool else math.ceil(x)


def _mtrunc(x):
    return x.__trunc__() if is_sym(x) and type(x) is not SymBool else math.trunc(x)


def _isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        return a == b
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def _fabs(x):
    return abs(to_real(x)) if is_sym(x) else math.fabs(x)


MATH = _Proxy(
    math,
    {
        "comb": _comb,
        "fsum": _fsum,
        "prod": _prod,
        "floor": _mfloor,
        "ceil": _mceil,
        "trunc": _mtrunc,
        "isclose": _isclose,
        "fabs": _fabs,
    },
)


class RandomBackend:
    """routes draws to core.CUR"""

    range = staticmethod(lambda *a: vrange(*a))

    @staticmethod
    def draw(weights):
        P = cur()
        law = getattr(P, "law", None)
        if law is not None:
            return law.draw(weights)
        ws = [i for i, w in enumerate(weights) if is_sym(w) or w > 0]
        j = ws[P.choose(len(ws), "random")]
        if is_sym(weights[j]):
            if not (weights[j] > 0):
                raise core.PathInfeasible()
        P.choices.append(j)
        return j

    @staticmethod
    def ratio(a, b):
        return core.to_real(a) / b

    @staticmethod
    def floor(x):
        return _mfloor(x) if is_sym(x) else math.floor(x)

    @staticmethod
    def proportions(ws):
        """whole weights in the same proportion"""
        ws = [core.to_real(w) for w in ws]
        if all(w.const() is not None for w in ws):
            den = math.lcm(*(w.const().denominator for w in ws))
            return [int(w.const() * den) for w in ws]
        dens = {core.p_key(w.d): w.d for w in ws}
        out = []
        for w in ws:
            n = w.n
            for k, d in dens.items():
                if k != core.p_key(w.d):
                    n = core.p_mul(n, d)
            out.append(mk_int(n))
        return out

    @staticmethod
    def unsupported(name):
        raise Unsupported(name)


RANDOM = shims.RandomStub(RandomBackend)

SHIMS = {
    "re": RE,
    "functools": FUNCTOOLS,
    "collections": COLLECTIONS,
    "math": MATH,
    "random": RANDOM,
    "secrets": RANDOM,
}


def _vp_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SHIMS:
        return SHIMS[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d.update(
        int=vint,
        float=vfloat,
        range=vrange,
        max=vmax,
        min=vmin,
        type=vtype,
        dict=vdict,
        set=vset,
        frozenset=vfrozenset,
        hash=vhash,
        sum=vsum,
        __import__=_vp_import,
        __vp_dict__=vp_dict,
        __vp_dict_parts__=vp_dict_parts,
        __vp_set__=vp_set,
        __vp_if__=vp_if,
        __vp_div__=vp_div,
        __vp_no__=_NO,
    )
    return d


BUILTINS = make_builtins()


# ------------------------------------------------------------------ transformation


def _num_const(n):
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        n = n.operand
    return isinstance(n, ast.Constant) and type(n.value) in (int, bool)


class Transformer(ast.NodeTransformer):
    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            elts = [
                ast.Tuple([k if k is not None else ast.Name("__vp_no__", ast.Load()), v], ast.Load())
                for k, v in zip(node.keys, node.values)
            ]
            fn = "__vp_dict_parts__"
        else:
            elts = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
            fn = "__vp_dict__"
        return ast.copy_location(
            ast.Call(ast.Name(fn, ast.Load()), [ast.List(elts, ast.Load())], []), node
        )

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(ast.Name("__vp_set__", ast.Load()), [ast.List(node.elts, ast.Load())], []), node
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(ast.Call(ast.Name("__vp_dict__", ast.Load()), [gen], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(node.elt, node.generators)
        return ast.copy_location(ast.Call(ast.Name("__vp_set__", ast.Load()), [gen], []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(
                ast.Call(ast.Name("__vp_div__", ast.Load()), [node.left, node.right], []), node
            )
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and isinstance(node.target, ast.Name):
            load = ast.Name(node.target.id, ast.Load())
            return ast.copy_location(
                ast.Assign([node.target], ast.Call(ast.Name("__vp_div__", ast.Load()), [load, node.value], [])), node
            )
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if _num_const(node.body) and _num_const(node.orelse):
            return ast.copy_location(
                ast.Call(ast.Name("__vp_if__", ast.Load()), [node.test, node.body, node.orelse], []), node
            )
        return node


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Transformer().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class RepoLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = CODE.get(self.path)
        if code is None:
            with open(self.path, encoding="utf-8") as f:
                code = transform(f.read(), self.path)
            CODE[self.path] = code
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


CODE = {}
_SPECS = {}


class RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "python_dice" and not name.startswith("python_dice."):
            return None
        hit = _SPECS.get(name)
        if hit is None:
            base = os.path.join(REPO, *name.split("."))
            if os.path.isfile(os.path.join(base, "__init__.py")):
                hit = (os.path.join(base, "__init__.py"), True)
            elif os.path.isfile(base + ".py"):
                hit = (base + ".py", False)
            elif os.path.isdir(base):
                spec = importlib.util.spec_from_loader(name, None, is_package=True)
                spec.submodule_search_locations = [base]
                return spec
            else:
                return None
            _SPECS[name] = hit
        p, pkg = hit
        spec = importlib.util.spec_from_loader(name, RepoLoader(p), origin=p, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [os.path.dirname(p)]
        return spec


REC = shims.Recorder()
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    shims.install_plot_modules(REC)
    if SITE not in sys.path:
        sys.path.append(SITE)
    import rply  # noqa
    import rply.lexergenerator as lg

    lg.re = RE
    _cache_tables()
    sys.meta_path.insert(0, RepoFinder())


def _cache_tables():
    """LALR tables depend on the grammar only: build each distinct grammar's once"""
    import rply.parsergenerator as pg

    cls = pg.LRTable
    orig = cls.from_grammar.__func__
    store = {}

    def from_grammar(c, grammar):
        key = (
            tuple((p.name, tuple(p.prod), p.prec) for p in grammar.productions),
            tuple(sorted(grammar.precedence.items())),
            grammar.start,
        )
        hit = store.get(key)
        if hit is None:
            hit = orig(c, grammar)
            store[key] = hit
            return hit
        return cls(
            grammar, hit.lr_action, hit.lr_goto, hit.default_reductions, hit.sr_conflicts, hit.rr_conflicts
        )

    cls.from_grammar = classmethod(from_grammar)


def fresh_repo():
    """forget every loaded python_dice module, so that no state survives a path"""
    for k in [k for k in sys.modules if k == "python_dice" or k.startswith("python_dice.")]:
        del sys.modules[k]
    REC.clear()
