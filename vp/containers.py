"""dict and set replacements whose keys may be symbolic.

Insertion ordered; key equality is decided by the solver (forking when both are
possible).  vset iteration can be made to fork over all orders.
"""
from . import core
from .core import SymBool, SymHash, SymInt, SymReal, Unsupported, as_poly, f_eq, f_le, hash_eq, p_add, p_key, struct_key, vhash

_MISSING = object()


def is_vd(x):
    return vdict in type(x).__mro__


def is_vs(x):
    return vset in type(x).__mro__


def _kind(k):
    """'c' concrete natively hashable, 'i' symbolic int, 'u' user object / compound"""
    t = type(k)
    if t is SymInt or t is SymBool:
        return "i"
    if t is int or t is str or t is bool or t is float or k is None:
        return "c"
    if t is SymReal:
        return "r"
    if t is tuple:
        for e in k:
            if _kind(e) != "c":
                return "u"
        return "c"
    return "u"


def keys_equal(a, b):
    """python's dict notion: identical, or hashes agree and a == b"""
    if a is b:
        return True
    ka, kb = _kind(a), _kind(b)
    if ka == "c" and kb == "c":
        return a == b
    if "i" in (ka, kb):
        pa, pb = as_poly(a), as_poly(b)
        if pa is None or pb is None:
            if "r" in (ka, kb) or type(a) is float or type(b) is float:
                return bool(a == b)
            return False
        return core.cur().decide(f_eq(p_add(pa, pb, -1)))
    if "r" in (ka, kb):
        if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            return False
        return bool(a == b)
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(keys_equal(x, y) for x, y in zip(a, b))
    if ka != kb:
        return False if ka == "c" and type(a) is not tuple or kb == "c" and type(b) is not tuple else bool(a == b)
    he = hash_eq(vhash(a), vhash(b))
    if he is False:
        return False
    if he is not True and not core.cur().decide(he):
        return False
    return bool(a == b)


def user_equal(a, ha, b, hb):
    if a is b:
        return True
    if ha is None:
        return keys_equal(a, b)
    if type(ha) is int and type(hb) is int:
        if ha != hb:
            return False
    else:
        he = hash_eq(ha, hb)
        if he is False or (he is not True and not core.cur().decide(he)):
            return False
    if type(a) is tuple and type(b) is tuple:
        return keys_equal(a, b)
    return bool(a == b)


class _Meta(type):
    def __instancecheck__(cls, x):
        n = cls.__dict__.get("_native")
        if n is not None:
            return isinstance(x, n) or type.__instancecheck__(cls, x)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        n = cls.__dict__.get("_native")
        if n is not None and type.__subclasscheck__(n, c):
            return True
        return type.__subclasscheck__(cls, c)


class vdict(metaclass=_Meta):
    _native = dict

    def __init__(self, *args, **kw):
        self._e = {}  # position -> [key, value]
        self._n = 0
        self._idx = {}  # concrete key -> position
        self._sym = []  # positions of non concrete keys, in order
        self._hs = {}  # position -> hash taken at insertion (user objects)
        self._st = {}  # structure of the key or its hash -> positions
        self._ver = 0
        if args:
            self._upd(args[0])
        for k, v in kw.items():
            self[k] = v

    @property
    def __class__(self):
        return type(self) if type(self) is not vdict else dict

    def _upd(self, src):
        if src is None:
            raise TypeError("'NoneType' object is not iterable")
        if hasattr(src, "keys"):
            for k in list(src.keys()):
                self[k] = src[k]
        else:
            for k, v in src:
                self[k] = v

    def _find(self, key):
        kind = _kind(key)
        if kind == "c":
            pos = self._idx.get(key)
            if pos is not None:
                return pos
            if not self._sym:
                return None
            numeric = isinstance(key, (int, float))
            for pos in self._sym:
                k = self._e[pos][0]
                if _kind(k) in "ir" and not numeric:
                    continue
                if keys_equal(k, key):
                    return pos
            return None
        if kind == "u":
            h = vhash(key)  # unhashable keys raise, as natively
            sk = struct_key(h)
            if sk is not None:
                hit = [pos for pos in self._st.get(sk, ()) if pos in self._e]
                for pos in hit:
                    if user_equal(self._e[pos][0], self._hs.get(pos), key, h):
                        return pos
            for pos in self._sym:
                if user_equal(self._e[pos][0], self._hs.get(pos), key, h):
                    return pos
            if type(key) is tuple:
                for k, pos in self._idx.items():
                    if type(k) is tuple and keys_equal(k, key):
                        return pos
            return None
        if type(key) is SymInt:
            for pos in self._st.get(("p", p_key(key.p)), ()):
                if pos in self._e:
                    return pos
        for pos, (k, _) in self._e.items():
            if keys_equal(k, key):
                return pos
        return None

    def __setitem__(self, key, value):
        pos = self._find(key)
        if pos is not None:
            self._e[pos][1] = value
            return
        pos = self._n
        self._n += 1
        self._ver += 1
        self._e[pos] = [key, value]
        if _kind(key) == "c":
            self._idx[key] = pos
        else:
            self._sym.append(pos)
            self._note(pos, key)

    def _note(self, pos, key):
        """structural index: finds identical symbolic keys without the solver"""
        h = key
        if _kind(key) == "u":
            h = self._hs[pos] = vhash(key)
        sk = struct_key(h)
        if sk is not None:
            self._st.setdefault(sk, []).append(pos)

    def __getitem__(self, key):
        pos = self._find(key)
        if pos is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return self._e[pos][1]

    def __delitem__(self, key):
        pos = self._find(key)
        if pos is None:
            raise KeyError(key)
        self._drop(pos)

    def _drop(self, pos):
        k, v = self._e.pop(pos)
        self._ver += 1
        if _kind(k) == "c":
            del self._idx[k]
        else:
            self._sym.remove(pos)
            self._hs.pop(pos, None)
        return k, v

    def __contains__(self, key):
        return self._find(key) is not None

    def __len__(self):
        return len(self._e)

    def __bool__(self):
        return bool(self._e)

    def __iter__(self):
        ver = self._ver
        for k, _ in list(self._e.values()):
            if self._ver != ver:
                raise RuntimeError("dictionary changed size during iteration")
            yield k
        if self._ver != ver:
            raise RuntimeError("dictionary changed size during iteration")

    def __reversed__(self):
        return iter([k for k, _ in self._e.values()][::-1])

    def keys(self):
        return _Keys(self)

    def values(self):
        return _Values(self)

    def items(self):
        return _Items(self)

    def get(self, key, default=None):
        pos = self._find(key)
        return default if pos is None else self._e[pos][1]

    def setdefault(self, key, default=None):
        pos = self._find(key)
        if pos is None:
            self[key] = default
            return default
        return self._e[pos][1]

    def pop(self, key, default=_MISSING):
        pos = self._find(key)
        if pos is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        return self._drop(pos)[1]

    def popitem(self):
        if not self._e:
            raise KeyError("popitem(): dictionary is empty")
        return self._drop(next(reversed(self._e)))

    def clear(self):
        self._e.clear()
        self._idx.clear()
        self._sym.clear()
        self._hs.clear()
        self._st.clear()
        self._ver += 1

    def update(self, *args, **kw):
        if args:
            self._upd(args[0])
        for k, v in kw.items():
            self[k] = v

    def _clone(self):
        r = type(self).__new__(type(self))
        r.__dict__.update({k: v for k, v in self.__dict__.items()})
        r._e = {p: [k, v] for p, (k, v) in self._e.items()}
        r._idx = dict(self._idx)
        r._sym = list(self._sym)
        r._hs = dict(self._hs)
        r._st = {k: list(v) for k, v in self._st.items()}
        return r

    def copy(self):
        return self._clone()

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as _c

        r = self._clone()
        memo[id(self)] = r
        r._e = {p: [_c.deepcopy(k, memo), _c.deepcopy(v, memo)] for p, (k, v) in self._e.items()}
        r._idx = {r._e[p][0]: p for p in self._idx.values()}
        r._hs = {}
        r._st = {}
        for p in r._sym:
            r._note(p, r._e[p][0])
        return r

    @classmethod
    def fromkeys(cls, it, value=None):
        r = cls()
        for k in it:
            r[k] = value
        return r

    def __eq__(self, o):
        if not (is_vd(o) or isinstance(o, dict)):
            return NotImplemented
        if len(o) != len(self):
            return False
        o = o if is_vd(o) else vdict(o)
        for k, v in self._e.values():
            if k not in o or not (v == o[k]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = type(self)(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self._e.values()) + "}"

    def __str__(self):
        return repr(self)

    def __class_getitem__(cls, item):
        return dict[item]


class _View:
    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return f"dict_view({list(self)!r})"


class _Keys(_View):
    def __iter__(self):
        return iter(self.d)

    def __reversed__(self):
        return reversed(list(self))

    def __contains__(self, k):
        return k in self.d

    def isdisjoint(self, o):
        return vset(self).isdisjoint(o)

    def __eq__(self, o):
        return vset(self) == (o if is_vs(o) else vset(o))

    __hash__ = None

    def __and__(self, o):
        return vset(self) & vset(o)

    __rand__ = __and__

    def __or__(self, o):
        return vset(self) | vset(o)

    def __ror__(self, o):
        return vset(o) | vset(self)

    def __sub__(self, o):
        return vset(self) - vset(o)

    def __rsub__(self, o):
        return vset(o) - vset(self)

    def __xor__(self, o):
        return vset(self) ^ vset(o)

    def __le__(self, o):
        return vset(self) <= vset(o)

    def __ge__(self, o):
        return vset(self) >= vset(o)

    def __lt__(self, o):
        return vset(self) < vset(o)

    def __gt__(self, o):
        return vset(self) > vset(o)


class _Values(_View):
    def __iter__(self):
        d = self.d
        for k in d:
            yield d[k]

    def __reversed__(self):
        return reversed(list(self))


class _Items(_View):
    def __iter__(self):
        d = self.d
        ver = d._ver
        for e in list(d._e.values()):
            if d._ver != ver:
                raise RuntimeError("dictionary changed size during iteration")
            yield (e[0], e[1])
        if d._ver != ver:
            raise RuntimeError("dictionary changed size during iteration")

    def __reversed__(self):
        return reversed(list(self))

    def __contains__(self, kv):
        k, v = kv
        return k in self.d and bool(self.d[k] == v)


def _values_iter(self):
    d = self.d
    ver = d._ver
    for e in list(d._e.values()):
        if d._ver != ver:
            raise RuntimeError("dictionary changed size during iteration")
        yield e[1]


_Values.__iter__ = _values_iter


class vset(metaclass=_Meta):
    _native = set

    def __init__(self, it=()):
        self._d = vdict()
        for x in it:
            self._d[x] = True

    @property
    def __class__(self):
        t = type(self)
        return set if t is vset else (frozenset if t is vfrozenset else t)

    def __iter__(self):
        items = list(self._d._e.values())
        p = core.CUR
        if p is not None and p.set_order == "all" and len(items) > 1:
            ver = self._d._ver
            while items:
                k = items.pop(p.choose(len(items), "set order"))[0]
                yield k
                if self._d._ver != ver:
                    raise RuntimeError("Set changed size during iteration")
            return
        if p is not None and p.set_order == "flip" and len(items) > 1 and p.flip():
            items.reverse()
        ver = self._d._ver
        for k, _ in items:
            if self._d._ver != ver:
                raise RuntimeError("Set changed size during iteration")
            yield k
        if self._d._ver != ver:
            raise RuntimeError("Set changed size during iteration")

    def _raw(self):
        return [k for k, _ in self._d._e.values()]

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __contains__(self, x):
        return x in self._d

    def add(self, x):
        self._d[x] = True

    def remove(self, x):
        del self._d[x]

    def discard(self, x):
        self._d.pop(x, None)

    def pop(self):
        ks = self._raw()
        if not ks:
            raise KeyError("pop from an empty set")
        p = core.CUR
        i = p.choose(len(ks), "set pop") if p is not None and p.set_order == "all" else 0
        if p is not None and p.set_order == "flip" and p.flip():
            i = len(ks) - 1
        k = ks[i]
        pos = list(self._d._e)[i]
        self._d._drop(pos)
        return k

    def clear(self):
        self._d.clear()

    def copy(self):
        r = type(self).__new__(type(self))
        r._d = self._d.copy()
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as _c

        r = type(self).__new__(type(self))
        memo[id(self)] = r
        r._d = vdict()
        for k in self._raw():
            r._d[_c.deepcopy(k, memo)] = True
        return r

    def update(self, *others):
        for o in others:
            for x in o:
                self._d[x] = True

    def union(self, *others):
        r = self.copy()
        for o in others:
            for x in _raw(o):
                r._d[x] = True
        return r

    def intersection(self, *others):
        r = type(self)()
        os = [o if is_vs(o) or is_vd(o) else vset(o) for o in others]
        for x in self._raw():
            if all(x in o for o in os):
                r._d[x] = True
        return r

    def difference(self, *others):
        r = type(self)()
        os = [o if is_vs(o) or is_vd(o) else vset(o) for o in others]
        for x in self._raw():
            if not any(x in o for o in os):
                r._d[x] = True
        return r

    def symmetric_difference(self, o):
        o = o if is_vs(o) else vset(o)
        return self.difference(o).union(o.difference(self))

    def intersection_update(self, *o):
        self._d = self.intersection(*o)._d

    def difference_update(self, *o):
        self._d = self.difference(*o)._d

    def symmetric_difference_update(self, o):
        self._d = self.symmetric_difference(o)._d

    def isdisjoint(self, o):
        return len(self.intersection(o)) == 0

    def issubset(self, o):
        o = o if is_vs(o) or is_vd(o) else vset(o)
        return all(x in o for x in self._raw())

    def issuperset(self, o):
        return all(x in self for x in _raw(o))

    def _isset(self, o):
        return is_vs(o) or type(o) in (set, frozenset, _Keys)

    def __or__(self, o):
        return self.union(o) if self._isset(o) else NotImplemented

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if self._isset(o) else NotImplemented

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if self._isset(o) else NotImplemented

    def __rsub__(self, o):
        return vset(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._isset(o) else NotImplemented

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __eq__(self, o):
        if not self._isset(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    __hash__ = None

    def __repr__(self):
        if not self._d:
            return "set()"
        return "{" + ", ".join(repr(k) for k in self) + "}"

    def __str__(self):
        return repr(self)

    def __class_getitem__(cls, item):
        return set[item]


def _raw(o):
    return o._raw() if is_vs(o) else list(o)


class vfrozenset(vset):
    _native = frozenset

    def __hash__(self):
        hs = [vhash(k) for k in self._raw()]
        if all(type(h) is int for h in hs):
            return hash(frozenset(hs))
        r = None
        for h in hs:
            r = h if r is None else SymHash(("fs", r, h))
        return 0 if len(hs) > 1 else r

    def __repr__(self):
        return "frozenset(" + ("{" + ", ".join(repr(k) for k in self) + "}" if self._d else "") + ")"


class vdefaultdict(vdict):
    def __init__(self, default_factory=None, *args, **kw):
        self.default_factory = default_factory
        vdict.__init__(self, *args, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    @property
    def __class__(self):
        import collections

        return collections.defaultdict


class vOrderedDict(vdict):
    @property
    def __class__(self):
        import collections

        return collections.OrderedDict

    def move_to_end(self, key, last=True):
        pos = self._find(key)
        if pos is None:
            raise KeyError(key)
        k, v = self._drop(pos)
        if last:
            self[k] = v
        else:
            rest = list(self.items())
            self.clear()
            self[k] = v
            for a, b in rest:
                self[a] = b


class vCounter(vdict):
    def __init__(self, it=None, **kw):
        vdict.__init__(self)
        if it is not None:
            self.update(it)
        if kw:
            self.update(kw)

    @property
    def __class__(self):
        import collections

        return collections.Counter

    def __missing__(self, key):
        return 0

    def update(self, it=None, **kw):
        if it is not None:
            if (is_vd(it) or isinstance(it, dict)):
                for k, v in it.items():
                    self[k] = self.get(k, 0) + v
            else:
                for k in it:
                    self[k] = self.get(k, 0) + 1
        for k, v in kw.items():
            self[k] = self.get(k, 0) + v

    def subtract(self, it=None):
        if (is_vd(it) or isinstance(it, dict)):
            for k, v in it.items():
                self[k] = self.get(k, 0) - v
        else:
            for k in it or ():
                self[k] = self.get(k, 0) - 1

    def elements(self):
        for k, v in self.items():
            for _ in range(int(v)):
                yield k

    def total(self):
        return sum(self.values())

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda t: t[1], reverse=True)
        return r if n is None else r[:n]

    def __delitem__(self, k):
        if k in self:
            vdict.__delitem__(self, k)

    def __add__(self, o):
        r = vCounter()
        for k, v in self.items():
            s = v + o[k]
            if s > 0:
                r[k] = s
        for k, v in o.items():
            if k not in self and v > 0:
                r[k] = v
        return r

    def __sub__(self, o):
        r = vCounter()
        for k, v in self.items():
            s = v - o[k]
            if s > 0:
                r[k] = s
        return r

    def __repr__(self):
        return "Counter(" + vdict.__repr__(self) + ")"
