"""Bounded encoding of Python regular expressions over symbolic characters.

A match attempt at a position of a text of fixed length n (each character one of the 128
ASCII characters) is an ordered list of (cube, end): a cube is one bit mask of possible
characters per position, and the first cube of the list that contains the text decides the
end of the match, as backtracking would."""
import re

try:
    import re._parser as sp
    import re._constants as sc
except ImportError:  # before 3.11
    import sre_parse as sp
    import sre_constants as sc

FULL = (1 << 128) - 1


class Unencodable(Exception):
    pass


def mask_of(pred):
    m = 0
    for i in range(128):
        if pred(chr(i)):
            m |= 1 << i
    return m


WORD = mask_of(lambda ch: ch.isalnum() or ch == "_")
DIGIT = mask_of(str.isdigit)
SPACE = mask_of(lambda ch: re.match(r"\s", ch) is not None)
NL = 1 << 10
CATS = {
    "CATEGORY_DIGIT": DIGIT,
    "CATEGORY_NOT_DIGIT": FULL & ~DIGIT,
    "CATEGORY_SPACE": SPACE,
    "CATEGORY_NOT_SPACE": FULL & ~SPACE,
    "CATEGORY_WORD": WORD,
    "CATEGORY_NOT_WORD": FULL & ~WORD,
}


def fold(m, flags):
    if flags & re.IGNORECASE:
        for i in range(128):
            if m >> i & 1:
                m |= 1 << ord(chr(i).swapcase())
    return m


def class_mask(items, flags):
    m, neg = 0, False
    for op, av in items:
        n = str(op)
        if n == "NEGATE":
            neg = True
        elif n == "LITERAL":
            if av < 128:
                m |= 1 << av
        elif n == "RANGE":
            for i in range(av[0], min(av[1], 127) + 1):
                m |= 1 << i
        elif n == "CATEGORY":
            m |= CATS[str(av)]
        else:
            raise Unencodable(n)
    m = fold(m, flags)
    return FULL & ~m if neg else m


class Text:
    """domain: list of masks, one per position"""

    def __init__(self, domain):
        self.dom = tuple(domain)
        self.n = len(domain)
        self.memo = {}

    def cut(self, cube, i, mask):
        """cube restricted at position i, or None"""
        m = cube[i] & mask
        if not m:
            return None
        if m == cube[i]:
            return cube
        return cube[:i] + (m,) + cube[i + 1 :]

    @staticmethod
    def meet(a, b):
        out = []
        for x, y in zip(a, b):
            m = x & y
            if not m:
                return None
            out.append(m)
        return tuple(out)

    @staticmethod
    def inside(a, b):
        return all(not (x & ~y) for x, y in zip(a, b))

    def tidy(self, L):
        """drop entries an earlier one with the same or another end covers"""
        out = []
        for cube, e in L:
            if not any(self.inside(cube, c2) for c2, _ in out):
                out.append((cube, e))
        return out

    def minus(self, cubes):
        """the complement of a union of cubes, as disjoint cubes"""
        rest = [self.dom]
        for c in cubes:
            new = []
            for r in rest:
                m = self.meet(r, c)
                if m is None:
                    new.append(r)
                    continue
                cur = r
                for i in range(self.n):
                    out = cur[i] & ~c[i]
                    if out:
                        new.append(cur[:i] + (out,) + cur[i + 1 :])
                    cur = cur[:i] + (cur[i] & c[i],) + cur[i + 1 :]
            rest = new
        return rest

    # each returns the ordered list of (cube, end) of matching at i, before tidying:
    # entries are alternatives in priority order, all of which a continuation may need

    def seq(self, nodes, i, flags):
        key = (id(nodes), i)
        cur = [(self.dom, i)]
        for op, av in nodes:
            nxt = []
            for cube, e in cur:
                for c2, e2 in self.node(op, av, e, flags):
                    m = self.meet(cube, c2)
                    if m is not None:
                        nxt.append((m, e2))
            cur = self.dedupe(nxt)
            if not cur:
                break
        return cur

    def dedupe(self, L):
        """an entry with the same end and a cube inside an earlier one adds nothing"""
        out = []
        by = {}
        for cube, e in L:
            prev = by.setdefault(e, [])
            if any(self.inside(cube, p) for p in prev):
                continue
            prev.append(cube)
            out.append((cube, e))
        return out

    def one(self, i, mask):
        if i >= self.n:
            return []
        c = self.cut(self.dom, i, mask)
        return [(c, i + 1)] if c is not None else []

    def node(self, op, av, i, flags):
        n = str(op)
        if n == "LITERAL":
            return self.one(i, fold(1 << av, flags)) if av < 128 else []
        if n == "NOT_LITERAL":
            return self.one(i, FULL & ~fold(1 << av, flags)) if av < 128 else self.one(i, FULL)
        if n == "IN":
            return self.one(i, class_mask(av, flags))
        if n == "ANY":
            return self.one(i, FULL if flags & re.DOTALL else FULL & ~NL)
        if n == "CATEGORY":
            return self.one(i, CATS[str(av)])
        if n == "BRANCH":
            out = []
            for alt in av[1]:
                out += self.seq(list(alt), i, flags)
            return self.dedupe(out)
        if n == "SUBPATTERN":
            group, add, rem, p = av
            return self.seq(list(p), i, (flags | add) & ~rem)
        if n == "ATOMIC_GROUP":
            return self.tidy(self.seq(list(av), i, flags))
        if n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, p = av
            p = list(p)
            hi = self.n + 1 if hi == sc.MAXREPEAT else int(hi)
            r = self.repeat(p, i, int(lo), hi, n != "MIN_REPEAT", flags)
            return self.tidy(r) if n == "POSSESSIVE_REPEAT" else r
        if n == "AT":
            return [(c, i) for c in self.at(str(av), i, flags)]
        if n in ("ASSERT", "ASSERT_NOT"):
            direction, p = av
            p = list(p)
            if direction > 0:
                cubes = [c for c, _ in self.seq(p, i, flags)]
            else:
                w = p_width(p)
                cubes = [c for c, e in self.seq(p, i - w, flags) if e == i] if i - w >= 0 else []
            if n == "ASSERT_NOT":
                cubes = self.minus(cubes)
            return [(c, i) for c in cubes]
        raise Unencodable(n)

    def repeat(self, p, i, lo, hi, greedy, flags):
        key = (repr(p), i, lo, hi, greedy, flags)
        if key in self.memo:
            return self.memo[key]
        more = []
        if hi > 0:
            for cube, e in self.seq(p, i, flags):
                if e == i and lo <= 0:
                    continue
                for c2, e2 in self.repeat(p, e, max(0, lo - 1), hi - 1, greedy, flags):
                    m = self.meet(cube, c2)
                    if m is not None:
                        more.append((m, e2))
        stop = [(self.dom, i)] if lo <= 0 else []
        out = self.dedupe(more + stop if greedy else stop + more)
        self.memo[key] = out
        return out

    def at(self, what, i, flags):
        if what in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            if i == 0:
                return [self.dom]
            if what == "AT_BEGINNING" and flags & re.MULTILINE:
                c = self.cut(self.dom, i - 1, NL)
                return [c] if c is not None else []
            return []
        if what in ("AT_END", "AT_END_STRING"):
            if i == self.n:
                return [self.dom]
            if what == "AT_END" and (flags & re.MULTILINE or i == self.n - 1):
                c = self.cut(self.dom, i, NL)
                return [c] if c is not None else []
            return []
        if what in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            sides = []
            for w in (True, False):
                left = self.side(i - 1, w)
                right = self.side(i, (not w) if what == "AT_BOUNDARY" else w)
                if left is not None and right is not None:
                    m = self.meet(left, right)
                    if m is not None:
                        sides.append(m)
            return sides
        raise Unencodable(what)

    def side(self, j, word):
        if j < 0 or j >= self.n:
            return None if word else self.dom
        return self.cut(self.dom, j, WORD if word else FULL & ~WORD)

    def match(self, pattern, flags, i):
        """ordered [(cube, end)]: the first cube containing the text decides"""
        flags &= ~re.UNICODE
        if flags & ~(re.IGNORECASE | re.DOTALL | re.MULTILINE | re.ASCII | re.VERBOSE):
            raise Unencodable(f"flags {flags}")
        p = sp.parse(pattern, flags)
        fl = (p.state.flags if hasattr(p, "state") else p.pattern.flags) | flags
        return self.tidy(self.seq(list(p), i, fl))


def p_width(p):
    w = sp.SubPattern(sp.State() if hasattr(sp, "State") else sp.Pattern(), list(p)).getwidth()
    if w[0] != w[1]:
        raise Unencodable("look-behind of variable width")
    return int(w[0])


def ranges(mask):
    out, i = [], 0
    while i < 128:
        if mask >> i & 1:
            j = i
            while j < 127 and mask >> (j + 1) & 1:
                j += 1
            out.append((i, j))
            i = j + 1
        else:
            i += 1
    return out


def formula(c, chars, dom, cube):
    conds = []
    for x, m, d in zip(chars, cube, dom):
        if m != d:
            conds.append(c.any([x == a if a == b else c.all([x >= a, x <= b]) for a, b in ranges(m)]))
    return c.all(conds)
