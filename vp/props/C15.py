import re

from .. import ref, rx
from ..prog import SIGNED

BOUNDS = {
    "quick": "all ASCII texts of up to 4 characters; texts of up to 9 characters over the characters of dice, numbers, names and operators around fixed contexts (custom dice bodies, keep/drop tails, keywords); all token sequences of up to 4 tokens; error positions 0..120 in 1-3 lines",
    "thorough": "all ASCII texts of up to 6 characters, custom dice bodies of up to 8 free characters, all token sequences of up to 5 tokens, error positions 0..200",
}
ASSUMPTIONS = [
    "rply's Lexer loop (skip ignored, first rule that matches) is modelled; its regular expressions are taken from the rules the current source registers, with the backtracking semantics of re over ASCII",
    "that the text reaches rply unchanged is checked on a probe text of all ASCII characters",
]

# the documented notations, independent of the source: first that matches, in this order
NUM = "-?[0-9]+"
ENTRY = f"(?:{NUM}-{NUM}(?:[*][0-9]+)?|{NUM}(?:[*][0-9]+)?)"
SP = "[ \t-\r\x1c-\x1f]"
CUSTOM = f"\\[(?:{SP}*{ENTRY}{SP}*,{SP}*)*{SP}*{ENTRY}{SP}*,?{SP}*\\]"
DICE = f"[0-9]*d(?:[0-9]+|%|F|{CUSTOM})"
W = "[A-Za-z0-9_]"


def word(*ws):
    return f"(?<!{W})(?:" + "|".join(ws) + f")(?!{W})"


SPEC = [
    ("OPEN_PARENTHESIS", "[(]"),
    ("CLOSE_PARENTHESIS", "[)]"),
    ("COMMA", ","),
    ("NOT", "!(?!=)"),
    ("DROP_KEEP_DICE", DICE + "[kd][0-9]+"),
    ("DICE", DICE),
    ("BINARY_OPERATOR", "==|!=|<=|<|>=|>|" + word("AND", "OR")),
    ("CONSTANT_INTEGER", NUM),
    ("CONSTANT_BINARY", word("True", "False")),
    ("ADD", "[+]"),
    ("SUBTRACT", "-"),
    ("MULTIPLY", "[*]"),
    ("INTEGER_DIVISION", "//"),
    ("MINMAX", word("MAX", "MIN")),
    ("ABS", word("ABS")),
    ("ASSIGNMENT", "(?<!=)=(?!=)"),
    ("VAR", word("VAR")),
    ("NAME", f"(?<!{W})[a-z_]+(?!{W})"),
]
KINDS = [k for k, _ in SPEC]


def spec_lex(text):
    """[(kind, text)], index of the first character that can not be read or None"""
    out, i = [], 0
    while i < len(text):
        m = re.compile(SP + "+").match(text, i)
        if m:
            i = m.end()
            continue
        for k, p in SPEC:
            m = re.compile(p).match(text, i)
            if m:
                break
        else:
            return out, i
        out.append((k, m.group(0)))
        i = m.end()
    return out, None


def message(text, at):
    start = text.rfind("\n", 0, at) + 1
    end = text.find("\n", at)
    line = text[start : len(text) if end < 0 else end]
    col = at - start
    lo = max(0, col - 50)
    return line[lo : col + 50] + "\n" + "-" * (col - lo) + "^"


def real_lex(c, text):
    e, toks = c.raises(lambda: c.repo.PythonDiceLexer().lex(text))
    return e, None if e is not None else [(t.gettokentype(), t.getstr()) for t in toks]


def compare(c, text):
    want, at = spec_lex(text)
    e, got = real_lex(c, text)
    if at is None:
        c.check(e is None, f"{text!r} is accepted")
        c.check(got == want, f"tokens of {text!r} are {want}, not {got}")
    else:
        c.check(type(e).__name__ == "ValueError", f"{text!r} is rejected")
        c.check(str(e) == message(text, at), f"message for {text!r} is {message(text, at)!r}, not {e!s}")


def captured(c):
    """the rules the source gives to rply: [(kind, pattern, flags)], [(pattern, flags)]"""
    import rply.lexer
    import rply.lexergenerator as lg

    got = []
    r0, l0 = lg.Rule.__init__, rply.lexer.Lexer.__init__

    def rule(self, name, pattern, flags=0):
        self.vp_src = (name, pattern, flags)
        r0(self, name, pattern, flags)

    def lexer(self, rules, ignore_rules):
        got.append((list(rules), list(ignore_rules)))
        l0(self, rules, ignore_rules)

    lg.Rule.__init__ = rule
    rply.lexer.Lexer.__init__ = lexer
    try:
        lx = c.repo.PythonDiceLexer()
    finally:
        lg.Rule.__init__ = r0
        rply.lexer.Lexer.__init__ = l0
    assert len(got) == 1, "one rply lexer"
    # what it does with the text and the tokens
    seen = []
    run = rply.lexer.Lexer.lex
    probe = "".join(chr(i) for i in range(128)) + " Tt  \n\n"
    marks = [object(), object()]

    def lex(self, s):
        seen.append(s)
        return iter(marks)

    rply.lexer.Lexer.lex = lex
    try:
        out = lx.lex(probe)
    finally:
        rply.lexer.Lexer.lex = run
    c.check(seen == [probe], "the text is lexed as it is")
    c.check(len(out) == 2 and out[0] is marks[0] and out[1] is marks[1], "every token is passed on")
    return [r.vp_src for r in got[0][0]], [r.vp_src[1:] for r in got[0][1]]


def codes(c, text, chars, rules, ignore):
    """per position: the code (kind, end) of the token read there, -1 if none can be"""
    n = text.n
    out = [None] * n + [-2]
    for i in range(n - 1, -1, -1):
        entries = []
        for p, f in ignore:
            for cube, e in text.match(p, f, i):
                entries.append((cube, out[e] if e > i else -3))
        for k, p, f in rules:
            kind = KINDS.index(k) if k in KINDS else 99
            for cube, e in text.match(p, f, i):
                entries.append((cube, 1000 * kind + e))
        v = -1
        for cube, code in reversed(entries):
            v = c.ite(rx.formula(c, chars, text.dom, cube), code, v)
        out[i] = v
    return out


def parts(dom):
    """[(set, chars)]: a spec such as "abc", "*" for any ASCII character, or a literal"""
    out = []
    for d in dom:
        out.append(rx.FULL if d == "*" else rx.mask_of(lambda ch: ch in d))
    return out


def lex(c, dom):
    """dom: per position the characters possible there ("*" any ASCII)"""
    masks = parts(dom)
    chars = []
    for i, m in enumerate(masks):
        rs = rx.ranges(m)
        x = c.int(f"ch{i}", rs[0][0], rs[-1][1])
        c.assume(c.any([c.all([x >= a, x <= b]) for a, b in rs]))
        chars.append(x)
    if not c.symbolic:
        compare(c, "".join(chr(x) for x in chars))
        return
    rules, ignore = captured(c)
    t = rx.Text(masks)
    got = codes(c, t, chars, rules, ignore)
    want = codes(c, t, chars, [(k, p, 0) for k, p in SPEC], [(SP + "+", 0)])
    reach = [False] * (t.n + 1)
    reach[0] = True
    for i in range(t.n):
        c.check(c.any([c.not_(reach[i]), got[i] == want[i]]), f"token read at position {i}")
        for e in range(i + 1, t.n + 1):
            here = c.any([want[i] == 1000 * k + e for k in range(len(KINDS))])
            reach[e] = c.any([reach[e], c.all([reach[i], here])])


# ------------------------------------------------------------------ token sequences

TEXT = {
    "D": "d6", "K": "2d6k1", "N": "3", "T": "True", "v": "a", "+": "+", "-": "-", "*": "*", "/": "//", "<": "<",
    "!": "!", "(": "(", ")": ")", ",": ",", "A": "ABS", "M": "MAX", "V": "VAR", "=": "=", "&": "AND",
}


def accepts(s):
    """the documented grammar, as a set of spans"""
    n = len(s)
    memo = {}

    def ends(i):
        """positions where an expression starting at i can end"""
        if i in memo:
            return memo[i]
        memo[i] = frozenset()
        out = set()
        if i < n:
            ch = s[i]
            prim = set()
            if ch in "DKNTv":
                prim.add(i + 1)
            elif ch == "!":
                prim |= ends(i + 1)
            elif ch == "(":
                prim |= {e + 1 for e in ends(i + 1) if s[e : e + 1] == ")"}
            elif ch == "A" and s[i + 1 : i + 2] == "(":
                prim |= {e + 1 for e in ends(i + 2) if s[e : e + 1] == ")"}
            elif ch == "M" and s[i + 1 : i + 2] == "(":
                for e in ends(i + 2):
                    if s[e : e + 1] == ",":
                        prim |= {f + 1 for f in ends(e + 1) if s[f : f + 1] == ")"}
            elif ch == "V" and s[i + 1 : i + 2] == "v" and s[i + 2 : i + 3] == "=":
                prim |= ends(i + 3)
            out |= prim
            for e in prim:
                if s[e : e + 1] and s[e] in "+-*/<&":
                    out |= ends(e + 1)
        memo[i] = frozenset(out)
        return memo[i]

    return n in ends(0)


def grammar(c, head, alphabet, more):
    """token sequences: head, then `more` tokens out of alphabet"""
    s = head
    for i in range(more):
        _, k = c.pick(f"t{i}", 0, len(alphabet) - 1)
        s += alphabet[k]
    text = " ".join(TEXT[x] for x in s)
    p = c.repo.PythonDiceParser()
    e, _ = c.raises(lambda: p.parse(text))
    if accepts(s):
        c.check(e is None, f"{text!r} is parsed")
    else:
        c.check(type(e).__name__ == "ValueError", f"{text!r} is rejected with a ValueError")


def arrow(c, lines, hi, fill, tail):
    """the unreadable character after `at` readable ones, in the last of `lines` lines"""
    _, at = c.pick("at", 0, hi)
    head = "".join((fill * 70)[: 3 + 61 * i] + "\n" for i in range(lines - 1))
    body = (fill * (at + 2))[:at]
    text = head + body + "?" + tail
    want, pos = spec_lex(text)
    c.check(pos == len(head) + at, "the harness text is readable up to the unreadable character")
    for method in ("lexer", "interpreter"):
        if method == "lexer":
            e, _ = c.raises(lambda: c.repo.PythonDiceLexer().lex(text))
        else:
            e, _ = c.raises(lambda: c.repo.PythonDiceInterpreter().roll([text]))
        c.check(type(e).__name__ == "ValueError", "rejected with a ValueError")
        c.check(str(e) == message(text, pos), f"the arrow is under the unreadable character: {message(text, pos)!r}, not {e!s}")


HARNESSES = {"lex": lex, "grammar": grammar, "arrow": arrow}


def instances(tier, mined):
    th = tier == "thorough"
    out = []

    def add(h, **p):
        out.append({"h": h, "params": p})

    for n in range(1, 7 if th else 5):
        add("lex", dom=["*"] * n)
    dice = "019-*,] [k"
    for pre in ("d[", "2d[", "10d["):
        for n in range(1, 8 if th else 6):
            add("lex", dom=list(pre) + ["*"] * min(n, 2) + [dice] * (n - min(n, 2)))
    for body in ("1", "-1", "1-2", "-1--2", "1*2", "1,2", " 1 , 2 ", "1-3*2,4", "1,", "1 , ", "-5--3*2 , 7"):
        for suf in ([], ["*"], ["kd", "*"], ["*", "*"], ["kd", "09", "*"]):
            add("lex", dom=list("2d[") + list(body) + ["]"] + suf)
        # any one character changed, any one inserted
        for j in range(len(body)):
            add("lex", dom=list("d[") + list(body[:j]) + ["*"] + list(body[j + 1 :]) + ["]"])
            add("lex", dom=list("d[") + list(body[:j]) + ["*"] + list(body[j:]) + ["]"])
        add("lex", dom=list("d[") + list(body) + ["*", "*"])
    for kw in ("AND", "OR", "True", "False", "MAX", "MIN", "ABS", "VAR", "MA", "AB", "Tru", "VA"):
        add("lex", dom=list(kw))
        for l, r in ((["*"], []), ([], ["*"]), (["*"], ["*"]), ([], ["*", "*"]), (["*", "*"], [])):
            add("lex", dom=l + list(kw) + r)
        for j in range(len(kw)):
            add("lex", dom=list(kw[:j]) + ["*"] + list(kw[j + 1 :]))
    for t in ("d6", "12d34", "d%", "dF", "3dF", "1d%", "10d10k3", "4d6d1", "dFk2", "d%d10", "-12", "a_b", "==", "!=", "<=", ">=", "//", "= ="):
        for l, r in ((["*"], []), ([], ["*"]), (["*"], ["*"]), ([], ["*", "*"]), (["*", "*"], [])):
            add("lex", dom=l + list(t) + r)
        for j in range(len(t)):
            add("lex", dom=list(t[:j]) + ["*"] + list(t[j + 1 :]))
            add("lex", dom=list(t[:j]) + ["*", "*"] + list(t[j + 1 :]))
    names = "abdkz_AF09 "
    for n in (5, 6) if not th else (5, 6, 7, 8):
        add("lex", dom=[names] * n)
    for n in (5, 6) if not th else (5, 6, 7, 8):
        add("lex", dom=["d0%Fk[] -"] * n)
        add("lex", dom=["=!<>/ a1("] * n)
    full = "".join(TEXT)
    small = "Dv+*!(),AMV=<"
    for h in full:
        add("grammar", head=h, alphabet=full, more=0)
        add("grammar", head=h, alphabet=full, more=1)
        add("grammar", head=h, alphabet=full, more=2)
    for h in small:
        for g in small:
            add("grammar", head=h + g, alphabet=small, more=2)
    for h in ("Vv=", "M(D,", "M(D,D", "M(", "A(", "((", "(D", "D+(", "Vv=D+", "!(D", "A(D)", "M(D,D)"):
        add("grammar", head=h, alphabet=small, more=2)
    if th:
        for h in small:
            for g in small:
                add("grammar", head=h + g, alphabet=small, more=3)
    hi = 200 if th else 110
    for lines in (1, 2, 3):
        for fill in ("1 ", "d6 + ", " "):
            for tail in ("", "abc", "x" * 70, "\nd6\n"):
                if fill == " " and lines > 1 and tail:
                    continue
                add("arrow", lines=lines, hi=hi, fill=fill, tail=tail)
    return out
