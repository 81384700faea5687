"""Integers and names that the code under test compares with or mentions: bounds of the
harnesses are extended around them, so that a threshold in the code is crossed."""
import ast
import os
import re


_OPS = {
    ast.Add: lambda a, b: a + b,
    ast.Sub: lambda a, b: a - b,
    ast.Mult: lambda a, b: a * b,
    ast.FloorDiv: lambda a, b: a // b,
    ast.LShift: lambda a, b: a << b if 0 <= b < 64 else None,
    ast.Pow: lambda a, b: a**b if 0 <= b < 64 and abs(a) < 2**20 else None,
}


def fold(n):
    """value of a constant integer expression, or None"""
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
        return int(n.value) if n.value == n.value and abs(n.value) < 1e18 and int(n.value) == n.value else None
    if isinstance(n, ast.BinOp) and type(n.op) in _OPS:
        a, b = fold(n.left), fold(n.right)
        try:
            return None if a is None or b is None else _OPS[type(n.op)](a, b)
        except ZeroDivisionError:
            return None
    return None


def mine(repo):
    ints, strs = {}, {}
    root = os.path.join(repo, "python_dice", "src")
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            try:
                tree = ast.parse(open(p, encoding="utf-8").read())
            except SyntaxError:
                continue
            rel = os.path.relpath(p, repo)
            for n in ast.walk(tree):
                v = fold(n)
                if v is not None:
                    ints.setdefault(abs(v), set()).add(rel)
                elif isinstance(n, ast.Constant):
                    if type(n.value) is str:
                        for m in re.findall(r"\{(\d*),?(\d*)\}", n.value):
                            for x in m:
                                if x:
                                    ints.setdefault(int(x), set()).add(rel)
                    if type(n.value) is str:
                        strs.setdefault(n.value, set()).add(rel)
    return {
        "ints": sorted(ints),
        "int_files": {k: sorted(v) for k, v in ints.items()},
        "digits": sorted(s for s in strs if s.isdigit() and s.isascii()),
        "names": sorted(s for s in strs if s.isascii() and s and all(ch.islower() or ch == "_" for ch in s)),
    }
