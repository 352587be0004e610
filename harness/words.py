"""Words and numbers that occur in the code under test, for the drivers to use as inputs.

Code that treats some inputs differently names them, or a number that tells them apart.
Which words are found changes what is tried, never what is right.
"""
import ast
import functools
import glob
import operator
import os
import sys


MOST = 1 << 23


def worth(node):
    """The number a constant expression such as 1 << 20 stands for."""
    if isinstance(node, ast.Constant) and type(node.value) is int:
        return node.value
    if isinstance(node, ast.BinOp):
        a, b = worth(node.left), worth(node.right)
        f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.LShift: operator.lshift,
             ast.Pow: operator.pow}.get(type(node.op))
        if f and a is not None and b is not None and 0 <= a <= MOST and 0 <= b <= (30 if f in (operator.lshift, operator.pow) else MOST):
            return f(a, b)
    return None


def source():
    for p in sys.path:
        if os.path.isfile(p + "/pymt/__init__.py"):
            return p + "/pymt"
    return None


@functools.lru_cache(None)
def found():
    """(words compared with something, all words, numbers compared, all numbers)"""
    words, numbers = (set(), set()), (set(), set())

    def take(node, told):
        for c in ast.walk(node):
            if isinstance(c, ast.Constant):
                v = c.value
                if isinstance(v, str) and len(v) <= 40:
                    words[1].add(v)
                    words[1 - told].add(v)
                elif isinstance(v, bytes) and len(v) <= 64:
                    v = v.decode("latin-1")
                    words[1].add(v)
                    words[1 - told].add(v)
                elif isinstance(v, int) and not isinstance(v, bool) and 2 <= v <= MOST:
                    numbers[1].add(v)
                    numbers[1 - told].add(v)
            elif isinstance(c, ast.BinOp):
                v = worth(c)
                if v is not None and 2 <= v <= MOST:
                    numbers[0].add(v)
                    numbers[1].add(v)

    for path in sorted(glob.glob((source() or "") + "/**/*.py", recursive=True)):
        if "/tests/" in path or "/examples/" in path:
            continue
        with open(path, encoding="utf-8", errors="replace") as f:
            try:
                tree = ast.parse(f.read())
            except SyntaxError:
                continue
        take(tree, False)
        for n in ast.walk(tree):
            if isinstance(n, (ast.Compare, ast.Slice, ast.Subscript, ast.Dict, ast.Set, ast.BinOp, ast.AugAssign)):
                take(n, True)
            elif isinstance(n, ast.Assign) and isinstance(n.value, (ast.Constant, ast.Tuple, ast.List, ast.Set)):
                take(n.value, True)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                for x in n.args:
                    if isinstance(x, (ast.Constant, ast.Tuple)):
                        take(x, True)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("range", "min", "max"):
                for x in n.args:
                    take(x, True)
            if isinstance(n, ast.keyword) and isinstance(n.value, ast.Constant):
                take(n.value, True)
            elif isinstance(n, ast.arguments):
                for x in n.defaults + n.kw_defaults:
                    if isinstance(x, ast.Constant):
                        take(x, True)
    return tuple(sorted(x) for x in words + numbers)


def word(rnd):
    told, all_, _, _ = found()
    some = told if told and rnd.random() < 0.7 else all_
    return rnd.choice(some) if some else "word"


def asbytes(rnd):
    w = word(rnd)
    return w.encode("latin-1" if all(ord(c) < 256 for c in w) else "utf-8", "replace")


def number(rnd, most=20000):
    _, _, told, all_ = found()
    some = [x for x in (told if rnd.random() < 0.7 else all_) if x <= most] or [32]
    return max(0, rnd.choice(some) + rnd.choice([-1, 0, 0, 0, 1]))


def few(rnd, some, n):
    """n of them, or all in any order."""
    return rnd.sample(some, min(n, len(some)))
