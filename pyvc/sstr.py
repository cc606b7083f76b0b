"""Strings with arbitrary parts: characters, runs of white space, number tokens, and unknown text."""
import ast
from . import terms as T
from .values import *

WS = ("ws",)            # white space, at least one character
WS0 = ("ws0",)          # white space, possibly none
OTHER = ("other",)      # one character that is neither white space nor one of the characters in FIRST
FIRST = "P"
NOTTOK = ";P \t\r\n(),"  # characters that do not occur in number tokens


def rest(ends):
    return ("rest", ends)   # unknown text that ends (or not) with a semicolon


class Char(object):
    """one unknown character that is none of `nots`"""
    def __init__(self, nots):
        self.nots = nots

    def np_compare(self, I, op, a, b):
        o = b if a is self else a
        if isinstance(o, str) and op in (ast.Eq, ast.NotEq):
            if len(o) != 1 or o in self.nots:
                return op is ast.NotEq
        raise Unsupported("comparison of an unknown character")

    def np_getattr(self, I, name):
        if name == "isspace":
            return Builtin(name, lambda: False)
        raise Unsupported("unknown character.%s" % name)


def mk(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str):
            out += list(p)
        else:
            out.append(p)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    if len(out) == 1 and out[0][0] == "tok":
        return out[0][1]
    return SStr(tuple(out))


def isws(p):
    return p in (WS, WS0) or isinstance(p, str) and p.isspace()


class SStr(object):
    def __init__(self, pieces):
        self.p = pieces

    def __repr__(self):
        return "SStr%r" % (self.p,)

    def strip(self, chars, left, right):
        p = list(self.p)

        def drop(x):
            if chars is None:
                return isws(x)
            if isinstance(x, str):
                return x in chars
            if x[0] == "tok" and all(c in NOTTOK for c in chars):
                return False
            if x in (WS, WS0) and not any(c.isspace() for c in chars):
                if x == WS:
                    return False
            if x[0] in ("other",) and all(c.isspace() or c in FIRST for c in chars):
                return False
            raise Unsupported("strip of unknown text")

        def opaque(x):
            return not isinstance(x, str) and x[0] == "rest"
        while right and p and not opaque(p[-1]) and drop(p[-1]):
            p.pop()
        while left and p and not opaque(p[0]) and drop(p[0]):
            p.pop(0)
        return mk(p)

    def split(self, I, sep=None, n=-1):
        if sep is not None or n != -1:
            raise Unsupported("split with arguments")
        out, cur = [], []
        for x in self.p:
            if not isinstance(x, str) and x[0] in ("rest", "other"):
                raise Unsupported("split of unknown text")
            if x == WS0 and cur and x is not self.p[-1]:
                raise Unsupported("split at an optional space")
            if isws(x):
                if cur:
                    out.append(mk(cur))
                cur = []
            else:
                cur.append(x)
        if cur:
            out.append(mk(cur))
        return I.alloc(ListRec(tuple(("one", x) for x in out)), List)

    def one(self, k):
        x = self.p[k]
        if isinstance(x, str):
            return x
        if x[0] == "other":
            return Char(FIRST + " \t\r\n")
        if x[0] == "tok":
            return Char(NOTTOK)
        raise Unsupported("character of unknown text")

    def np_getitem(self, I, k):
        if isinstance(k, SliceV):
            lo, hi, st = I.py(k.lo), I.py(k.hi), I.py(k.step)
            if st not in (None, 1):
                raise Unsupported("string slice with a step")
            p = list(self.p)
            fixed = lambda x: isinstance(x, str) or x == OTHER
            if lo is not None and lo >= 0 and hi is not None and hi >= 0:
                if lo == 0 and all(fixed(x) for x in p[:hi]):
                    if hi == 1 and p and not isinstance(p[0], str):
                        return Char(FIRST + " \t\r\n")
                    return mk(p[:hi])
                raise Unsupported("string slice")
            if lo:
                if lo < 0 or not all(fixed(x) for x in p[:lo]):
                    raise Unsupported("string slice")
                p = p[lo:]
            if hi is not None:
                if hi >= 0 or not all(fixed(x) for x in p[hi:]):
                    raise Unsupported("string slice")
                p = p[:hi]
            return mk(p)
        k = I.py(k)
        if k in (0, -1):
            return self.one(k)
        raise Unsupported("character %r of unknown text" % (k,))

    def ends(self, s, right):
        if not isinstance(s, str):
            raise Unsupported("prefix test")
        p = list(self.p)
        for c in (reversed(s) if right else s):
            if not p:
                return False
            x = p.pop() if right else p.pop(0)
            if isinstance(x, str):
                if x != c:
                    return False
            elif x[0] == "tok" and c in NOTTOK:
                return False
            elif x[0] == "other" and (c in FIRST or c.isspace()):
                return False
            elif x[0] == "rest" and right and s == ";":
                return x[1]
            elif x == WS and not c.isspace():
                return False
            else:
                raise Unsupported("prefix test of unknown text")
        return True

    def np_cond(self, I):
        if any(x != WS0 and not (not isinstance(x, str) and x[0] == "rest") for x in self.p):
            return T.TRUE
        raise Unsupported("emptiness of unknown text")

    def np_compare(self, I, op, a, b):
        o = b if a is self else a
        if isinstance(o, str) and op in (ast.Eq, ast.NotEq):
            if o == "":
                r = self.np_cond(I) is not T.TRUE
                return r if op is ast.Eq else not r
            if len(o) == 1 and len(self.p) == 1:
                return self.one(0).np_compare(I, op, self.one(0), o) if not isinstance(self.one(0), str) else (self.one(0) == o) == (op is ast.Eq)
        raise Unsupported("comparison of unknown text")

    def np_contains(self, I, x):
        if isinstance(x, str) and len(x) == 1:
            if x in self.p:
                return True
            if all(isinstance(y, str) or y[0] == "tok" and x in NOTTOK or y in (WS, WS0) and not x.isspace() for y in self.p):
                return False
        raise Unsupported("substring test")

    def np_getattr(self, I, name):
        def starts(right):
            def f(s, *a):
                if a:
                    raise Unsupported("prefix test")
                return any(self.ends(x, right) for x in s) if isinstance(s, tuple) else self.ends(s, right)
            return f

        def replace(a, b, *c):
            if c or not (isinstance(a, str) and isinstance(b, str) and len(a) == 1):
                raise Unsupported("replace")
            for x in self.p:
                if not isinstance(x, str) and not (x[0] == "tok" and a in NOTTOK or x in (WS, WS0) and not a.isspace()):
                    raise Unsupported("replace in unknown text")
            return mk([b if x == a else x for x in self.p])
        m = {"rstrip": lambda c=None: self.strip(c, False, True), "lstrip": lambda c=None: self.strip(c, True, False),
             "strip": lambda c=None: self.strip(c, True, True), "split": lambda *a: self.split(I, *a),
             "startswith": starts(False), "endswith": starts(True), "replace": replace,
             "isspace": lambda: all(isws(x) for x in self.p)}
        if name not in m:
            raise Unsupported("str.%s of unknown text" % name)
        return Builtin(name, m[name])
