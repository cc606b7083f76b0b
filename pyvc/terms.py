"""Hash-consed symbolic terms.

Sorts: 'I' (mathematical integer), 'R' (mathematical real), 'B' (boolean),
'S' (opaque: strings, objects).  Arithmetic is exact (Fractions); sums collect
like terms and products collect like factors, but products of sums are never
expanded here (see nf.py)."""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count()


class Term(object):
    __slots__ = ("op", "args", "sort", "id", "_fv", "_h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic term used as a concrete boolean: %r" % (self,))

    # convenience operators (specs are written with these)
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return add(self, neg(o))
    def __rsub__(self, o): return add(o, neg(self))
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return neg(self)
    def __pow__(self, n): return power(self, n)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, args, sort):
    k = (op, args, sort)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        t._fv = None
        _table[k] = t
    return t


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")


def num(v, sort=None):
    if isinstance(v, bool):
        v = int(v)
    if sort is None:
        sort = "I" if isinstance(v, int) else "R"
    if isinstance(v, float):
        v = Fraction(repr(v))
    v = Fraction(v)
    return mk("num", (v,), sort)


def var(name, sort="R"):
    return mk("var", (name,), sort)


_fresh = itertools.count(1)


def fresh(name, sort="R"):
    return var("%s!%d" % (name, next(_fresh)), sort)


def fn(name, args, sort="R"):
    return mk("fn", (name,) + tuple(lift(a) for a in args), sort)


PI = mk("pi", (), "R")
INF = mk("inf", (), "R")
NINF = mk("ninf", (), "R")


def lift(v):
    if isinstance(v, Term):
        return v
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return num(v, "I")
    if isinstance(v, (Fraction, float)):
        return num(v, "R")
    if isinstance(v, str):
        return mk("str", (v,), "S")
    if v is None:
        return mk("none", (), "S")
    raise TypeError("cannot lift %r" % (v,))


def isnum(t):
    return t.op == "num"


def numval(t):
    return t.args[0]


def _sortjoin(a, b):
    if a == "B":
        a = "I"
    if b == "B":
        b = "I"
    return "I" if a == b == "I" else "R"


def _b2i(t):
    """booleans used as numbers"""
    if t.sort == "B":
        if t is TRUE:
            return num(1)
        if t is FALSE:
            return num(0)
        return mk("ite", (t, num(1), num(0)), "I")
    return t


def add(*xs):
    """n-ary sum.  args of an 'add' node: ((coef, term), ...) sorted by id, then const."""
    acc = {}
    const = Fraction(0)
    sort = "I"
    for x in xs:
        x = _b2i(lift(x))
        sort = _sortjoin(sort, x.sort)
        if x.op == "num":
            const += x.args[0]
        elif x.op == "add":
            const += x.args[1]
            for c, t in x.args[0]:
                acc[t] = acc.get(t, 0) + c
        else:
            c, t = _split_coef(x)
            acc[t] = acc.get(t, 0) + c
    return _mkadd(acc, const, sort)


def _mkadd(acc, const, sort):
    items = [(c, t) for t, c in acc.items() if c != 0]
    if not items:
        return num(const, sort)
    if len(items) == 1 and const == 0:
        c, t = items[0]
        return _scale(c, t, sort)
    items.sort(key=lambda ct: ct[1].id)
    return mk("add", (tuple(items), const), sort)


def _split_coef(x):
    if x.op == "mul" and x.args[0] != 1:
        c = x.args[0]
        return c, _mkmul(Fraction(1), dict(x.args[1]), x.sort)
    return Fraction(1), x


def _scale(c, t, sort):
    if c == 1:
        if t.sort == sort or not isinstance(t, Term):
            return t
        return t
    if t.op == "num":
        return num(c * t.args[0], sort)
    if t.op == "mul":
        return _mkmul(c * t.args[0], dict(t.args[1]), sort)
    if t.op == "add":
        return mk("add", (tuple((c * a, b) for a, b in t.args[0]), c * t.args[1]), sort)
    return _mkmul(c, {t: 1}, sort)


def _mkmul(c, fac, sort):
    if c == 0:
        return num(0, sort)
    items = [(t, e) for t, e in fac.items() if e != 0]
    if not items:
        return num(c, sort)
    if len(items) == 1 and c == 1 and items[0][1] == 1:
        return items[0][0]
    if len(items) == 1 and items[0][1] == 1 and items[0][0].op == "add":
        t = items[0][0]
        return mk("add", (tuple((c * a, b) for a, b in t.args[0]), c * t.args[1]), sort)
    items.sort(key=lambda te: te[0].id)
    return mk("mul", (c, tuple(items)), sort)


def mul(*xs):
    c = Fraction(1)
    fac = {}
    sort = "I"
    for x in xs:
        x = _b2i(lift(x))
        sort = _sortjoin(sort, x.sort)
        if x.op == "num":
            c *= x.args[0]
        elif x.op == "mul":
            c *= x.args[0]
            for t, e in x.args[1]:
                fac[t] = fac.get(t, 0) + e
        elif x.op == "add" and len(x.args[0]) > 0:
            k, p = _primitive(x)
            c *= k
            fac[p] = fac.get(p, 0) + 1
        else:
            fac[x] = fac.get(x, 0) + 1
    return _mkmul(c, fac, sort)


def _primitive(x):
    """x = k * p with p's leading coefficient 1 (so (2x+2y) and (x+y) share a factor)."""
    k = x.args[0][0][0]
    if k == 1:
        return Fraction(1), x
    if x.sort == "I" and any((a / k).denominator != 1 for a, _ in x.args[0]) or (x.args[1] / k).denominator != 1 and x.sort == "I":
        return Fraction(1), x
    p = mk("add", (tuple((a / k, b) for a, b in x.args[0]), x.args[1] / k), x.sort)
    return k, p


def neg(x):
    x = _b2i(lift(x))
    return _scale(Fraction(-1), x, x.sort) if x.op != "num" else num(-x.args[0], x.sort)


def sub(a, b):
    return add(a, neg(b))


def toreal(x):
    x = lift(x)
    if x.op == "num":
        return num(x.args[0], "R")
    return x


def div(a, b):
    """real division; b is assumed non-zero (recorded by the interpreter)."""
    return toreal(mul(toreal(a), power(b, -1)))


def power(b, n):
    b = _b2i(lift(b))
    if isinstance(n, Term):
        if n.op == "num":
            n = n.args[0]
        else:
            return mk("pows", (b, n), "R")
    n = Fraction(n)
    if n.denominator == 2:
        k = n.numerator
        s = sqrt(b)
        return power(s, k)
    if n.denominator != 1:
        return mk("pows", (b, num(n, "R")), "R")
    n = int(n)
    if n == 0:
        return num(1, b.sort)
    if n == 1:
        return b
    sort = b.sort if n > 0 else "R"
    if b.op == "num":
        if b.args[0] == 0 and n < 0:
            raise ZeroDivisionError("symbolic division by constant zero")
        return num(b.args[0] ** n, sort)
    if b.op == "mul":
        return _mkmul(b.args[0] ** n, {t: e * n for t, e in b.args[1]}, sort)
    if b.op == "add":
        k, p = _primitive(b)
        return _mkmul(k ** n, {p: n}, sort)
    if b.op == "ite" and n < 0:
        return ite(b.args[0], power(b.args[1], n), power(b.args[2], n))
    return _mkmul(Fraction(1), {b: n}, sort)


def _isqrt_frac(v):
    """v = s^2 * r with s rational, r a squarefree integer (v>=0)"""
    n = v.numerator * v.denominator
    s = Fraction(1, v.denominator)
    r = 1
    p = 2
    while p * p <= n and p < 100000:
        while n % (p * p) == 0:
            n //= p * p
            s *= p
        if n % p == 0:
            n //= p
            r *= p
        p += 1
    return s, r * n


def sqrt(x):
    x = toreal(_b2i(lift(x)))
    if x.op == "num" and x.args[0] >= 0:
        if x.args[0] == 0:
            return num(0, "R")
        s, r = _isqrt_frac(x.args[0])
        if r == 1:
            return num(s, "R")
        return mul(num(s, "R"), mk("sqrt", (num(r, "R"),), "R"))
    if x.op == "mul":
        c, facs = x.args
        out = num(1, "R")
        rest = {}
        if c > 0 and (c != 1):
            out = sqrt(num(c, "R"))
            c = Fraction(1)
        for t, e in facs:
            if t.op == "pi" or t.op == "sqrt":
                if e % 2 == 0:
                    out = mul(out, power(t, e // 2))
                elif t.op == "pi":
                    out = mul(out, power(mk("sqrt", (t,), "R"), e))
                else:
                    rest[t] = e
            elif e % 2 == 0 and t.op == "abs":
                out = mul(out, power(t, e // 2))
            else:
                rest[t] = e
        inner = _mkmul(c, rest, "R")
        if inner.op == "num" and inner.args[0] == 1:
            return out
        if inner.op == "mul" and len(inner.args[1]) == 1 and inner.args[0] == 1:
            t, e = inner.args[1][0]
            if e % 2 == 0:
                return mul(out, power(absv(t), e // 2))
        return mul(out, mk("sqrt", (inner,), "R"))
    return mk("sqrt", (x,), "R")


def absv(x):
    x = _b2i(lift(x))
    if x.op == "num":
        return num(abs(x.args[0]), x.sort)
    if x.op in ("sqrt", "pi", "abs"):
        return x
    if x.op == "mul":
        c, facs = x.args
        out = num(abs(c), x.sort)
        for t, e in facs:
            out = mul(out, power(absv(t), e))
        return out
    if x.op == "add" and x.args[0][0][0] < 0:
        return mk("abs", (neg(x),), x.sort)
    return mk("abs", (x,), x.sort)


def unary(op, x):
    x = toreal(_b2i(lift(x)))
    if x.op == "num" and x.args[0] == 0:
        if op in ("sin", "atan", "sinh", "asin", "tan"):
            return num(0, "R")
        if op in ("cos", "exp", "cosh"):
            return num(1, "R")
    if op in ("sin", "cos"):
        s, y = _neg_canon(x)
        # multiples of pi/2
        q = _pi_multiple(y)
        if q is not None and (2 * q).denominator == 1:
            k = int(2 * q) % 4
            v = {"sin": [0, 1, 0, -1], "cos": [1, 0, -1, 0]}[op][k]
            return num(v * (s if op == "sin" else 1), "R")
        t = mk(op, (y,), "R")
        return t if (s == 1 or op == "cos") else neg(t)
    if op in ("atan", "asin", "sinh", "tan"):
        s, y = _neg_canon(x)
        t = mk(op, (y,), "R")
        return t if s == 1 else neg(t)
    return mk(op, (x,), "R")


def _pi_multiple(y):
    if y.op == "num":
        return Fraction(0) if y.args[0] == 0 else None
    if y.op == "pi":
        return Fraction(1)
    if y.op == "mul" and len(y.args[1]) == 1 and y.args[1][0][0] is PI and y.args[1][0][1] == 1:
        return y.args[0]
    return None


def _neg_canon(x):
    if x.op == "num" and x.args[0] < 0:
        return -1, neg(x)
    if x.op == "mul" and x.args[0] < 0:
        return -1, neg(x)
    if x.op == "add" and x.args[0][0][0] < 0:
        return -1, neg(x)
    return 1, x


def atan2(a, b):
    return mk("atan2", (toreal(lift(a)), toreal(lift(b))), "R")


# --- booleans ---------------------------------------------------------------
def lt(a, b):
    a, b = _b2i(lift(a)), _b2i(lift(b))
    if a is NINF:
        return FALSE if b is NINF else TRUE
    if b is INF:
        return FALSE if a is INF else TRUE
    if a is INF or b is NINF:
        return FALSE
    if inf_ite(a):
        return or_(and_(a.args[0], lt(a.args[1], b)), and_(not_(a.args[0]), lt(a.args[2], b)))
    if inf_ite(b):
        return or_(and_(b.args[0], lt(a, b.args[1])), and_(not_(b.args[0]), lt(a, b.args[2])))
    d = sub(a, b)
    if d.op == "num":
        return TRUE if d.args[0] < 0 else FALSE
    return mk("lt", (d,), "B")          # d < 0


def inf_ite(a):
    return a.op == "ite" and any(x is INF or x is NINF or inf_ite(x) for x in a.args[1:])


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == "S" or b.sort == "S":
        if a.op in ("str", "none") and b.op in ("str", "none"):
            return TRUE if a is b else FALSE
        if a.sort != b.sort:
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return mk("eqs", (a, b), "B")
    if a.sort == "B" and b.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a in (INF, NINF) or b in (INF, NINF):
        return FALSE
    d = sub(_b2i(a), _b2i(b))
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    if d.op == "mul":
        d = _mkmul(Fraction(1), dict(d.args[1]), d.sort)
    elif d.op == "add":
        k, p = _primitive(d)
        if k < 0 and p is d:
            p = neg(d)
        d = p
    return mk("eq", (d,), "B")           # d == 0


def not_(a):
    a = lift(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        x = lift(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    s = set(out)
    for x in s:
        if not_(x) in s:
            return FALSE
    out = sorted(s, key=lambda t: t.id)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def ite(c, a, b):
    c = lift(c)
    a, b = lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B" and b.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    sort = a.sort if a.sort == b.sort else ("S" if "S" in (a.sort, b.sort) else _sortjoin(a.sort, b.sort))
    # nested ites on the same condition
    a = _assume(a, c, True)
    b = _assume(b, c, False)
    if a is b:
        return a
    return mk("ite", (c, a, b), sort)


def _assume(t, c, val, depth=3):
    if depth and t.op == "ite":
        if t.args[0] is c:
            return t.args[1] if val else t.args[2]
    return t


def summ(k, lo, hi, body):
    """sum of body for lo <= k < hi (k a bound integer var)"""
    lo, hi, body = lift(lo), lift(hi), _b2i(lift(body))
    if isnum(lo) and isnum(hi):
        n = numval(hi) - numval(lo)
        if n <= 0:
            return num(0, body.sort)
        if n <= 6:
            return add(*[subst(body, {k: num(int(numval(lo)) + i)}) for i in range(int(n))])
    if body.op == "num" and body.args[0] == 0:
        return num(0, body.sort)
    return mk("sum", (k, lo, hi, body), body.sort)


def forall(k, lo, hi, body):
    lo, hi, body = lift(lo), lift(hi), lift(body)
    if body is TRUE or body is FALSE and False:
        return TRUE
    if isnum(lo) and isnum(hi):
        n = int(numval(hi) - numval(lo))
        if n <= 6:
            return and_(*[subst(body, {k: num(int(numval(lo)) + i)}) for i in range(max(n, 0))])
    return mk("forall", (k, lo, hi, body), "B")


def floordiv(a, b):
    a, b = lift(a), lift(b)
    if isnum(a) and isnum(b):
        return num(numval(a) // numval(b), _sortjoin(a.sort, b.sort))
    if isnum(b) and numval(b) == 1 and a.sort == "I":
        return a
    if isnum(b) and a.sort == "I" and b.sort == "I":
        # (k*b*x + c)//b
        m = numval(b)
        items, const = _linear(a)
        if items and m.denominator == 1 and all((c / m).denominator == 1 for c, _ in items):
            q = const // m
            return add(*([mul(num(int(c / m)), t) for c, t in items] + [num(int(q))]))
    return mk("floordiv", (a, b), _sortjoin(a.sort, b.sort))


def _linear(a):
    if a.op == "num":
        return (), a.args[0]
    if a.op == "add":
        return a.args
    c, t = _split_coef(a)
    return ((c, t),), Fraction(0)


def mod(a, b):
    a, b = lift(a), lift(b)
    if isnum(a) and isnum(b):
        return num(numval(a) % numval(b), _sortjoin(a.sort, b.sort))
    if isnum(b) and a.sort == "I" and b.sort == "I":
        return sub(a, mul(b, floordiv(a, b)))
    return mk("mod", (a, b), _sortjoin(a.sort, b.sort))


# --- traversal ---------------------------------------------------------------
def children(t):
    op = t.op
    if op == "add":
        return [x for _, x in t.args[0]]
    if op == "mul":
        return [x for x, _ in t.args[1]]
    if op in ("num", "var", "pi", "inf", "ninf", "true", "false", "str", "none"):
        return []
    if op == "fn":
        return list(t.args[1:])
    return list(t.args)


def rebuild(t, ch):
    op = t.op
    if op == "add":
        return add(*([mul(num(c, "I" if c.denominator == 1 else "R"), x) for (c, _), x in zip(t.args[0], ch)] + [num(t.args[1], t.sort)]))
    if op == "mul":
        return mul(*([num(t.args[0], "I" if t.args[0].denominator == 1 else "R")] + [power(x, e) for (_, e), x in zip(t.args[1], ch)]))
    if op == "fn":
        return fn(t.args[0], ch, t.sort)
    if op == "ite":
        return ite(*ch)
    if op == "sqrt":
        return sqrt(ch[0])
    if op == "abs":
        return absv(ch[0])
    if op in ("sin", "cos", "exp", "atan", "asin", "acos", "sinh", "cosh", "tan", "log", "asinh", "acosh"):
        return unary(op, ch[0])
    if op == "atan2":
        return atan2(*ch)
    if op == "pows":
        return power(ch[0], ch[1])
    if op == "lt":
        return lt(ch[0], num(0))
    if op == "eq":
        return eq(ch[0], num(0))
    if op == "eqs":
        return eq(ch[0], ch[1])
    if op == "not":
        return not_(ch[0])
    if op == "and":
        return and_(*ch)
    if op == "sum":
        return summ(*ch)
    if op == "forall":
        return forall(*ch)
    if op == "floordiv":
        return floordiv(*ch)
    if op == "mod":
        return mod(*ch)
    if not ch:
        return t
    return mk(op, tuple(ch), t.sort)


def fv(t):
    """free variables and applied function names"""
    if t._fv is not None:
        return t._fv
    # iterative post-order
    stack = [t]
    while stack:
        x = stack[-1]
        if x._fv is not None:
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c._fv is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op == "var":
            s = frozenset((x,))
        else:
            s = frozenset().union(*[c._fv for c in ch]) if ch else frozenset()
            if x.op in ("sum", "forall"):
                s = s - {x.args[0]}
            if x.op == "fn":
                s = s | {x.args[0]}
        x._fv = s
        stack.pop()
    return t._fv


def subst(t, m):
    """capture-free substitution of terms (usually vars) by terms."""
    m = {k: lift(v) for k, v in m.items()}
    memo = dict(m)
    keyfv = set()
    allvars = all(k.op == "var" for k in m)
    keys = set(m)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if allvars and not (fv(x) & keys):
            memo[x] = x
            return x
        ch = children(x)
        if not ch:
            memo[x] = x
            return x
        if x.op in ("sum", "forall"):
            k = x.args[0]
            if any(k in fv(v) for v in m.values()) or k in m:
                k2 = fresh("k", "I")
                b = subst(x.args[3], {k: k2})
                r = rebuild(x, [k2, go(x.args[1]), go(x.args[2]), go(b)])
            else:
                r = rebuild(x, [k, go(x.args[1]), go(x.args[2]), go(x.args[3])])
        else:
            nch = [go(c) for c in ch]
            r = x if all(a is b for a, b in zip(ch, nch)) else rebuild(x, nch)
        memo[x] = r
        return r
    import sys
    return go(lift(t))


_ALPHA = {}


def _bdepth(x, memo):
    r = memo.get(x)
    if r is None:
        r = max([_bdepth(c, memo) for c in children(x)] or [0])
        if x.op in ("sum", "forall"):
            r += 1
        memo[x] = r
    return r


_BD = {}


def alpha(t):
    """bound variables renamed to canonical names, so that alpha-equivalent terms become identical"""
    t = lift(t)
    if _bdepth(t, _BD) == 0:
        return t
    r = _ALPHA.get(t)
    if r is None:
        ch = [alpha(c) for c in children(t)]
        if t.op in ("sum", "forall"):
            k, lo, hi, b = t.args[0], alpha(t.args[1]), alpha(t.args[2]), alpha(t.args[3])
            k2 = var("@k%d" % (1 + _bdepth(b, _BD)), "I")
            if k is not k2:
                b = subst(b, {k: k2})
            r = mk(t.op, (k2, lo, hi, b), t.sort)
        else:
            r = rebuild(t, ch)
        _ALPHA[t] = r
    return r


def map_fn(t, f):
    """replace every application node g(args) by f(name, args, sort) (or keep if None)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        ch = children(x)
        if not ch and x.op != "fn":
            memo[x] = x
            return x
        nch = [go(c) for c in ch]
        r = None
        if x.op == "fn":
            r = f(x.args[0], tuple(nch), x.sort)
        if r is None:
            r = x if all(a is b for a, b in zip(ch, nch)) else rebuild(x, nch)
        memo[x] = r
        return r
    return go(lift(t))


def diff(t, v, memo=None):
    """partial derivative of t with respect to the node v (a var or application)."""
    if memo is None:
        memo = {}
    zero = num(0, "R")

    def go(x):
        if x is v:
            return num(1, "R")
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        ch = children(x)
        if not ch:
            r = zero
        elif op == "fn":
            if any(go(c) is not zero for c in ch):
                raise NotImplementedError("derivative through %s" % x.args[0])
            r = zero
        elif op == "add":
            r = add(*[mul(num(c, "R"), go(y)) for c, y in x.args[0]])
        elif op == "mul":
            out = []
            for y, e in x.args[1]:
                dy = go(y)
                if dy is zero or (dy.op == "num" and dy.args[0] == 0):
                    continue
                out.append(mul(x, num(e, "R"), power(y, -1), dy))
            r = add(*out) if out else zero
        elif op == "sqrt":
            r = mul(num(Fraction(1, 2), "R"), power(x, -1), go(x.args[0]))
        elif op == "abs":
            r = mul(x.args[0], power(x, -1), go(x.args[0]))
        elif op == "sin":
            r = mul(unary("cos", x.args[0]), go(x.args[0]))
        elif op == "cos":
            r = neg(mul(unary("sin", x.args[0]), go(x.args[0])))
        elif op == "exp":
            r = mul(x, go(x.args[0]))
        elif op == "atan":
            u = x.args[0]
            r = mul(go(u), power(add(1, mul(u, u)), -1))
        elif op == "atan2":
            a, b = x.args
            r = mul(sub(mul(b, go(a)), mul(a, go(b))), power(add(mul(a, a), mul(b, b)), -1))
        elif op == "ite":
            r = ite(x.args[0], go(x.args[1]), go(x.args[2]))
        elif op == "sum":
            r = summ(x.args[0], x.args[1], x.args[2], go(x.args[3]))
        else:
            if any(go(c) is not zero for c in ch):
                raise NotImplementedError("derivative of %s" % op)
            r = zero
        r = lift(r)
        if r.op == "num" and r.args[0] == 0:
            r = zero
        memo[x] = r
        return r
    return go(lift(t))


def show(t, depth=8):
    if depth == 0:
        return "..."
    op = t.op
    s = lambda x: show(x, depth - 1)
    if op == "num":
        v = t.args[0]
        return str(v)
    if op == "var":
        return t.args[0]
    if op == "fn":
        return "%s(%s)" % (t.args[0], ",".join(s(a) for a in t.args[1:]))
    if op == "add":
        out = []
        for c, x in t.args[0]:
            out.append(("" if c == 1 else "-" if c == -1 else str(c) + "*") + s(x))
        if t.args[1] != 0:
            out.append(str(t.args[1]))
        return "(" + " + ".join(out) + ")"
    if op == "mul":
        out = [] if t.args[0] == 1 else [str(t.args[0])]
        for x, e in t.args[1]:
            out.append(s(x) + ("" if e == 1 else "^%d" % e))
        return "*".join(out)
    if op == "sum":
        return "SUM[%s:%s..%s](%s)" % tuple(s(a) for a in t.args)
    if op == "lt":
        return "(%s < 0)" % s(t.args[0])
    if op == "eq":
        return "(%s == 0)" % s(t.args[0])
    if op in ("str",):
        return repr(t.args[0])
    if not t.args:
        return op
    return "%s(%s)" % (op, ",".join(s(a) if isinstance(a, Term) else str(a) for a in t.args))
