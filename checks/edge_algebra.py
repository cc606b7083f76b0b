"""Exact algebra for the edge and point leaves: the coordinate ring of

    x1, y1, x2, y2, z, r1 = |(x1, y1, z)|, r2 = |(x2, y2, z)|, l2 = (x1 - x2)^2 + (y1 - y2)^2

written with dx = x1 - x2, dy = y1 - y2, u = (r1^2 - r2^2 + l2)/2 (= v1.d), w = dx y1 - dy x1:

    x1 = (u dx - w dy)/l2,  y1 = (u dy + w dx)/l2,  dy^2 = l2 - dx^2,  w^2 = l2 (r1^2 - z^2) - u^2.

Every element is poly/(pi^. r1^. r2^. l2^. S^.) with S = (r1 + r2)^2 - l2 and poly linear in w and dy: a normal form, so an
identity holds on all configurations with l2, r1, r2, S non-zero iff its normal form vanishes.  D(e, axis) is the derivative
with respect to the observation point (x1, x2 move together, l2 does not change)."""
from fractions import Fraction
from sympy import QQ
from sympy.polys.rings import ring
from pyvc import terms as T
from pyvc.values import Unsupported

R, A, R1, R2, L2, Z, DX, DY, W, SG = ring("a,r1,r2,l2,z,dx,dy,w,s", QQ)
ia, i1, i2, il, iz, ix, iy, iw, isg = range(9)
U = (R1**2 - R2**2 + L2) / 2
S = (R1 + R2)**2 - L2
W2 = L2 * (R1**2 - Z**2) - U**2
DY2 = L2 - DX**2
X1 = U * DX - W * DY              # l2 x1
Y1 = U * DY + W * DX              # l2 y1
X2 = X1 - L2 * DX                 # l2 x2
Y2 = Y1 - L2 * DY
DEN = ("pi", "r1", "r2", "l2", "S")
DPOLY = {"r1": R1, "r2": R2, "l2": L2, "S": S}
_pw = {}


def _pow(name, p, n):
    k = (name, n)
    if k not in _pw:
        _pw[k] = R(1) if n == 0 else _pow(name, p, n - 1) * p
    return _pw[k]


def red(p):
    """normal form: at most linear in w, dy and s (s^2 = 1)"""
    if all(m[iw] < 2 and m[iy] < 2 and m[isg] < 2 for m in p):
        return p
    groups = {}
    for m, c in p.items():
        k = (m[iw] // 2, m[iy] // 2)
        m2 = list(m)
        m2[iw] %= 2
        m2[iy] %= 2
        m2[isg] %= 2
        g = groups.setdefault(k, {})
        m2 = tuple(m2)
        v = g.get(m2, 0) + c
        if v:
            g[m2] = v
        else:
            g.pop(m2, None)
    r = R(0)
    for (a, b), g in groups.items():
        q = R.from_dict(g)
        if a:
            q = q * _pow("w2", W2, a)
        if b:
            q = q * _pow("dy2", DY2, b)
        r += q
    return red(r)


class Fr(object):
    __slots__ = ("p", "d")

    def __init__(self, p, d=(0, 0, 0, 0, 0)):
        self.p, self.d = p, d

    def lift(self, d):
        q = self.p
        for n, a, b in zip(DEN, self.d, d):
            if b > a:
                if n == "pi":
                    raise Unsupported("sum of different powers of pi")
                q = q * _pow(n, DPOLY[n], b - a)
        return red(q)

    def __add__(self, o):
        if not self.p:
            return o
        if not o.p:
            return self
        if self.d == o.d:
            return Fr(self.p + o.p, self.d)
        d = tuple(max(a, b) for a, b in zip(self.d, o.d))
        return Fr(self.lift(d) + o.lift(d), d)

    def __mul__(self, o):
        return Fr(red(self.p * o.p), tuple(a + b for a, b in zip(self.d, o.d)))

    def scale(self, c):
        return Fr(self.p * QQ(c.numerator, c.denominator), self.d)

    def __neg__(self):
        return Fr(-self.p, self.d)

    def __sub__(self, o):
        return self + (-o)

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        r = Fr(R(1))
        for i in range(n):
            r = r * self
        return r

    def inv(self):
        """only monomials in the denominator variables times powers of S are inverted"""
        p = self.p
        d = [0, 0, 0, 0, 0]
        while True:
            if len(p) == 1:
                m, c = list(p.items())[0]
                if m[ia] or m[iz] or m[ix] or m[iy] or m[iw] or m[isg]:
                    raise Unsupported("division by %s" % p)
                d[1] += m[i1]
                d[2] += m[i2]
                d[3] += m[il]
                q = R(1) / c if hasattr(c, "numerator") else R(1)
                q = R(QQ(1) / c)
                break
            qs, r = divmod(p, S)
            if r or not p:
                raise Unsupported("division by %s" % str(p)[:80])
            p = qs
            d[4] += 1
        num = Fr(q, tuple(d))
        for k, n in enumerate(self.d):
            if k == 0:
                num = Fr(num.p, (num.d[0] - n,) + num.d[1:])
            elif n > 0:
                num = Fr(num.p * _pow(DEN[k], DPOLY[DEN[k]], n), num.d)
        return num

    def zero(self):
        return not red(self.p)


ONE, ZERO = Fr(R(1)), Fr(R(0))
_l2 = (0, 0, 0, 1, 0)
COORD = {"x1": Fr(X1, _l2), "y1": Fr(Y1, _l2), "x2": Fr(X2, _l2), "y2": Fr(Y2, _l2),
         "r1": Fr(R1), "r2": Fr(R2), "l2": Fr(L2), "z": Fr(Z), "a": Fr(A)}
# single vertex (point leaf): the first vertex, d arbitrary
POINT = {"x": COORD["x1"], "y": COORD["y1"], "z": Fr(Z), "r": Fr(R1), "a": Fr(A)}


def evaluate(t, env, memo):
    """the value of a term in the ring (|z| = s z with s = sign of z)"""
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "num":
        f = Fraction(t.args[0])
        r = Fr(R(QQ(f.numerator, f.denominator)))
    elif op == "pi":
        r = Fr(R(1), (-1, 0, 0, 0, 0))
    elif op == "var":
        if t.args[0] not in env:
            raise Unsupported("variable %s in a leaf" % t.args[0])
        r = env[t.args[0]]
    elif op == "add":
        r = Fr(R(QQ(t.args[1].numerator, t.args[1].denominator)))
        for c, x in t.args[0]:
            r = r + evaluate(x, env, memo).scale(c)
    elif op == "mul":
        r = Fr(R(QQ(t.args[0].numerator, t.args[0].denominator)))
        fs = sorted(t.args[1], key=lambda q: (q[0].op == "add", q[1] < 0))
        for x, e in fs:
            r = r * evaluate(x, env, memo).pow(int(e))
    elif op == "abs":
        v = evaluate(t.args[0], env, memo)
        if v.p != Z or any(v.d):
            raise Unsupported("absolute value of something other than z")
        r = Fr(SG * Z)
    else:
        raise Unsupported("operation %s in a leaf" % op)
    memo[t] = r
    return r


_V1 = (Fr(X1, _l2), Fr(Y1, _l2), Fr(Z))
_V2 = (Fr(X2, _l2), Fr(Y2, _l2), Fr(Z))


def D(e, axis, move=(1, 1)):
    """derivative when the first vertex moves by move[0] and the second by move[1] along the axis (1, 1: the observation point)"""
    if move != (1, 1):
        raise Unsupported("only the observation point moves here")
    p, d = e.p, e.d
    g1 = Fr(p.diff(R1)) * _V1[axis] * Fr(R(1), (0, 1, 0, 0, 0))
    g2 = Fr(p.diff(R2)) * _V2[axis] * Fr(R(1), (0, 0, 1, 0, 0))
    r = g1 + g2
    if axis == 0:
        r = r + Fr(red(-p.diff(W) * DY))
    elif axis == 1:
        r = r + Fr(red(p.diff(W) * DX))
    else:
        r = r + Fr(p.diff(Z))
    q1 = _V1[axis] * Fr(R(1), (0, 2, 0, 0, 0))
    q2 = _V2[axis] * Fr(R(1), (0, 0, 2, 0, 0))
    P = Fr(p)
    if d[1]:
        r = r - (P * q1).scale(Fraction(d[1]))
    if d[2]:
        r = r - (P * q2).scale(Fraction(d[2]))
    if d[4]:
        ds = Fr(2 * (R1 + R2), (0, 0, 0, 0, 1)) * (_V1[axis] * Fr(R(1), (0, 1, 0, 0, 0)) + _V2[axis] * Fr(R(1), (0, 0, 1, 0, 0)))
        r = r - (P * ds).scale(Fraction(d[4]))
    return Fr(r.p, tuple(a + b for a, b in zip(r.d, d)))
