"""C09: cartesian_to_spherical_harmonics is the inverse of differentiating the real solid harmonics."""
import sympy as sp
from pyvc.harness import *

U = "electrode.utils"
F = [U + ".cartesian_to_spherical_harmonics"]
X, Y, Z = sp.symbols("x y z", real=True)


def solid(l, m):
    """r^l Y_lm, real, orthonormal, with the Condon-Shortley phase: sqrt(2) Re Y_l^m for m > 0, sqrt(2) Im Y_l^|m| for m < 0;
    as (rational polynomial, square of the factor in front, sign)"""
    k = abs(m)
    u = sp.Symbol("u")
    r2 = X**2 + Y**2 + Z**2
    # r^(l-k) d^k P_l/du^k at u = z/r
    p = sp.Poly(sp.diff(sp.legendre(l, u), u, k), u)
    body = sum(c * Z**e * sp.expand(r2**((l - k - e) // 2)) for (e,), c in p.terms())
    az = sp.expand((X + sp.I * Y)**k)
    az = sp.re(az) if m >= 0 else sp.im(az)
    poly = sp.Poly(sp.expand(body * az), X, Y, Z)
    f2 = sp.Rational(2 * l + 1, 4) * sp.factorial(l - k) / sp.factorial(l + k) * (2 if k else 1)      # over pi
    return poly, f2, (-1)**k


def number(q):
    q = sp.Rational(q)
    return T.num(Fraction(int(q.p), int(q.q)), "R")


def mk(l, nd):
    @ob("order %d, %s" % (l, "any number of points" if nd else "one point"), F)
    def g(c):
        I = c.interp()
        m = I.load(U)
        names = [I.call(I.modget(m, "deriv_to_name"), [l, i]) for i in range(2 * l + 1)]
        n = T.var("n", "I")
        I.assume(T.le(0, n))
        D = []
        for s in names:
            row = []
            for k in range(-l, l + 1):
                p, f2, sg = solid(l, k)
                d = p
                for ch in s:
                    d = d.diff({"x": X, "y": Y, "z": Z}[ch])
                row.append(T.mul(number(d.as_expr() * sg), T.sqrt(T.div(number(f2), T.mk("pi", (), "R")))))
            D.append(row)
        a = lambda k, j: T.fn("a", (T.num(k),) + tuple(j))

        def entry(ix):
            v = lambda i: T.add(*[T.mul(D[i][k], a(k, ix[1:])) for k in range(2 * l + 1)])
            r = v(2 * l)
            for i in range(2 * l - 1, -1, -1):
                r = T.ite(T.eq(ix[0], i), v(i), r)
            return r
        sh = (n,) if nd else ()
        src = I.new_arr((2 * l + 1,) + sh, entry, "R")
        want = I.new_arr((2 * l + 1,) + sh, lambda ix: T.fn("a", tuple(ix)), "R")
        cnt = 0
        for r in c.run("call", lambda: I.call(I.modget(m, "cartesian_to_spherical_harmonics"), [src])):
            cnt += 1
            r = I.as_arr(r)
            if not c.true("shape", r.ndim == 1 + nd and r.shape[0] == 2 * l + 1):
                continue
            if nd:
                c.eq("number of points", r.shape[1], n)
            j = [T.var("j", "I")] if nd else []
            pc = [T.le(0, j[0]), T.lt(j[0], n)] if nd else []
            for k in range(2 * l + 1):
                c.eq("coefficient m=%d" % (k - l), I.scalar(I.elem(r, tuple([T.num(k)] + j))), a(k, j), pc=pc)
            c.eq("input unchanged", I.elem(src, tuple([T.num(0)] + j)), entry(tuple([T.num(0)] + j)), pc=pc)
        c.true("returns", cnt > 0)


for _l in range(6):
    for _n in (1, 0):
        mk(_l, _n)


@ob("integer valued derivatives count as real ones", F)
def g(c):
    I = c.interp()
    m = I.load(U)
    n = T.var("n", "I")
    I.assume(T.le(0, n))
    for l in range(6):
        for sh in ((n,), ()):
            v = lambda ix: T.fn("k", tuple(ix), "I")
            src = I.new_arr((2 * l + 1,) + sh, v, "I")
            ref = I.new_arr((2 * l + 1,) + sh, lambda ix: T.toreal(v(ix)), "R")
            f = lambda a: I.as_arr(I.call(I.modget(m, "cartesian_to_spherical_harmonics"), [a]))
            a, b = c.one("order %d, integers" % l, lambda: f(src)), c.one("order %d" % l, lambda: f(ref))
            j = [T.var("j", "I")] if sh else []
            pc = [T.le(0, j[0]), T.lt(j[0], n)] if sh else []
            for k in range(2 * l + 1):
                c.eq("order %d, m=%d" % (l, k - l), I.scalar(I.elem(a, tuple([T.num(k)] + j))), I.scalar(I.elem(b, tuple([T.num(k)] + j))), pc=pc)
