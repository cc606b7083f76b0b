"""C36: SphericalHarmonics: analysis inverts synthesis.

Contracts assumed of the libraries:
  scipy p_roots(N): the N Gauss-Legendre nodes x_i and weights w_i; lpmn(M, K, x)[0][a, b] = P_b^a(x); gamma
  exactness of the quadrature on products of associated Legendre functions of the same order M (degree <= 2N-2):
     sum_i w_i P_n^M(x_i) P_n'^M(x_i) = [n = n'] 2/(2n+1) gamma(n+M+1)/gamma(n-M+1)
  numpy fft, ifft: the discrete Fourier sums, inverse to each other."""
from pyvc.harness import *

M = "electrode.spherical_harmonics"
C = M + ".SphericalHarmonics."
NOTE = ("Assumed of scipy/numpy: p_roots, lpmn and gamma are the Gauss-Legendre rule, the associated Legendre functions and the gamma "
        "function; Gauss-Legendre exactness with the normalisation of P_n^M; ifft is the inverse discrete Fourier sum and fft inverts it. "
        "gamma overflows in floating point beyond nmax of about 85: exact arithmetic is treated.")


def world(c):
    I = c.interp()

    def p_roots(n):
        return (I.new_arr((n,), lambda i: T.fn("root", i), "R"), I.new_arr((n,), lambda i: T.fn("weight", i), "R"))

    def lpmn(m, n, x):
        x = I.scalar(x)
        return (I.new_arr((T.add(m, 1), T.add(n, 1)), lambda i: T.fn("legendre", (i[0], i[1], T.toreal(x))), "R"),
                I.new_arr((T.add(m, 1), T.add(n, 1)), lambda i: T.fn("legendre.d", (i[0], i[1], T.toreal(x))), "R"))

    def gamma(x):
        if not isinstance(x, Arr):
            return T.fn("gamma", (T.toreal(T.lift(I.scalar(x))),))
        f = I.freeze_arr(x)
        return I.new_arr(x.shape, lambda i: T.fn("gamma", (T.toreal(f(i)),)), "R")
    orth = Module("scipy.special.orthogonal", dict(p_roots=Builtin("p_roots", p_roots)))
    sp = Module("scipy.special", dict(orthogonal=orth, p_roots=Builtin("p_roots", p_roots), roots_legendre=Builtin("roots_legendre", p_roots),
                                      lpmn=Builtin("lpmn", lpmn), gamma=Builtin("gamma", gamma)))
    I.extmods["scipy"] = Module("scipy", dict(special=sp))
    I.extmods["scipy.special"] = sp
    m = I.load(M)
    N = T.var("N", "I")
    I.assume(T.le(1, N))
    o = I.call(I.modget(m, "SphericalHarmonics"), [N])
    return I, m, N, o


def setfft(I, m, fft, ifft):
    np_ = I.modget(m, "np")
    mod = Module("numpy.fft", {})
    if fft:
        mod.attrs["fft"] = Builtin("fft", fft)
    if ifft:
        mod.attrs["ifft"] = Builtin("ifft", ifft)
    np_.attrs["fft"] = mod


def position(I, N):
    """an arbitrary coefficient: position p, q and its order m and degree n"""
    p, q = T.var("p", "I"), T.var("q", "I")
    for f in (T.le(0, p), T.lt(p, N), T.le(0, q), T.lt(q, N)):
        I.assume(f)
    up = T.le(p, q)
    return p, q, T.ite(up, p, T.sub(p, N)), T.ite(up, q, T.sub(T.sub(N, 1), q))


def theta_index(I, N):
    i = T.var("i", "I")
    I.assume(T.and_(T.le(0, i), T.lt(i, N)))
    return i


def norm2(n, am):
    """the squared normalisation (2n+1)/(4 pi) (n-|m|)!/(n+|m|)!"""
    r = lambda x: T.toreal(x)
    return T.div(T.mul(T.add(T.mul(2, r(n)), 1), T.fn("gamma", (r(T.add(T.sub(n, am), 1)),))),
                 T.mul(4, T.PI, T.fn("gamma", (r(T.add(T.add(n, am), 1)),))))


def Y(m, n, i):
    """theta factor of the normalised Y_nm at the node i"""
    am = T.ite(T.lt(m, 0), T.neg(m), m)
    sign = T.ite(T.lt(m, 0), T.mk("pows", (T.num(-1), am), "I"), T.num(1))
    return T.mul(T.sqrt(norm2(n, am)), sign, T.fn("legendre", (am, n, T.fn("root", (i,)))))


@ob("grid, packing and normalisation, any nmax", [C + "__init__", C + "indices"])
def init(c):
    I, m, N, o = world(c)
    p, q, om, on = position(I, N)
    i = theta_index(I, N)
    g = lambda a: I.getattr(o, a)
    c.eq("degree", I.elem(g("n"), (p, q)), on)
    c.eq("order", I.elem(g("m"), (p, q)), om)
    for nm in ("n", "m"):
        c.eq("shape of " + nm, g(nm).shape, (N, N))
    for nm in ("ptmn", "ptmnw"):
        c.eq("shape of " + nm, g(nm).shape, (N, N, N))
    th, ph = I.call(I.getattr(o, "spherical_grid"), [])[0:2] if False else (g("theta"), g("phi"))
    c.eq("theta", th, I.new_arr((N, 1), lambda k: T.unary("acos", T.fn("root", (k[0],))), "R"))
    c.eq("phi", ph, I.new_arr((1, T.mul(2, N)), lambda k: T.div(T.mul(T.PI, T.toreal(k[1])), T.toreal(N)), "R"))
    for up in (True, False):
        pc = [T.le(p, q) if up else T.lt(q, p)]
        w = "m >= 0" if up else "m < 0"
        c.eq("sampled functions, " + w, I.elem(g("ptmn"), (i, p, q)), Y(om, on, i), pc=pc)
        c.eq("weighted functions, " + w, I.elem(g("ptmnw"), (i, p, q)),
             T.div(T.mul(Y(om, on, i), T.fn("weight", (i,)), T.PI), T.toreal(N)), pc=pc)


@ob("grid as angles", [C + "spherical_grid", C + "cartesian_grid"])
def grids(c):
    I, m, N, o = world(c)
    sh = (N, T.mul(2, N))
    th = lambda k: T.unary("acos", T.fn("root", (k[0],)))
    ph = lambda k: T.div(T.mul(T.PI, T.toreal(k[1])), T.toreal(N))
    for nm, want in (("spherical_grid", (th, ph)),):
        v = I.concrete_list(I.call(I.getattr(o, nm), []))
        c.eq(nm, tuple(v), tuple(I.new_arr(sh, f, "R") for f in want))


def replace_fields(I, o, N):
    """from here on the precomputed arrays are known by what the other obligations establish"""
    r = I.rec(o)
    up = lambda k: T.le(k[0], k[1])
    I.setattr(o, "n", I.new_arr((N, N), lambda k: T.ite(up(k), k[1], T.sub(T.sub(N, 1), k[1])), "I"))
    I.setattr(o, "m", I.new_arr((N, N), lambda k: T.ite(up(k), k[0], T.sub(k[0], N)), "I"))
    I.setattr(o, "ptmn", I.new_arr((N, N, N), lambda k: T.fn("Y", k), "R"))
    I.setattr(o, "ptmnw", I.new_arr((N, N, N), lambda k: T.div(T.mul(T.fn("Y", k), T.fn("weight", (k[0],)), T.PI), T.toreal(N)), "R"))


def spectrum(I, N):
    """numpy's transforms along the last axis by their inversion: fft(s ifft(X)) = s X"""
    made = []

    def ifft(x, n=None, axis=-1):
        x = I.as_arr(x, None)
        if n is not None or x.ndim != 2 or I.py(axis) not in (1, -1):
            raise Unsupported("ifft of this form")
        f = I.freeze_arr(x)
        nm = "ifft!%d" % len(made)
        made.append((nm, f, x.shape))
        return I.new_arr(x.shape, lambda k: Cx(T.fn(nm + "re", k), T.fn(nm + "im", k)), "C")

    def fft(x, n=None, axis=-1):
        x = I.as_arr(x, None)
        if n is not None or x.ndim != 2 or I.py(axis) not in (1, -1):
            raise Unsupported("fft of this form")
        a, b = T.fresh("a", "I"), T.fresh("b", "I")
        v = I.elem(x, (a, b))
        for nm, f, sh in made:
            if not (I.same_dim(x.shape[0], sh[0]) and I.same_dim(x.shape[1], sh[1])) or not isinstance(v, Cx):
                continue
            s = T.div(v.re, T.fn(nm + "re", (a, b)))
            t = T.div(v.im, T.fn(nm + "im", (a, b)))
            if s is t and not any(isinstance(y, Term) and y in (a, b) or y in (nm + "re", nm + "im") for y in T.fv(s)):
                return I.new_arr(sh, lambda k: I.binop("*", s, f(k)), "C")
        raise Unsupported("transform of an array that is not a multiple of an inverse transform")
    return fft, ifft


def coefficients(I, N, kind):
    if kind == "complex":
        return I.new_arr((N, N), lambda k: Cx(T.fn("are", k), T.fn("aim", k)), "C"), lambda p, q: Cx(T.fn("are", (p, q)), T.fn("aim", (p, q)))
    return I.new_arr((N, N), lambda k: T.fn("are", k), "R"), lambda p, q: Cx(T.fn("are", (p, q)), 0)


def mk(kind):
    @ob("analysis of a synthesis, %s coefficients, any nmax" % kind, [C + "analysis", C + "synthesis"])
    def g(c):
        I, m, N, o = world(c)
        replace_fields(I, o, N)
        setfft(I, m, *spectrum(I, N))
        a, co = coefficients(I, N, kind)
        p, q, om, on = position(I, N)
        n = 0
        for pa in c.paths(lambda: I.call(I.getattr(o, "analysis"), [I.call(I.getattr(o, "synthesis"), [a])])):
            if pa.kind == "raise":
                c.fail("analysis", "raises %s" % (pa.value,))
                continue
            n += 1
            c.eq("shape", pa.value.shape, (N, N))
            v = I.elem(pa.value, (p, q))
            v = v if isinstance(v, Cx) else Cx(v, 0)
            for up in (True, False):
                side = T.le(p, q) if up else T.lt(q, p)
                w = "m >= 0" if up else "m < 0"
                k, i = T.fresh("k", "I"), T.fresh("i", "I")
                same = T.le(p, k) if up else T.lt(k, p)
                # sum over the coefficients of the same order of  a * 2 pi sum_i weight Y_n Y_n'
                ortho = lambda k: T.summ(i, 0, N, T.mul(2, T.PI, T.fn("weight", (i,)), T.fn("Y", (i, p, q)), T.fn("Y", (i, p, k))))
                for part in ("re", "im"):
                    x = getattr(co(p, k), part)
                    c.eq("coefficients times overlaps, %s, %s" % (w, part), getattr(v, part),
                         T.summ(k, 0, N, T.ite(same, T.mul(x, ortho(k)), T.num(0, "R"))), pc=[side])
                    # with the overlaps: what is left is the coefficient
                    c.eq("orthonormal overlaps leave the coefficient, %s, %s" % (w, part),
                         T.summ(k, 0, N, T.ite(T.and_(same, T.eq(k, q)), x, T.num(0, "R"))), T.subst(x, {k: q}), pc=[side])
        c.true("returns", n > 0)


mk("complex")
mk("real")


@ob("overlaps of the sampled functions", [C + "__init__"])
def overlaps(c):
    """sum_i 2 pi weight Y_nm Y_n'm = [n = n'] from the exactness of the quadrature"""
    I, m, N, o = world(c)
    p, q, om, on = position(I, N)
    k = T.var("k", "I")
    I.assume(T.and_(T.le(0, k), T.lt(k, N)))
    i = T.fresh("i", "I")
    W, P = I.getattr(o, "ptmnw"), I.getattr(o, "ptmn")
    for up in (True, False):
        w = "m >= 0" if up else "m < 0"
        side = [T.le(p, q), T.le(p, k)] if up else [T.lt(q, p), T.lt(k, p)]
        am = p if up else T.sub(N, p)
        deg = (lambda x: x) if up else (lambda x: T.sub(T.sub(N, 1), x))
        with_ = [T.le(0, i), T.lt(i, N)]
        got = T.mul(2, T.toreal(N), I.elem(W, (i, p, q)), I.elem(P, (i, p, k)))
        leg = lambda d: T.fn("legendre", (am, d, T.fn("root", (i,))))
        want = T.mul(2, T.PI, T.sqrt(norm2(deg(q), am)), T.sqrt(norm2(deg(k), am)), T.fn("weight", (i,)), leg(deg(q)), leg(deg(k)))
        c.eq("summand, " + w, got, want, pc=side + with_)
        # the quadrature: sum_i weight P P' = [n = n'] 2/(2n+1) gamma(n+M+1)/gamma(n-M+1)
        n_ = deg(q)
        r = T.toreal
        G = lambda x: T.fn("gamma", (r(x),))
        quad = T.div(T.mul(2, G(T.add(T.add(n_, am), 1))), T.mul(T.add(T.mul(2, r(n_)), 1), G(T.add(T.sub(n_, am), 1))))
        c.eq("normalised, " + w, T.mul(2, T.PI, norm2(n_, am), quad), T.num(1, "R"), pc=side)


def unit(I, N, P, Q):
    return I.new_arr((N, N), lambda k: T.ite(T.and_(T.eq(k[0], P), T.eq(k[1], Q)), T.num(1, "R"), T.num(0, "R")), "R")


@ob("synthesis of one coefficient, any nmax", [C + "synthesis"])
def single(c):
    I, m, N, o = world(c)
    replace_fields(I, o, N)

    def ifft(x, n=None, axis=-1):
        x = I.as_arr(x, None)
        if n is not None or x.ndim != 2 or I.py(axis) not in (1, -1):
            raise Unsupported("ifft of this form")
        f = I.freeze_arr(x)
        L = T.lift(x.shape[1])

        def g(idx):
            k = T.fresh("k", "I")
            v = f((idx[0], k))
            v = v if isinstance(v, Cx) else Cx(v, 0)
            ang = T.div(T.mul(2, T.PI, T.toreal(k), T.toreal(idx[1])), T.toreal(L))
            e = I.binop("*", v, Cx(T.unary("cos", ang), T.unary("sin", ang)))
            return Cx(T.div(T.summ(k, 0, L, e.re), T.toreal(L)), T.div(T.summ(k, 0, L, e.im), T.toreal(L)))
        return I.new_arr(x.shape, g, "C")
    setfft(I, m, None, ifft)
    p, q, om, on = position(I, N)
    i = theta_index(I, N)
    k = T.var("k", "I")
    I.assume(T.and_(T.le(0, k), T.lt(k, T.mul(2, N))))
    n = 0
    for pa in c.paths(lambda: I.call(I.getattr(o, "synthesis"), [unit(I, N, p, q)])):
        if pa.kind == "raise":
            c.fail("synthesis", "raises %s" % (pa.value,))
            continue
        n += 1
        c.eq("shape", pa.value.shape, (N, T.mul(2, N)))
        v = I.elem(pa.value, (i, k))
        v = v if isinstance(v, Cx) else Cx(v, 0)
        for up in (True, False):
            side = T.le(p, q) if up else T.lt(q, p)
            w = "m >= 0" if up else "m < 0"
            # exp(i mu phi) with mu = m for m >= 0; mu = 2 nmax + m for m < 0 differs by exp(2 pi i k) = 1
            mu = p if up else T.add(N, p)
            ang = T.div(T.mul(T.PI, T.toreal(mu), T.toreal(k)), T.toreal(N))
            for part, fn in (("re", "cos"), ("im", "sin")):
                c.eq("Y_nm on the grid, %s, %s" % (w, part), getattr(v, part), T.mul(T.fn("Y", (i, p, q)), T.unary(fn, ang)), pc=[side])
        # the angle differs from m phi_k by an integer multiple of 2 pi
        c.eq("m < 0: frequency 2 nmax + m is m up to whole turns", T.sub(T.add(N, p), om), T.mul(2, N), pc=[T.lt(q, p)])
    c.true("returns", n > 0)
