"""C26: Mathieu solutions."""
from pyvc.harness import *
from pyvc import prover as P
from pyvc.loops import unfold

MA = "electrode.mathieu"
INFO = {"build": False}
Q = MA + ":Mathieu."
NOTE = "the continued fraction and the coefficients are defined by recursion and unfolded by the engine; w**deri at an order not known is one symbol per base with w**(k+1) = w*w**k"


def mathieu(c):
    I = c.interp()
    m = I.load(MA)
    a, q, nu = (T.var(x) for x in ("a", "q", "nu"))
    I.assume(T.not_(T.eq(q, 0)))
    M = I.call(I.modget(m, "Mathieu"), [])
    g = lambda n: T.div(T.sub(a, square(T.add(nu, T.mul(2, n)))), q)
    return I, M, a, q, nu, g


def square(x):
    return T.mul(x, x)


def natural(I, name, least=0):
    n = T.var(name, "I")
    I.assume(T.le(least, n))
    return n


@ob("coeff_ratio: continued fractions of the recurrence", [MA + ".Mathieu.coeff_ratio", MA + ".Mathieu.gn"])
def _(c):
    I, M, a, q, nu, g = mathieu(c)
    nc, ng = natural(I, "nc", 1), natural(I, "ng")
    done = 0
    for r in c.run("coeff_ratio", lambda: I.call(I.getattr(M, "coeff_ratio"), [a, q, nu, nc, ng])):
        rn, rp = [I.as_arr(x) for x in I.concrete_list(r)]
        c.eq("negative ratios", rn.shape[0], nc)
        c.eq("positive ratios", rp.shape[0], nc)
        k = T.var("k", "I")
        rng = [T.le(1, k), T.lt(k, nc)]
        old = list(I.pc)
        I.pc = old + rng
        el = lambda A, i: T.lift(I.scalar(I.elem(A, (T.lift(i),))))
        # C[k]/C[k-1] and C[-k]/C[-k+1]
        for sgn, lab, at in ((1, "positive", lambda j: el(rp, T.sub(j, 1))), (-1, "negative", lambda j: el(rn, T.sub(nc, j)))):
            x, y = at(k), at(T.add(k, 1))
            den = T.sub(g(T.mul(sgn, k)), y)
            c.eq("recurrence at %s k" % lab, T.mul(unfold(I, x), den), T.num(1), pc=[T.not_(T.eq(den, 0))])
        I.pc = old
        # the outermost ratio is the continued fraction cut off at nc+ng
        K = T.var("K", "I")
        for sgn, lab, t in ((1, "positive", el(rp, T.sub(nc, 1))), (-1, "negative", el(rn, 0))):
            cut(c, I, lab, t, lambda n: g(T.mul(sgn, n)), nc, ng, K)
        done += 1
    c.true("returns", done > 0)


def cut(c, I, lab, t, g, nc, ng, K):
    """t = 1/(g(nc) - 1/(g(nc+1) - ... 1/g(nc+ng)))"""
    apps = []
    T.map_fn(t, lambda nm, args, s: apps.append((nm, args)) if nm in I.recs else None)
    if not apps:
        return c.fail("%s continued fraction" % lab, "not recognised in %s" % (t,), status="undecided")
    nm = apps[0][0]
    R = lambda k: T.fn(nm, (T.lift(k),), "R")
    c.eq("%s: continued fraction from nc+ng down to nc" % lab, t, R(ng))
    top = unfold(I, R(T.num(0)))
    c.eq("%s: cut off behind nc+ng" % lab, T.mul(top, g(T.add(nc, ng))), T.num(1), pc=[T.not_(T.eq(g(T.add(nc, ng)), 0))])
    n = T.sub(T.sub(T.add(nc, ng), 1), K)
    den = T.sub(g(n), R(K))
    c.eq("%s: one level of the fraction" % lab, T.mul(unfold(I, R(T.add(K, 1))), den), T.num(1), pc=[T.le(0, K), T.lt(K, ng), T.not_(T.eq(den, 0))])


@ob("coeff_Cn: coefficients from the ratios", [MA + ".Mathieu.coeff_Cn"])
def _(c):
    I, M, a, q, nu, g = mathieu(c)
    nc, ng = natural(I, "nc", 1), natural(I, "ng")
    seen = []

    def ratios(I, f, args, kw):
        b = I.bind_args(f, args, kw)
        seen.append([b[x] for x in ("a", "q", "nu", "nc", "ng")])
        return (I.new_arr((nc,), lambda i: T.fn("RN", i), "R"), I.new_arr((nc,), lambda i: T.fn("RP", i), "R"))
    I.contracts[Q + "coeff_ratio"] = ratios
    done = 0
    for r in c.run("coeff_Cn", lambda: (seen.clear(), I.call(I.getattr(M, "coeff_Cn"), [a, q, nu, nc, ng]))[1]):
        c.true("one set of ratios", len(seen) == 1)
        for x, y in zip(seen[0], (a, q, nu, nc, ng)):
            c.eq("ratios asked for", x, y)
        C = [I.as_arr(x) for x in I.concrete_list(r)]
        c.true("three arrays", len(C) == 3)
        for A in C:
            c.eq("number of coefficients", A.shape[0], T.add(T.mul(2, nc), 1))
        el = lambda A, i: T.lift(I.scalar(I.elem(A, (T.lift(i),))))
        cn = lambda n: el(C[2], T.add(n, nc))
        c.eq("central coefficient", cn(T.num(0)), T.num(1))
        k = T.var("k", "I")
        old = list(I.pc)
        # g(k) C[k] = C[k-1] + C[k+1], from the ratios' contract
        for sgn, lab in ((1, "positive"), (-1, "negative")):
            I.pc = old + [T.le(1, k), T.le(k, nc)]
            ratio = lambda j: T.fn("RP", (T.sub(j, 1),)) if sgn > 0 else T.fn("RN", (T.sub(nc, j),))
            n = lambda j: T.mul(sgn, j)
            x, y = cn(n(k)), cn(n(T.sub(k, 1)))
            c.eq("%s: ratio of neighbours" % lab, unfold(I, x), T.mul(ratio(k), y))
            I.pc = old + [T.le(1, k), T.lt(k, nc)]
            x, y, z = (cn(n(T.add(k, d))) for d in (0, -1, 1))
            den = T.sub(g(n(k)), ratio(T.add(k, 1)))
            z = T.mul(ratio(T.add(k, 1)), x)           # shown above
            x_ = T.mul(T.div(T.num(1), den), y)        # shown above, and the contract of the ratios
            c.eq("%s: recurrence" % lab, T.mul(g(n(k)), x_), T.add(y, T.mul(ratio(T.add(k, 1)), x_)), pc=[T.not_(T.eq(den, 0))])
        I.pc = old
        k = T.var("k", "I")
        old = list(I.pc)
        I.pc = old + [T.le(0, k), T.le(k, T.mul(2, nc))]
        w = lambda j: T.add(nu, T.mul(2, T.sub(j, nc)))
        tot = lambda f: T.summ(T.var("s", "I"), 0, T.add(T.mul(2, nc), 1), f(T.var("s", "I")))
        S1, S2 = tot(lambda j: el(C[2], j)), tot(lambda j: T.mul(w(j), el(C[2], j)))
        nz = [T.not_(T.eq(S1, 0)), T.not_(T.eq(S2, 0))]
        c.eq("even: scaled", T.mul(el(C[0], k), S1), el(C[2], k), pc=nz)
        c.eq("odd: scaled", T.mul(el(C[1], k), S2), el(C[2], k), pc=nz)
        I.pc = old
        done += 1
    c.true("returns", done > 0)



N = lambda: T.add(T.mul(2, T.var("nc", "I")), 1)


def stored(c, dt=None):
    """an object after init_sol: the exponent and the two sets of coefficients (contract of coeff_Cn: weights sum to one)"""
    I, M, a, q, nu, g = mathieu(c)
    natural(I, "nc")
    A, B = ((lambda i, n=n: T.fn(n, i)) for n in ("CC", "CS"))
    cs = [I.new_arr((N(),), f, "R") for f in (A, B)]
    I.rec(M).attrs.update({"nu": nu, "Cn": tuple(cs)})
    w = lambda j: T.add(nu, T.mul(2, T.sub(j, T.var("nc", "I"))))
    return I, M, nu, w, (lambda j: T.fn("CC", (j,)), lambda j: T.fn("CS", (j,)))


COS = [lambda x: T.unary("cos", x), lambda x: T.neg(T.unary("sin", x)), lambda x: T.neg(T.unary("cos", x)), lambda x: T.unary("sin", x)]
SIN = [lambda x: T.unary("sin", x), lambda x: T.unary("cos", x), lambda x: T.neg(T.unary("sin", x)), lambda x: T.neg(T.unary("cos", x))]


def series(c, w, C, tri, r, d, t):
    """sum of C_j (d/dt)^d tri(w_j t) for d = r modulo 4"""
    j = T.var("s", "I")
    wj = T.add(w(j), 0)
    return T.summ(j, 0, N(), T.mul(C(j), T.power(T.toreal(wj), d), tri[r](T.mul(wj, t))))


def sols(name, which, tri):
    fn = [MA + ".Mathieu." + name]

    @ob(name + ": any order of derivative", fn)
    def g(c):
        for r in range(4):
            I, M, nu, w, C = stored(c)
            t, k = T.var("t"), natural(I, "quarter")
            d = T.add(T.mul(4, k), r)
            done = 0
            for y in c.run(name, lambda: I.call(I.getattr(M, name), [t], {"deri": d})):
                c.eq("derivative of order 4k+%d" % r, I.scalar(y), series(c, w, C[which], tri, r, d, t))
                done += 1
            c.true("returns", done > 0)

    @ob(name + ": low orders", fn)
    def g(c):
        for d in range(9):
            I, M, nu, w, C = stored(c)
            t = T.var("t")
            done = 0
            for y in c.run(name, lambda: I.call(I.getattr(M, name), [t] + ([d] if d else []))):
                c.eq("derivative of order %d" % d, I.scalar(y), series(c, w, C[which], tri, d % 4, d, t))
                done += 1
            c.true("returns", done > 0)

    @ob(name + ": start at t=0", fn)
    def g(c):
        I, M, nu, w, C = stored(c)
        j = T.var("s", "I")
        one = [T.eq(T.summ(j, 0, N(), C[which](j) if which == 0 else T.mul(w(j), C[which](j))), T.num(1, "R"))]
        for d in range(2):
            for y in c.run(name, lambda: I.call(I.getattr(M, name), [T.num(0, "R"), d])):
                want = T.summ(j, 0, N(), C[0](j)) if which == 0 and d == 0 else T.summ(j, 0, N(), T.mul(w(j), C[1](j))) if which == 1 and d == 1 else T.num(0, "R")
                c.eq("value" if d == 0 else "slope", I.scalar(y), want)

    @ob("each order is the derivative of the one before: " + name, fn)
    def g(c):
        I = c.interp()
        w, t, p = T.var("w"), T.var("t"), T.var("p")
        for r in range(4):
            c.eq("order 4k+%d" % (r + 1), T.mul(p, T.diff(tri[r](T.mul(w, t)), t)), T.mul(p, w, tri[(r + 1) % 4](T.mul(w, t))))


sols("sol_y1", 0, COS)
sols("sol_y2", 1, SIN)


@ob("init_value: superposition with the given value and slope", [MA + ".Mathieu.init_value"])
def _(c):
    I, M, a, q, nu, g = mathieu(c)
    t0, y0, v0 = T.var("t0"), T.var("y0"), T.var("v0")

    def sol(n):
        def f(I, fn, args, kw):
            b = I.bind_args(fn, args, kw)
            d = b["deri"]
            if not isinstance(d, int):
                d = I.py(T.lift(d))
            t = T.lift(b["t"])
            if t is T.num(0, "R") or t is T.num(0):
                return T.num(1 if d == n - 1 else 0, "R")
            return T.fn("Y%d_%d" % (n, d), (t,), "R")
        return f
    for n in (1, 2):
        I.contracts[Q + "sol_y%d" % n] = sol(n)
    Y = lambda n, d: T.fn("Y%d_%d" % (n, d), (t0,), "R")
    wron = T.sub(T.mul(Y(1, 0), Y(2, 1)), T.mul(Y(1, 1), Y(2, 0)))
    I.assume(T.not_(T.eq(wron, 0)))
    done = 0
    for kind in ("tuple", "array"):
        for r in c.run("init_value", lambda: I.call(I.getattr(M, "init_value"), [(y0, v0) if kind == "tuple" else I.as_arr(I.newlist([y0, v0])), t0])):
            r = I.as_arr(r)
            c.true("two coefficients", r.shape == (2,))
            A, B = (I.scalar(I.elem(r, (T.num(k),))) for k in range(2))
            zero = I.entails(T.eq(t0, 0))
            for d, want in ((0, y0), (1, v0)):
                # at t = 0 the even solution has value 1 and slope 0, the odd one value 0 and slope 1
                s = [T.num(1 if d == n - 1 else 0, "R") for n in (1, 2)] if zero else [Y(n, d) for n in (1, 2)]
                c.eq(("slope" if d else "value") + (" at 0" if zero else ""), T.add(T.mul(A, s[0]), T.mul(B, s[1])), want)
            done += 1
    c.true("returns", done >= 4)


@ob("init_value: default start", [MA + ".Mathieu.init_value"])
def _(c):
    I, M, a, q, nu, g = mathieu(c)
    for r in c.run("init_value", lambda: I.call(I.getattr(M, "init_value"), [])):
        r = I.as_arr(r)
        c.eq("odd solution alone", r, I.as_arr(I.newlist([T.num(0, "R"), T.num(1, "R")])))


def init(mode):
    @ob("init_sol: exponent and coefficients stored, " + mode, [MA + ".Mathieu.init_sol"])
    def g(c):
        I, M, a, q, nu, g = mathieu(c)
        nc, ng, tol = natural(I, "nc", 1), natural(I, "ng"), T.var("tol")
        calls = []

        def nus(name, n):
            def f(I, fn, args, kw):
                b = I.bind_args(fn, args, kw)
                calls.append((name, b["a"], b["q"]))
                if name == "nu_tolerance":
                    c.eq("tolerance", T.lift(b["tol"]), tol)
                return (nu, T.var("order", "I")) if n == 2 else nu
            return f
        for nm, n in (("nu_tolerance", 2), ("nu_exp_d0ap", 1), ("nu_exp_ivp", 1)):
            I.contracts[Q + nm] = nus(nm, n)

        def Cn(I, fn, args, kw):
            b = I.bind_args(fn, args, kw)
            calls.append(("Cn", b["a"], b["q"], b["nu"], b["nc"], b["ng"]))
            return tuple(I.new_arr((N(),), lambda i, n=n: T.fn(n, i), "R") for n in ("CC", "CS", "CN"))
        I.contracts[Q + "coeff_Cn"] = Cn
        for given in (True, False):
            if not given and mode != "det":
                continue
            kw = dict(ng=ng, tol_nu=tol, mode=mode)
            if given:
                kw["nc"] = nc
            done = 0
            for r in c.run("init_sol", lambda: (calls.clear(), I.call(I.getattr(M, "init_sol"), [a, q], kw))[1]):
                c.true("exponent by the method asked for", len(calls) == 2 and calls[0][0] == {"det": "nu_tolerance", "d0ap": "nu_exp_d0ap", "ivp": "nu_exp_ivp"}[mode])
                c.eq("a", T.lift(calls[0][1]), a)
                c.eq("q", T.lift(calls[0][2]), q)
                for x, y in zip(calls[1][1:], (a, q, nu, nc if given else T.var("order", "I"), ng)):
                    c.eq("coefficients for", T.lift(x), y)
                c.eq("exponent", I.getattr(M, "nu"), nu)
                cs = I.getattr(M, "Cn")
                for x, n in zip(I.concrete_list(cs), ("CC", "CS")):
                    c.eq("coefficients", I.as_arr(x), I.new_arr((N(),), lambda i, n=n: T.fn(n, i), "R"))
                done += 1
            c.true("returns", done > 0)


for _m in ("det", "d0ap", "ivp"):
    init(_m)
