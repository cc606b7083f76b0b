"""C10: area_centroid."""
from pyvc.harness import *

U = "electrode.utils"
FUNCS = ["electrode.utils.area_centroid"]


def setup(c, low=1):
    I = c.interp()
    m = I.load(U)
    n = T.var("n", "I")
    I.assume(T.le(low, n))
    p = I.new_arr((n, 2), lambda i: T.fn("p", i), "R")
    return I, (lambda a: I.call(I.modget(m, "area_centroid"), [a])), n, p


def contract(I, n):
    """area_centroid by its contract, the shoelace formulas (obligation "shoelace area and centroid")"""
    def f(p):
        at = lambda i, d: I.elem(p, (T.lift(i), d))
        k = T.var("k", "I")
        j = nxt(k, n)
        cr = T.sub(T.mul(at(k, 0), at(j, 1)), T.mul(at(j, 0), at(k, 1)))
        A = T.div(T.summ(k, 0, n, cr), 2)
        cs = [T.div(T.summ(k, 0, n, T.mul(T.add(at(k, d), at(j, d)), cr)), T.mul(6, A)) for d in range(2)]
        return A, I.new_arr((2,), lambda i: cs[int(i[0].args[0])], "R")
    return f


def P(i, k):
    return T.fn("p", (T.lift(i), T.num(k)))


def nxt(i, n):
    return T.ite(T.lt(T.add(i, 1), n), T.add(i, 1), T.num(0))


def cross(i, j):
    return T.sub(T.mul(P(i, 0), P(j, 1)), T.mul(P(j, 0), P(i, 1)))


@ob("shoelace area and centroid", FUNCS)
def shoelace(c):
    I, call, n, p = setup(c)
    a, cen = c.one("call", lambda: call(p))
    k = T.var("k", "I")
    A = T.div(T.summ(k, 0, n, cross(k, nxt(k, n))), 2)
    c.eq("area", a, A)
    cen = I.as_arr(cen)
    c.true("centroid has two coordinates", cen.ndim == 1 and cen.shape[0] == 2)
    for d in range(2):
        want = T.div(T.summ(k, 0, n, T.mul(T.add(P(k, d), P(nxt(k, n), d)), cross(k, nxt(k, n)))), T.mul(6, A))
        c.eq("centroid[%d]" % d, I.elem(cen, (d,)), want, pc=[T.not_(T.eq(A, 0))])


@ob("orientation: unit square", FUNCS)
def square(c):
    """anchors the sign and scale of the formulae: counter-clockwise squares of side s at (u, v)"""
    I, call, n, p = setup(c)
    u, v, s = T.var("u"), T.var("v"), T.var("s")
    pts = [(u, v), (T.add(u, s), v), (T.add(u, s), T.add(v, s)), (u, T.add(v, s))]
    for rev in (False, True):
        q = pts[::-1] if rev else pts
        arr = I.new_arr((4, 2), lambda i: q[int(i[0].args[0])][int(i[1].args[0])], "R")
        a, cen = c.one("call", lambda: call(arr))
        c.eq("area%s" % rev, a, T.mul(-1 if rev else 1, s, s), pc=[T.lt(0, s)])
        for d in range(2):
            c.eq("centroid%s%d" % (rev, d), I.elem(I.as_arr(cen), (d,)), T.add((u, v)[d], T.div(s, 2)), pc=[T.lt(0, s)])


@ob("cyclic renumbering", FUNCS)
def cyclic(c):
    """P'[i] = P[i+1 mod n]: one step generates every cyclic renumbering; sums over a full cycle are shifted
    by splitting off the first and the last term (lemma shift_sum)"""
    I, call, n, p = setup(c, 2)
    call = contract(I, n)
    q = I.new_arr((n, 2), lambda i: T.fn("p", (nxt(i[0], n), i[1])), "R")
    a, cen = c.one("call", lambda: call(p))
    b, cen2 = c.one("call", lambda: call(q))
    shift_eq(c, "area", a, b, n)
    for d in range(2):
        shift_eq(c, "centroid[%d]" % d, I.elem(I.as_arr(cen), (d,)), I.elem(I.as_arr(cen2), (d,)), n)


def peel(t, n, last):
    """every sum over 0..n-1 rewritten as its first n-1 terms plus the last (or its last n-1 terms, shifted, plus the first):
    valid for n >= 1"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        ch = T.children(x)
        if x.op == "sum" and x.args[2] is n and T.isnum(x.args[1]) and T.numval(x.args[1]) == 0:
            k, lo, hi, b = x.args
            m1 = T.sub(n, 1)
            if last:
                r = T.add(T.summ(k, 0, m1, b), T.subst(b, {k: m1}))
            else:
                r = T.add(T.summ(k, 0, m1, T.subst(b, {k: T.add(k, 1)})), T.subst(b, {k: T.num(0)}))
        elif not ch:
            r = x
        else:
            n2 = [go(y) for y in ch]
            r = x if all(u is v for u, v in zip(ch, n2)) else T.rebuild(x, n2)
        memo[x] = r
        return r
    return go(T.lift(t))


def interior(t, n, pc):
    """inside sums over 0 <= k < n-1 the wrap-around condition is decided"""
    memo = {}

    def go(x, ctx):
        key = (x, tuple(ctx))
        if key in memo:
            return memo[key]
        ch = T.children(x)
        if x.op == "sum":
            k, lo, hi, b = x.args
            c2 = ctx + [T.le(lo, k), T.lt(k, hi)]
            r = T.summ(k, lo, hi, go(b, c2))
        elif x.op == "ite":
            cnd = x.args[0]
            if S.entails(pc + ctx, cnd):
                r = go(x.args[1], ctx)
            elif S.entails(pc + ctx, T.not_(cnd)):
                r = go(x.args[2], ctx)
            else:
                r = T.ite(go(cnd, ctx), go(x.args[1], ctx), go(x.args[2], ctx))
        elif not ch:
            r = x
        else:
            n2 = [go(y, ctx) for y in ch]
            r = x if all(u is v for u, v in zip(ch, n2)) else T.rebuild(x, n2)
        memo[key] = r
        return r
    return go(T.lift(t), [])


def shift_eq(c, label, a, b, n):
    pc = list(c.I.pc)
    ok = None
    x = interior(peel(a, n, False), n, pc)
    y = interior(peel(b, n, True), n, pc)
    return c.eq(label, x, y)


@ob("reversal negates the area", FUNCS)
def reverse(c):
    I, call, n, p = setup(c, 2)
    call = contract(I, n)
    q = I.new_arr((n, 2), lambda i: T.fn("p", (T.sub(T.sub(n, 1), i[0]), i[1])), "R")
    a, cen = c.one("call", lambda: call(p))
    b, cen2 = c.one("call", lambda: call(q))

    def flip(t):
        """sum over 0..m-1 of f(k) = sum over 0..m-1 of f(m-1-k)"""
        memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            ch = T.children(x)
            if x.op == "sum":
                k, lo, hi, bd = x.args
                r = T.summ(k, lo, hi, T.subst(bd, {k: T.sub(T.sub(T.add(lo, hi), 1), k)}))
            elif not ch:
                r = x
            else:
                n2 = [go(y) for y in ch]
                r = x if all(u is v for u, v in zip(ch, n2)) else T.rebuild(x, n2)
            memo[x] = r
            return r
        return go(T.lift(t))
    pc = list(I.pc)
    x = interior(peel(a, n, True), n, pc)
    y = flip(interior(peel(b, n, True), n, pc))
    c.eq("area", T.neg(x), y)
    for d in range(2):
        x = interior(peel(I.elem(I.as_arr(cen), (d,)), n, True), n, pc)
        y = flip(interior(peel(I.elem(I.as_arr(cen2), (d,)), n, True), n, pc))
        c.eq("centroid[%d]" % d, x, y)


@ob("translation", FUNCS)
def translate(c):
    I, call, n, p = setup(c, 2)
    call = contract(I, n)
    t = [T.var("tx"), T.var("ty")]
    q = I.new_arr((n, 2), lambda i: T.add(T.fn("p", i), T.ite(T.eq(i[1], 0), t[0], t[1])), "R")
    a, cen = c.one("call", lambda: call(p))
    b, cen2 = c.one("call", lambda: call(q))
    pc = list(I.pc)
    # telescoping lemma: the sum of (f(k+1) - f(k)) over the closed boundary vanishes: normalise both sides with
    # sum f(next k) = sum f(k) for every summand that is a function of one vertex only
    k = T.var("k", "I")

    def tele(t):
        return interior(peel(t, n, True), n, pc)
    A = T.summ(k, 0, n, cross(k, nxt(k, n)))
    x, y = cyc(a, n), cyc(b, n)
    c.eq("area", x, y)
    for d in range(2):
        # c' * area' = (c + t) * area
        e1 = T.mul(I.elem(I.as_arr(cen2), (d,)), b)
        e2 = T.mul(T.add(I.elem(I.as_arr(cen), (d,)), t[d]), a)
        c.eq("centroid[%d]" % d, cyc(e1, n), cyc(e2, n))


def cyc(t, n):
    """canonical cyclic sums: expand each summand over the boundary into monomials in the coordinates of vertex k and of
    its successor; monomials in the successor alone are moved to vertex k (sum over a cycle is shift invariant)"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        ch = T.children(x)
        if x.op == "sum" and x.args[2] is n:
            k = x.args[0]
            b = x.args[3]
            nx = nxt(k, n)
            cond = None
            names = {}
            # coordinates of the successor as fresh variables
            b2 = split(b, k, n, names)
            from pyvc.nf import NF, decode
            N = NF()
            p = N.poly(b2)
            inv = {v: key for key, v in names.items()}
            out = []
            for m, a in p.items():
                fs = []
                onlynext = True
                anyv = False
                for i, e in decode(m):
                    tm = N.atoms[i]["term"]
                    fs.append((tm, e))
                    if tm in inv:
                        anyv = True
                        if inv[tm][0] != "next":
                            onlynext = False
                if anyv and onlynext:
                    fs = [(names.setdefault(("this", inv[tm][1]), T.var("this%d" % inv[tm][1])) if tm in inv else tm, e) for tm, e in fs]
                    for key, v in names.items():
                        inv.setdefault(v, key)
                back = []
                for tm, e in fs:
                    if tm in inv:
                        w, dd = inv[tm]
                        tm = P(k, dd) if w == "this" else T.fn("p", (nx, T.num(dd)))
                    back.append(T.power(tm, e))
                out.append(T.mul(T.num(a, "R"), *back))
            r = T.summ(k, x.args[1], n, T.add(*out))
        elif not ch:
            r = x
        else:
            n2 = [go(y) for y in ch]
            r = x if all(u is v for u, v in zip(ch, n2)) else T.rebuild(x, n2)
        memo[x] = r
        return r
    return go(T.lift(t))


def split(b, k, n, names):
    """p(k,d) -> this_d; p(successor of k, d) -> next_d (whatever way the successor is written, decided by z3)"""
    rng = [T.le(0, k), T.lt(k, n)]

    def rep(x):
        for w, e in (("this", k), ("next", nxt(k, n))):
            if S.entails(rng, T.eq(x.args[1], e)):
                dd = int(x.args[2].args[0])
                return names.setdefault((w, dd), T.var("%s%d" % (w, dd)))
        return None
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        ch = T.children(x)
        r = None
        if x.op == "fn" and x.args[0] == "p":
            r = rep(x)
        if r is None and x.op == "ite":
            c1, u, v = x.args
            # an element selected by the wrap-around condition
            if u.op == "fn" and v.op == "fn" and u.args[0] == v.args[0] == "p" and u.args[2] is v.args[2]:
                y = T.fn("p", (T.ite(c1, u.args[1], v.args[1]), u.args[2]))
                r = rep(y)
        if r is None:
            if not ch:
                r = x
            else:
                n2 = [go(y) for y in ch]
                r = x if all(a is b2 for a, b2 in zip(ch, n2)) else T.rebuild(x, n2)
        memo[x] = r
        return r
    return go(b)
