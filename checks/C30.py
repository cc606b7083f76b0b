"""C30: quaternion algebra."""
from checks.xforms import *

INFO = {"build": True}
SMALL = T.num(Fraction(1, 10 ** 12), "R")       # norms below are treated as zero by the code
QN = ("quaternion_multiply", "quaternion_conjugate", "quaternion_inverse", "quaternion_matrix")


def kinds(I, v, kind):
    return arr(I, v) if kind == "array" else I.newlist(list(v)) if kind == "list" else tuple(v)


def call1(c, I, f, label, fn, args):
    """the result on the only path, arguments unchanged"""
    before = [I.copy_arr(a) if isinstance(a, Arr) else None for a in args]
    r = c.one(label, lambda: I.call(f(fn), list(args), {}))
    for k, (a, b) in enumerate(zip(args, before)):
        if b is not None:
            c.eq("%s.argument %d unchanged" % (label, k), a, b)
    return r


def check_rows(c, label, I, r, want):
    r = I.as_arr(r)
    want_shape = (len(want), len(want[0])) if isinstance(want[0], list) else (len(want),)
    if tuple(r.shape) != want_shape:
        return c.fail(label + ".shape", repr(r.shape))
    e = entries(I, r)
    for i, w in enumerate(want):
        if isinstance(w, list):
            for j, x in enumerate(w):
                c.eq("%s[%d,%d]" % (label, i, j), e[i][j], x)
        else:
            c.eq("%s[%d]" % (label, i), e[i], w)


def unit_matrix(p):
    """matrix of the quaternion p/|p|"""
    N = dot(p, p)
    w, x, y, z = p
    m = T.mul
    two = lambda a: T.div(T.mul(2, a), N)
    return [[T.sub(1, two(T.add(m(y, y), m(z, z)))), two(T.sub(m(x, y), m(z, w))), two(T.add(m(x, z), m(y, w)))],
            [two(T.add(m(x, y), m(z, w))), T.sub(1, two(T.add(m(x, x), m(z, z)))), two(T.sub(m(y, z), m(x, w)))],
            [two(T.sub(m(x, z), m(y, w))), two(T.add(m(y, z), m(x, w))), T.sub(1, two(T.add(m(x, x), m(y, y))))]]


def only(c, I, f, label, fn, args):
    """the single feasible path (the others contradict the assumptions on the norms)"""
    before = [I.copy_arr(a) if isinstance(a, Arr) else None for a in args]
    out = []
    for p in c.paths(lambda: I.call(f(fn), list(args), {})):
        if S.check(list(I.pc), 10000) == "unsat":
            continue
        if p.kind == "raise":
            c.fail(label + ".no exception", str(p.value))
            continue
        for k, (a, b) in enumerate(zip(args, before)):
            if b is not None:
                c.eq("%s.argument %d unchanged" % (label, k), a, b)
        out.append((p.value, list(I.pc), dict(I.heap)))
    if len(out) != 1:
        c.fail(label, "%d paths" % len(out), status="undecided")
        raise Stop()
    I.pc, I.heap = out[0][1], out[0][2]
    return out[0][0]


def mk(impl, kind):
    @ob("identities %s (%s)" % (kind, impl), funcs(*QN))
    def g(c):
        I, f = world(c, impl)
        p, q = vec("p", 4), vec("q", 4)
        A, B = kinds(I, p, kind), kinds(I, q, kind)
        conj = lambda v: [v[0]] + [T.neg(x) for x in v[1:]]
        r = call1(c, I, f, "product", "quaternion_multiply", [A, B])
        check_rows(c, "p q", I, r, hamilton(p, q))
        pq = entries(I, r)
        c.eq("norm is multiplicative", dot(pq, pq), T.mul(dot(p, p), dot(q, q)))
        r = call1(c, I, f, "conjugate", "quaternion_conjugate", [A])
        check_rows(c, "conjugate", I, r, conj(p))
        # conj(pq) = conj(q) conj(p); p conj(p) = |p|^2
        check_rows(c, "conjugate undoes", I, I.call(f("quaternion_multiply"), [A, r], {}), [dot(p, p)] + [T.num(0, "R")] * 3)
        cc = I.call(f("quaternion_conjugate"), [r], {})
        check_rows(c, "conjugate twice", I, cc, p)
        I.assume(T.lt(SMALL, dot(p, p)))
        I.assume(T.lt(SMALL, dot(q, q)))
        r = only(c, I, f, "inverse", "quaternion_inverse", [A])
        check_rows(c, "inverse", I, r, [T.div(x, dot(p, p)) for x in conj(p)])
        one = [T.num(1, "R")] + [T.num(0, "R")] * 3
        check_rows(c, "p inverse(p)", I, I.call(f("quaternion_multiply"), [A, r], {}), one)
        check_rows(c, "inverse(p) p", I, I.call(f("quaternion_multiply"), [r, A], {}), one)
        # matrices: of p, of q, of the product
        mats = {}
        for nm, v, V in (("p", p, A), ("q", q, B)):
            m = only(c, I, f, "matrix of " + nm, "quaternion_matrix", [V])
            check_rows(c, "matrix of " + nm, I, m, hom(unit_matrix(v)))
        # homomorphism: with the formula just proved, for the product
        mp, mq, mpq = unit_matrix(p), unit_matrix(q), unit_matrix(hamilton(p, q))
        pr = mul(mp, mq)
        for i in range(3):
            for j in range(3):
                c.eq("matrix of the product[%d,%d]" % (i, j), mpq[i][j], pr[i][j])
                c.eq("matrix of the conjugate[%d,%d]" % (i, j), unit_matrix(conj(p))[i][j], mp[j][i])


for impl in IMPL:
    for kind in ("array", "list", "tuple"):
        mk(impl, kind)


def mk_unit(impl):
    @ob("quaternion_matrix of a unit quaternion is Rodrigues (%s)" % impl, funcs("quaternion_matrix", "quaternion_about_axis", "rotation_matrix"))
    def g(c):
        I, f = world(c, impl)
        al = T.var("a", "R")
        d = vec("d")
        P_ = dot(d, d)
        I.assume(T.lt(SMALL, P_))
        L = T.sqrt(P_)
        D = arr(I, d)
        q = only(c, I, f, "quaternion", "quaternion_about_axis", [T.mul(2, al), D])
        e = entries(I, q)
        c.eq("unit norm", dot(e, e), T.num(1, "R"))
        ref = unit_matrix([cos(al)] + [T.div(T.mul(sin(al), x), L) for x in d])
        rod = rodrigues([T.div(x, L) for x in d], T.sub(1, T.mul(2, square(sin(al)))), T.mul(2, sin(al), cos(al)))
        for i in range(3):
            for j in range(3):
                c.eq("agrees with rotation_matrix[%d,%d]" % (i, j), ref[i][j], rod[i][j])
        for k, x in enumerate([cos(al)] + [T.div(T.mul(sin(al), x), L) for x in d]):
            c.eq("component %d" % k, e[k], x)
        r = only(c, I, f, "matrix", "rotation_matrix", [T.mul(2, al), D])
        r = entries(I, r)
        s2, c2 = sin(T.mul(2, al)), cos(T.mul(2, al))
        want = hom(rodrigues([T.div(x, L) for x in d], c2, s2))
        for i in range(4):
            for j in range(4):
                c.eq("rotation_matrix[%d,%d]" % (i, j), r[i][j], want[i][j])


for impl in IMPL:
    mk_unit(impl)


@ob("quaternion_real, quaternion_imag", [M + ".quaternion_real", M + ".quaternion_imag"])
def g(c):
    I, f = world(c, "py")
    q = symarr(I, "q", 4)
    b = I.copy_arr(q)
    c.eq("real", c.one("real", lambda: I.call(f("quaternion_real"), [q], {})), T.fn("q", (T.num(0),)))
    r = c.one("imag", lambda: I.call(f("quaternion_imag"), [q], {}))
    c.eq("imag", r, I.new_arr((3,), lambda i: T.fn("q", (T.add(i[0], 1),)), "R"))
    I.setitem(r, 0, T.num(7, "R"))
    c.eq("imag is a copy", q, b)
