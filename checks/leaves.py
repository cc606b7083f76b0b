"""The leaf terms of the kernels in the ring of edge_algebra.  Shared by C01, C02, C03."""
import itertools
from pyvc.harness import *
from checks import kernels as K, edge_algebra as EA
from pyvc import prover as P

FUNCS = lambda *n: ["electrode.cexpressions." + x for x in n] + ["electrode.expressions." + x for x in n]
ENV = {"point": EA.POINT, "edge": EA.COORD}
U = "electrode.utils"


def expansion(c, order):
    """components of the fully expanded tensor of the real utils.expand_tensor in terms of the reduced ones: {index: Term in q0..}"""
    I, m = K.load(c, U)
    if order == 0:
        return {(): T.var("q0")}
    src = I.new_arr((1, 2 * order + 1), lambda i: T.var("q%d" % int(i[1].args[0])) if isinstance(i[1], Term) else T.var("q%d" % i[1]), "R")
    d = I.as_arr(c.one("expand_tensor", lambda: I.call(I.modget(m, "expand_tensor"), [src, order])))
    return {t: T.lift(I.scalar(I.elem(d, (T.num(0),) + tuple(T.num(k) for k in t)))) for t in itertools.product(range(3), repeat=order)}


def ring(c, label, ok, note=""):
    c.record(label, P.Res("proved" if ok else "refuted", "polynomial normal form", note))


def expanded(c, impl, kind, order):
    pre = [lambda v: T.not_(T.eq(v["z"], 0))] if (kind, order) == ("edge", 0) else []
    v, t = K.leaf(c, impl, kind, order, pre)
    memo = {}
    e = {"q%d" % k: EA.evaluate(x, ENV[kind], memo) for k, x in enumerate(t)}
    memo = {}
    return {i: EA.evaluate(x, e, memo) for i, x in expansion(c, order).items()}


def closes(kind, order, e):
    """e vanishes, or (edges) is the difference of a function of the second and of the first vertex - a combination of the
    derivatives of 1/r of the given order, the only candidates - and so cancels round every closed polygon"""
    if e.zero():
        return True
    if kind != "edge":
        return False
    if order not in VERTEX:
        inv = [EA.Fr(EA.A, (1, 1, 0, 0, 0)), EA.Fr(EA.A, (1, 0, 1, 0, 0))]
        cand = []
        for k in range(order + 1):
            for nz in (0, 1):           # z to the power 0 or 1: the others follow from Laplace's equation
                if k + nz > order:
                    continue
                ax = [2] * nz + [0] * k + [1] * (order - k - nz)
                f = inv
                for q in ax:
                    f = [EA.D(x, q) for x in f]
                cand.append(f[1] - f[0])
        VERTEX[order] = cand
    cand = VERTEX[order]
    d = tuple(max(v) for v in zip(e.d, *[x.d for x in cand]))
    polys = [x.lift(d) for x in cand] + [e.lift(d)]
    mons = set()
    for p in polys:
        mons.update(p.keys())
    # sum_i lam_i cand_i = e, coefficient by coefficient
    rows = {}
    n = len(cand)
    for m in mons:
        row = [p.get(m, 0) for p in polys]
        for piv, r in rows.items():
            if row[piv]:
                f = row[piv]
                row = [x - f * y for x, y in zip(row, r)]
        piv = next((i for i in range(n) if row[i]), None)
        if piv is None:
            if row[n]:
                return False
            continue
        row = [x / row[piv] for x in row]
        for q, r in list(rows.items()):
            if r[piv]:
                f = r[piv]
                rows[q] = [x - f * y for x, y in zip(r, row)]
        rows[piv] = row
    return True


VERTEX = {}


def angle(c, impl):
    """numerator and denominator of the single atan2 and its prefactor: E0 = pref * atan2(n, d)"""
    v, t = K.leaf(c, impl, "edge", 0, [lambda v: T.not_(T.eq(v["z"], 0))])
    t = t[0]
    found = []

    def go(x):
        if x.op in ("atan2", "atan"):
            found.append(x)
            return T.var("theta")
        ch = T.children(x)
        return x if not ch else T.rebuild(x, [go(y) for y in ch])
    p = go(t)
    if len(set(found)) != 1:
        raise Unsupported("potential of an edge is not a multiple of one angle")
    q = EA.Fr(EA.R(1))
    env = dict(EA.COORD)
    env["theta"] = q
    zero = dict(EA.COORD)
    zero["theta"] = EA.ZERO
    if not EA.evaluate(p, zero, {}).zero():
        raise Unsupported("potential of an edge is not a multiple of one angle")
    memo = {}
    args = found[0].args
    if found[0].op == "atan":
        args = fraction(args[0])
    n, d = [EA.evaluate(x, EA.COORD, memo) for x in args]
    return v, EA.evaluate(p, env, {}), n, d


def fraction(t):
    if t.op == "mul":
        return (T.mul(T.num(t.args[0]), *[T.power(x, e) for x, e in t.args[1] if e > 0]), T.mul(*[T.power(x, -e) for x, e in t.args[1] if e < 0] or [T.num(1, "R")]))
    return t, T.num(1, "R")


def edge_facts(c, v):
    """lemma: r1 r2 + x1 x2 + y1 y2 >= 0 when r = |(x, y, z)|, from (r1 r2)^2 - (x1 x2 + y1 y2)^2 being a sum of squares"""
    x1, x2, y1, y2, z, r1, r2 = [v[n] for n in ("x1", "x2", "y1", "y2", "z", "r1", "r2")]
    s = T.add(T.mul(x1, x2), T.mul(y1, y2))
    q1 = T.add(T.mul(x1, x1), T.mul(y1, y1), T.mul(z, z))
    q2 = T.add(T.mul(x2, x2), T.mul(y2, y2), T.mul(z, z))
    sos = T.add(T.power(T.sub(T.mul(x1, y2), T.mul(x2, y1)), 2), T.mul(z, z, T.add(T.mul(x1, x1), T.mul(y1, y1), T.mul(x2, x2), T.mul(y2, y2), T.mul(z, z))))
    c.eq("lemma: |v1|^2 |v2|^2 - (v1.v2)^2 is a sum of squares", T.sub(T.mul(q1, q2), T.mul(s, s)), sos, pc=[])
    R, S_ = T.var("R"), T.var("S")
    c.true("lemma: R >= 0 and R^2 >= S^2 imply R + S >= 0", T.or_(T.lt(R, 0), T.lt(T.mul(R, R), T.mul(S_, S_)), T.le(0, T.add(R, S_))), pc=[])
    return [T.not_(T.eq(z, 0)), T.lt(0, r1), T.lt(0, r2), T.le(0, T.add(T.mul(r1, r2), s))], None


def to_atan(c, t, facts):
    """atan2(n, d) = atan(n/d) where d > 0"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        ch = [go(y) for y in T.children(x)]
        if x.op == "atan2":
            c.true("denominator of atan2 is positive", T.lt(0, ch[1]), pc=facts)
            r = T.unary("atan", T.div(ch[0], ch[1]))
        elif not ch:
            r = x
        else:
            r = T.rebuild(x, ch)
        memo[x] = r
        return r
    return go(t)


def smooth(impl):
    @ob("edge potential is differentiable off the plane, %s" % impl.split(".")[1], FUNCS(K.FN["edge"]))
    def h(c):
        v, t = K.leaf(c, impl, "edge", 0, [lambda v: T.not_(T.eq(v["z"], 0))])
        facts, _ = edge_facts(c, v)
        n0 = len(c.items)
        to_atan(c, t[0], facts)

        def go(x):
            if x.op == "atan":
                c.true("denominator of the argument of atan is positive", T.lt(0, fraction(x.args[0])[1]), pc=facts)
            for y in T.children(x):
                go(y)
        go(t[0])
        c.true("one angle", len(c.items) > n0)


def linear(impl, kind, order):
    @ob("%s leaf order %d is linear in the voltage, %s" % (kind, order, impl.split(".")[1]), FUNCS(K.FN[kind]))
    def g(c):
        v, t = K.leaf(c, impl, kind, order, [lambda v: T.not_(T.eq(v["z"], 0))])
        for k, x in enumerate(t):
            c.eq("d[%d]" % k, x, T.mul(v["a"], T.subst(x, {v["a"]: T.num(1, "R")})))
