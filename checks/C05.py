"""C05: pseudopotential."""
import itertools
from checks.systems import *

INFO = {"build": True}
F = ["electrode.system.System." + n for n in ("pseudo_potential", "potential", "rf_scale")]
PAR = ["x", "derivative", "typ", "expand"]


def world(c, kind="points", coeff=True):
    I, m = load(c)
    cls = I.modget(m, "System")
    s = I.call(cls, [])
    n = T.var("n", "I")
    I.assume(T.le(0, n))
    calls = []

    def electrical(I, f, args, kw):
        """contract (C04, C06, C01): the fully expanded derivative tensor of the typ potential, one slice per row of x"""
        b = I.bind_args(f, args, kw)
        d, typ, ex, x = I.py(b["derivative"]), b["typ"], b["expand"], b["x"]
        calls.append((d, typ, ex))
        x = I.as_arr(x, "R")
        if x.ndim == 1:
            f0 = I.freeze_arr(x)
            x = I.new_arr((1, 3), lambda i: f0((i[1],)), "R")
        xf = I.freeze_arr(x)
        if not isinstance(d, int) or ex is not True or typ not in ("dc", "rf"):
            raise Unsupported("electrical_potential(%r, %r, %r)" % (d, typ, ex))
        return I.new_arr((x.shape[0],) + (3,) * d, lambda i: D(typ, [xf((i[0], T.num(k))) for k in range(3)], [int(k.args[0]) for k in i[1:]]), "R")
    I.contracts["electrode.system:System.electrical_potential"] = electrical
    rows = n if kind == "points" else 1
    X = [I.new_arr((n, 3), lambda i: T.fn("x", i), "R") if kind == "points" else I.new_arr((3,), lambda i: T.fn("x", i), "R")]
    row = (lambda j: xj(j)) if kind == "points" else (lambda j: [T.fn("x", (T.num(k),)) for k in range(3)])
    k = T.var("rf_coeff")
    if coeff:
        I.setattr(s, "rf_coeff", k)
    return I, m, s, rows, X[0], k, row


def pseudo(k, j, idx):
    """Leibniz rule on k^2 sum_a (d_a phi)^2"""
    out = []
    for a in range(3):
        for sel in itertools.product((0, 1), repeat=len(idx)):
            p = [a] + [i for i, z in zip(idx, sel) if z]
            q = [a] + [i for i, z in zip(idx, sel) if not z]
            out.append(T.mul(D("rf", j, p), D("rf", j, q)))
    return T.mul(k, k, T.add(*out))


def ints(ix):
    return [int(a.args[0]) for a in ix]


def mk(order, kind):
    @ob("pseudo_potential order %d, %s" % (order, kind), F[:1])
    def g(c):
        I, m, s, n, x, k, row = world(c, kind)
        r = c.one("call", lambda: I.call(I.getattr(s, "pseudo_potential"), [x, order]))
        want = I.new_arr((n,) + (3,) * order, lambda i: pseudo(k, row(i[0]), ints(i[1:])), "R")
        c.eq("gradient tensor", r, want)

    @ob("potential order %d, %s" % (order, kind), F[1:2])
    def h(c):
        I, m, s, n, x, k, row = world(c, kind)
        rf = lambda i: pseudo(k, row(i[0]), ints(i[1:]))
        dc = lambda i: D("dc", row(i[0]), ints(i[1:]))
        for typ, w in (("tot", lambda i: T.add(dc(i), rf(i))), ("dc", dc), ("rf", rf), (None, lambda i: T.add(dc(i), rf(i)))):
            r = c.one(str(typ), lambda: I.call(I.getattr(s, "potential"), [x, order] + ([typ] if typ else [])))
            c.eq("typ %s" % typ, r, I.new_arr((n,) + (3,) * order, w, "R"))


def isexc(c, I, label, thunk, name):
    for p in c.paths(thunk):
        if p.kind != "raise":
            c.fail(label, "returns %r" % (p.value,))
        else:
            c.true(label, p.value.cls is I.builtins[name])


@ob("orders and types that are not implemented", F)
def bad(c):
    I, m, s, n, x, k, row = world(c)
    for o in (5, 6):
        isexc(c, I, "order %d raises ValueError" % o, lambda: I.call(I.getattr(s, "pseudo_potential"), [x, o]), "ValueError")
    isexc(c, I, "unknown typ raises ValueError", lambda: I.call(I.getattr(s, "potential"), [x, 1, "ac"]), "ValueError")


@ob("rf_scale", F[2:])
def scale(c):
    I, m, s, n, x, k, row = world(c, coeff=False)
    a = [T.var(v) for v in "mqlo"]
    M, Q, L, O = a
    pos = [T.lt(0, v) for v in (M, Q, L, O)]
    for v in pos:
        I.assume(v)
    r = c.one("call", lambda: I.call(I.getattr(s, "rf_scale"), [M, Q, L, O]))
    want = T.div(T.sqrt(T.div(Q, M)), T.mul(2, L, O))
    c.eq("value", r, want)
    c.eq("stored", I.getattr(s, "rf_coeff"), want)
    c.eq("square", T.mul(r, r), T.div(Q, T.mul(4, M, L, L, O, O)))


for _o in range(5):
    for _k in ("points", "one point"):
        mk(_o, _k)
