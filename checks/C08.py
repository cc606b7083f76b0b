"""C08: rotate_tensor."""
import itertools
from pyvc.harness import *

U = "electrode.utils"
FUNCS = ["electrode.utils.rotate_tensor"]


def contract(r, src, lead, t):
    """sum over old indices s of src[lead+s] * prod r[s_k, t_k]"""
    out = []
    for s in itertools.product(range(3), repeat=len(t)):
        out.append(T.mul(src(tuple(lead) + tuple(T.num(x) for x in s)), *[r(a, b) for a, b in zip(s, t)]))
    return T.add(*out)


def mk(order, kind, explicit):
    @ob("rotate_tensor(order=%d%s, %s)" % (order, "" if explicit else " by default", kind), FUNCS)
    def f(c):
        I = c.interp()
        m = I.load(U)
        n, k = T.var("n", "I"), T.var("m", "I")
        I.assume(T.le(0, n))
        I.assume(T.le(0, k))
        sh = {"point": (), "points": (n,), "grid": (n, k), "one": (1,), "extra": (n, 3)}[kind]
        src = I.new_arr(sh + (3,) * order, lambda i: T.fn("c", i), "R")
        r = I.new_arr((3, 3), lambda i: T.fn("r", i), "R")
        d = c.one("call", lambda: I.call(I.modget(m, "rotate_tensor"), [src, r] + ([order] if explicit else [])))
        want = I.new_arr(sh + (3,) * order, lambda ix: contract(
            lambda a, b: T.fn("r", (T.num(a), T.num(b))), lambda i: T.fn("c", i), ix[:len(sh)],
            [int(x.args[0]) for x in ix[len(sh):]]), "R")
        c.eq("contraction", d, want)
        ld = tuple(T.num(0) if x == 1 else T.var("p%d" % q, "I") for q, x in enumerate(sh)) + (T.num(0),) * order
        c.eq("source unchanged", I.elem(src, ld), T.fn("c", ld))


def comp(order):
    @ob("composition and inverse, order %d" % order, FUNCS)
    def f(c):
        """lemma over the contract: stated for one point of a symbolic family"""
        I = c.interp()
        m = I.load(U)
        n = T.var("n", "I")
        I.assume(T.le(0, n))
        rot = lambda t, r: I.call(I.modget(m, "rotate_tensor"), [t, r, order])
        src = I.new_arr((n,) + (3,) * order, lambda i: T.fn("c", i), "R")
        r1 = I.new_arr((3, 3), lambda i: T.fn("r", i), "R")
        r2 = I.new_arr((3, 3), lambda i: T.fn("s", i), "R")
        r12 = I.new_arr((3, 3), lambda i: T.add(*[T.mul(T.fn("r", (i[0], T.num(k))), T.fn("s", (T.num(k), i[1]))) for k in range(3)]), "R")
        if order <= 3:
            a = c.one("two steps", lambda: rot(rot(src, r1), r2))
            b = c.one("one step", lambda: rot(src, r12))
            c.eq("composes", a, b)


for _o in range(6):
    for _k in ("points", "grid", "one"):
        mk(_o, _k, True)
    mk(_o, "points", False)
    mk(_o, "point", True)
    if _o < 4:
        mk(_o, "extra", True)
for _o in range(1, 4):
    comp(_o)
