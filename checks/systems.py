"""A symbolic System: any number of electrodes, each known only by the contract of Electrode.potential:
potential(x, derivative, potential, out) adds potential * phi(electrode, order, column, x_j) to out[j, column]
(a fresh zero array without out), and returns out."""
from pyvc.harness import *
from pyvc.values import FamRec
from pyvc import pyx

SYS, ELE = "electrode.system", "electrode.electrode"


def phi(e, order, col, x):
    return T.fn("phi", [T.lift(e), T.num(order), T.lift(col)] + [T.toreal(T.lift(v)) for v in x])


def electrode_potential(I, self, x, derivative=0, potential=1., out=None):
    d = I.py(derivative)
    if not isinstance(d, int):
        raise Unsupported("symbolic derivative order")
    x = I.as_arr(x)
    if x.ndim != 2:
        raise Unsupported("x of %d dimensions" % x.ndim)
    n = x.shape[0]
    if out is None:
        out = I.new_arr((n, 2 * d + 1), lambda i: T.num(0, "R"), "R")
    else:
        if out.ndim != 2 or out.shape[1] != 2 * d + 1:
            raise PyExc(I.builtins["ValueError"], ("shape of out",))
    add = I.new_arr((n, 2 * d + 1), lambda i: T.mul(T.toreal(T.lift(potential)), phi(self.idx, d, i[1], [I.elem(x, (i[0], T.num(k))) for k in range(3)])), "R")
    I.arr_assign(out, I.binop("+", out, add))
    return out


def load(c, mod=SYS):
    I = c.interp()
    pyx.install(I)
    return I, I.load(mod)


def system(c, I, m, fields=None, low=0, extra=()):
    """System of N electrodes with symbolic names and voltages"""
    N = T.var("Ne", "I")
    I.assume(T.le(low, N))
    f = dict(name=lambda i: T.fn("name", (i,), "S"), dc=lambda i: T.fn("dc", (i,)), rf=lambda i: T.fn("rf", (i,)))
    f.update(fields or {})
    fam = FamRec("electrodes", None, f, dict(potential=electrode_potential))
    fid = I.alloc(fam)
    cls = I.modget(m, "System")
    s = I.call(cls, [])
    lst = I.rec(s).attrs["__list__"]
    I.rec(lst).parts = (("comp", N, lambda i: T.TRUE, lambda i: (("one", SymObj(fid, i)),)),)
    return s, N, fid


def points(I, name="x", low=0):
    n = T.var("n", "I")
    I.assume(T.le(low, n))
    return n, I.new_arr((n, 3), lambda i: T.fn(name, i), "R")


def xj(j, name="x"):
    return [T.fn(name, (T.lift(j), T.num(k))) for k in range(3)]


def D(typ, j, idx):
    """partial derivative of the potential of kind typ at the point j (three coordinates): symmetric in its axes"""
    return T.fn("D" + typ, [T.toreal(T.lift(v)) for v in j] + [T.num(len(idx))] + [T.num(sum(1 for i in idx if i == a)) for a in range(3)])


def total_potential(I, f, args, kw):
    """contract of System.potential (C05): the fully expanded derivative tensor of the total potential, one slice per point"""
    b = I.bind_args(f, args, kw)
    d, typ, x = I.py(b["derivative"]), b["typ"], I.as_arr(b["x"], "R")
    if typ != "tot" or not isinstance(d, int):
        raise Unsupported("potential(%r, %r)" % (d, typ))
    if x.ndim == 1:
        f0 = I.freeze_arr(x)
        x = I.new_arr((1, 3), lambda i: f0((i[1],)), "R")
    xf = I.freeze_arr(x)

    def at(p, done, rest):
        if not rest:
            return D("tot", p, done)
        if rest[0].op == "num":
            return at(p, done + [int(rest[0].args[0])], rest[1:])
        v = [at(p, done + [k], rest[1:]) for k in range(3)]
        return T.ite(T.eq(rest[0], 0), v[0], T.ite(T.eq(rest[0], 1), v[1], v[2]))
    return I.new_arr((x.shape[0],) + (3,) * d, lambda i: at([xf((i[0], T.num(k))) for k in range(3)], [], list(i[1:])), "R")
