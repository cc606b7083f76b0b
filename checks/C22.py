"""C22: System.minimum and System.saddle hand over the potential, its gradient and its Hessian."""
import itertools
from checks.systems import *

INFO = {"build": True}
AXES = [a for k in (1, 2, 3) for a in itertools.permutations(range(3), k)]
COORD = T.var("c", "R")


class Result(object):
    """scipy.optimize.OptimizeResult"""
    def __init__(self, x, success):
        self.x, self.success = x, success

    def np_getattr(self, I, name):
        if name == "x":
            return self.x
        if name == "success":
            return self.success
        if name in ("message",):
            return T.var("message", "S")
        if name in ("fun", "jac", "hess", "nit", "status"):
            raise Unsupported("result." + name)
        raise PyExc(I.builtins["AttributeError"], (name,))


def cref(a, b, given):
    return T.fn("coord", (T.num(a), T.num(b))) if given else T.num(1 if a == b else 0, "R")


def world(c, minimize=None, rfo=None):
    I = c.interp()
    pyx.install(I)
    opt = Module("scipy.optimize", dict(minimize=Builtin("minimize", minimize or (lambda *a, **k: None))))
    I.extmods["scipy"] = Module("scipy", dict(optimize=opt, constants=Module("scipy.constants")))
    I.extmods["scipy.optimize"] = opt
    m = I.load(SYS)
    s = I.call(I.modget(m, "System"), [])
    I.contracts["electrode.system:System.potential"] = total_potential
    if rfo:
        I.contracts["electrode.saddle:rfo"] = lambda I, f, a, kw: rfo(I.bind_args(f, a, kw))
    return I, m, s


def at(point, axis, xi):
    """coordinates (in the given frame) with the varied ones replaced"""
    p = list(point)
    for k, a in enumerate(axis):
        p[a] = xi[k]
    return p


def frame(p, given):
    return [T.add(*[T.mul(cref(a, b, given), p[b]) for b in range(3)]) for a in range(3)]


def expect(p, axis, given):
    """value, gradient and Hessian of xi -> U(coord x(xi)) by the chain rule"""
    y = frame(p, given)
    v = D("tot", y, [])
    g = [T.add(*[T.mul(cref(a, i, given), D("tot", y, [a])) for a in range(3)]) for i in axis]
    h = [[T.add(*[T.mul(cref(a, i, given), cref(b, j, given), D("tot", y, [a, b])) for a in range(3) for b in range(3)]) for j in axis] for i in axis]
    return v, g, h


def xi_of(I, k, name):
    return I.new_arr((k,), lambda i: T.fn(name, i), "R"), [T.fn(name, (T.num(q),)) for q in range(k)]


START = {
    "float array": lambda I: I.new_arr((3,), lambda i: T.fn("x0", i), "R"),
    "integer tuple": lambda I: tuple(T.fn("x0", (T.num(i),), "I") for i in range(3)),
    "float list": lambda I: I.newlist([T.fn("x0", (T.num(i),)) for i in range(3)]),
}


def start(I, kind):
    s = "I" if kind == "integer tuple" else "R"
    return START[kind](I), [T.toreal(T.fn("x0", (T.num(i),), s)) for i in range(3)]


def scalar(I, v):
    """optimisers accept a scalar or an array with a single entry"""
    a = I.as_arr(v)
    if a.ndim and any(n != 1 for n in a.shape):
        raise Unsupported("value of shape %r" % (a.shape,))
    return I.elem(a, (T.num(0),) * a.ndim)


def dump(I, v):
    """nested list of the terms of an array of concrete shape: independent of the heap"""
    a = I.as_arr(v, "R")
    if not all(isinstance(n, int) for n in a.shape):
        raise Unsupported("array of unknown shape handed to the optimiser")
    if a.ndim == 1:
        return [I.elem(a, (T.num(i),)) for i in range(a.shape[0])]
    if a.ndim == 2:
        return [[I.elem(a, (T.num(i), T.num(j))) for j in range(a.shape[1])] for i in range(a.shape[0])]
    raise Unsupported("array of %d dimensions handed to the optimiser" % a.ndim)


def vec(I, l):
    return I.as_arr(I.newlist([I.newlist(list(x)) if isinstance(x, list) else x for x in l]), "R")


def mkmin(axis, given, kind):
    tag = "axis %r, %s, start as %s" % (axis, "any frame" if given else "default frame", kind)

    @ob("minimum: " + tag, ["electrode.system.System.minimum"])
    def g(c):
        calls = []

        def minimize(fun, x0, args=(), method=None, jac=None, hess=None, **kw):
            if args or not jac or not hess or kw.get("bounds") or kw.get("constraints"):
                raise Unsupported("minimize called in another way")
            I = cell[0]
            a, x = xi_of(I, len(axis), "xa")
            b, y = xi_of(I, len(axis), "xb")
            calls.append(("start", dump(I, x0)))
            # evaluated in some order at two points: no state of an earlier evaluation may leak
            fa, ga, hb, gb, fb, ha = (I.call(fun, [a]), I.call(jac, [a]), I.call(hess, [b]), I.call(jac, [b]), I.call(fun, [b]), I.call(hess, [a]))
            calls.append(("at", x, scalar(I, fa), dump(I, ga), dump(I, ha)))
            calls.append(("at", y, scalar(I, fb), dump(I, gb), dump(I, hb)))
            return Result(I.new_arr((len(axis),), lambda i: T.fn("xres", i), "R"), T.var("success", "B"))
        cell = []
        I, m, s = world(c, minimize)
        cell.append(I)
        x0, p0 = start(I, kind)
        kw = {}
        if axis != (0, 1, 2):
            kw["axis"] = axis
        if given:
            kw["coord"] = I.new_arr((3, 3), lambda i: T.fn("coord", i), "R")
        seen = set()
        for p in c.paths(lambda: I.call(I.getattr(s, "minimum"), [x0], kw)):
            ok = T.var("success", "B")
            if p.kind == "raise":
                seen.add("raise")
                c.true("raises only on failure", T.not_(ok))
                c.true("raises ValueError", p.value.cls is I.builtins["ValueError"])
                continue
            seen.add("ok")
            c.true("returns only on success", ok)
            res = [T.fn("xres", (T.num(i),)) for i in range(len(axis))]
            c.eq("point in the given frame", I.as_arr(p.value, "R"), vec(I, at(p0, axis, res)))
        c.true("both outcomes", seen == {"raise", "ok"})
        c.true("optimiser is used", len(calls) > 0)
        I.pc = []
        for call in calls[:3]:
            if call[0] == "start":
                c.eq("start of the optimiser", vec(I, call[1]), vec(I, [p0[a] for a in axis]))
                continue
            _, x, f, gr, h = call
            v, wg, wh = expect(at(p0, axis, x), axis, given)
            c.eq("function is the potential", f, v)
            c.eq("gradient", vec(I, gr), vec(I, wg))
            c.eq("Hessian", vec(I, h), vec(I, wh))


def mksad(axis, given, kind):
    tag = "axis %r, %s, start as %s" % (axis, "any frame" if given else "default frame", kind)

    @ob("saddle: " + tag, ["electrode.system.System.saddle"])
    def g(c):
        calls = []

        def rfo(b):
            I = cell[0]
            if I.length(b["args"]) != 0:
                raise Unsupported("rfo with args")
            fun, grad = b["fun"], b["grad"]
            h = b["h"]
            a, x = xi_of(I, len(axis), "xa")
            e, y = xi_of(I, len(axis), "xb")
            last, z = xi_of(I, len(axis), "xres")
            calls.append(("start", dump(I, b["x0"]), None if h is None else dump(I, h), [b[q] for q in ("xtol", "ftol", "maxiter", "dx_max", "cb")]))
            ga, fa, gb, fb = I.call(grad, [a]), I.call(fun, [a]), I.call(grad, [e]), I.call(fun, [e])
            calls.append(("at", x, scalar(I, fa), dump(I, ga)))
            calls.append(("at", y, scalar(I, fb), dump(I, gb)))
            # contract of rfo (C23): the last evaluation is at the point it returns
            fz = I.call(fun, [last])
            I.call(grad, [last])
            return (last, fz, T.var("ret", "S"))
        cell = []
        I, m, s = world(c, rfo=rfo)
        cell.append(I)
        x0, p0 = start(I, kind)
        kw = dict(maxiter=17)
        if axis != (0, 1, 2):
            kw["axis"] = axis
        if given:
            kw["coord"] = I.new_arr((3, 3), lambda i: T.fn("coord", i), "R")
            kw["dx_max"] = T.var("dxm")
        seen = set()
        good = T.or_(T.eq(T.var("ret", "S"), T.lift("ftol")), T.eq(T.var("ret", "S"), T.lift("xtol")))
        for p in c.paths(lambda: I.call(I.getattr(s, "saddle"), [x0], kw)):
            if p.kind == "raise":
                seen.add("raise")
                c.true("raises only on failure", T.not_(good))
                c.true("raises ValueError", p.value.cls is I.builtins["ValueError"])
                continue
            seen.add("ok")
            c.true("returns only on success", good)
            res = [T.fn("xres", (T.num(i),)) for i in range(len(axis))]
            x, v = p.value
            c.eq("point in the given frame", I.as_arr(x, "R"), vec(I, at(p0, axis, res)))
            c.eq("potential there", scalar(I, v), expect(at(p0, axis, res), axis, given)[0])
        c.true("both outcomes", seen == {"raise", "ok"})
        c.true("optimiser is used", len(calls) > 0)
        I.pc = []
        for call in calls[:3]:
            if call[0] == "start":
                c.eq("start of the optimiser", vec(I, call[1]), vec(I, [p0[a] for a in axis]))
                c.eq("Hessian at the start", vec(I, call[2]), vec(I, expect(p0, axis, given)[2]))
                c.eq("options", tuple(call[3]), (Fraction(1, 100000), Fraction(1, 100000), 17, T.var("dxm") if given else Fraction(1, 10), None))
                continue
            _, x, f, gr = call
            v, wg, wh = expect(at(p0, axis, x), axis, given)
            c.eq("function is the potential", f, v)
            c.eq("gradient", vec(I, gr), vec(I, wg))


from fractions import Fraction
for _a in AXES:
    for _g in (True, False):
        mkmin(_a, _g, "float array")
        mksad(_a, _g, "float array")
for _k in ("integer tuple", "float list"):
    for _a in ((0, 1, 2), (2,), (1, 0)):
        mkmin(_a, True, _k)
        mksad(_a, True, _k)
