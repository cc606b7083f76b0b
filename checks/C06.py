"""C06: expand_tensor / select_tensor."""
import itertools
from pyvc.harness import *
from checks.spec import harmonic_basis

U = "electrode.utils"
FUNCS = ["electrode.utils.expand_tensor", "electrode.utils.select_tensor", "electrode.utils._populate_maps",
         "electrode.utils.find_laplace", "electrode.utils.idx_to_name", "electrode.utils.name_to_idx",
         "electrode.utils.idx_to_nidx"]


def lead(I, kind):
    n, m = T.var("n", "I"), T.var("m", "I")
    I.assume(T.le(0, n))
    I.assume(T.le(0, m))
    return {"point": (), "points": (n,), "grid": (n, m)}[kind]


def names(I, m, order):
    return [I.call(I.modget(m, "deriv_to_name"), [order, i]) for i in range(2 * order + 1)]


def elems(I, a, idx):
    return I.elem(a, tuple(idx))


def mk(order, kind):
    @ob("expand_tensor(order=%d, %s)" % (order, kind), FUNCS[:1] + FUNCS[2:])
    def expand(c):
        I = c.interp()
        m = I.load(U)
        sh = lead(I, kind)
        src = I.new_arr(sh + (2 * order + 1,), lambda i: T.fn("c", i), "R")
        nm = names(I, m, order)
        c.true("2n+1 names", len(set(nm)) == 2 * order + 1 and all(len(s) == order for s in nm))
        for args in ([src], [src, order]):
            d = I.as_arr(c.one("call", lambda: I.call(I.modget(m, "expand_tensor"), list(args))))
            tag = "" if len(args) == 1 else " explicit order"
            want = sh + (3,) * order
            if not c.true("shape" + tag, d.ndim == len(want)):
                return
            for k, (x, y) in enumerate(zip(d.shape, want)):
                c.eq("shape[%d]%s" % (k, tag), T.lift(x), T.lift(y))
            ld = [T.var("p%d" % k, "I") for k in range(len(sh))]
            for v, s in zip(ld, sh):
                I.assume(T.le(0, v))
                I.assume(T.lt(v, s))
            get = lambda t: elems(I, d, ld + [T.num(x) for x in t])
            for i, s in enumerate(nm):
                c.eq("entry %s%s" % (s, tag), get(["xyz".index(ch) for ch in s]), elems(I, src, ld + [T.num(i)]))
            for t in itertools.product(range(3), repeat=order):
                if t != tuple(sorted(t)):
                    c.eq("symmetry %s%s" % (t, tag), get(t), get(sorted(t)))
            if order >= 2:
                for t in itertools.product(range(3), repeat=order - 2):
                    c.eq("trace %s%s" % (t, tag), T.add(*[get((a, a) + t) for a in range(3)]), T.num(0))
        # the source is not written
        c.eq("source unchanged", elems(I, src, ld + [T.num(0)]), T.fn("c", ld + [T.num(0)]))

    @ob("select_tensor(order=%d, %s)" % (order, kind), FUNCS)
    def select(c):
        I = c.interp()
        m = I.load(U)
        sh = lead(I, kind)
        nm = names(I, m, order)
        src = I.new_arr(sh + (2 * order + 1,), lambda i: T.fn("c", i), "R")
        ex, sel = I.modget(m, "expand_tensor"), I.modget(m, "select_tensor")
        d = I.as_arr(c.one("expand", lambda: I.call(ex, [src])))
        for args in [[d, order]] + ([[d]] if kind == "points" else []):
            r = c.one("select", lambda: I.call(sel, args))
            c.eq("select(expand(c)) = c", r, src)
        # the other direction: a symmetric traceless tensor, given by its values at sorted indices
        def sym(t):
            t = tuple(sorted(t))
            s = "".join("xyz"[x] for x in t)
            if s in nm:
                return {s: 1}
            return None
        ld = [T.var("p%d" % k, "I") for k in range(len(sh))]
        for v, s in zip(ld, sh):
            I.assume(T.le(0, v))
            I.assume(T.lt(v, s))
        basis = harmonic_basis(order, nm)
        if not c.true("names form a basis of the harmonic tensors", basis is not None):
            return

        def tens(idx):
            pre, t = idx[:len(sh)], idx[len(sh):]
            r = T.num(0, "R")
            for u in itertools.product(range(3), repeat=order):
                cond = T.and_(*[T.eq(a, b) for a, b in zip(t, u)])
                if cond is T.FALSE:
                    continue
                val = T.add(*[T.mul(T.num(q), T.fn("h", pre + (T.num(k),))) for k, q in basis[tuple(sorted(u))].items()]) \
                    if basis[tuple(sorted(u))] else T.num(0, "R")
                r = T.add(r, val if cond is T.TRUE else T.ite(cond, val, T.num(0, "R")))
            return r
        t = I.new_arr(sh + (3,) * order, tens, "R")
        r = c.one("select2", lambda: I.call(sel, [t, order]))
        b = c.one("expand2", lambda: I.call(ex, [r]))
        c.eq("expand(select(t)) = t", b, t)


for _o in range(6):
    for _k in ("point", "points", "grid"):
        mk(_o, _k)
