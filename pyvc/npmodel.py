"""Contracts of the external libraries (numpy, scipy, itertools, ...) used by
the code under verification.  These are the trusted base: each entry states the
library's documented meaning over exact real arithmetic."""
import ast
import math
import itertools
from fractions import Fraction
from . import terms as T
from .terms import Term
from .values import *
from .interp import UNBOUND

ALL = SliceV(None, None, None)
MISSING_NP = {"float", "int", "complex", "bool", "object", "str", "long", "unicode", "in1d_"}   # removed aliases of numpy >= 1.24
DT = {"float": "R", "double": "R", "d": "R", "f8": "R", "float64": "R", "float32": "R", "f": "R", "single": "R", "longdouble": "R", "half": "R",
      "int": "I", "i": "I", "int64": "I", "int32": "I", "intc": "I", "intp": "I", "int_": "I", "uint8": "I", "uint": "I", "l": "I", "int8": "I", "int16": "I", "long": "I", "uint32": "I", "uint64": "I", "uint16": "I",
      "complex": "C", "complex128": "C", "c16": "C", "D": "C", "complex_": "C", "cdouble": "C", "complex64": "C", "cfloat": "C",
      "bool": "B", "bool_": "B", "b1": "B", "?": "B", "object": "O", "O": "O", "object_": "O", "str": "S", "str_": "S"}


def dtype(I, d):
    if d is None:
        return None
    if isinstance(d, str):
        if d in DT:
            return DT[d]
        d2 = d.lstrip("<>=|")
        if d2 in DT:
            return DT[d2]
    if isinstance(d, BuiltinClass):
        n = d.name.split(".")[-1]
        if n in DT:
            return DT[n]
    if isinstance(d, DType):
        return d.k
    if isinstance(d, Ext) and d.name.split(".")[-1] in DT:
        return DT[d.name.split(".")[-1]]
    raise Unsupported("dtype %r" % (d,))


class DType(object):
    def __init__(self, k):
        self.k = k

    def np_getattr(self, I, name):
        if name == "kind":
            return {"R": "f", "I": "i", "C": "c", "B": "b", "O": "O", "S": "U"}[self.k]
        if name == "name":
            return {"R": "float64", "I": "int64", "C": "complex128", "B": "bool", "O": "object", "S": "str"}[self.k]
        raise PyExc(I.builtins["AttributeError"], (name,))

    def np_compare(self, I, op, a, b):
        ka = a.k if isinstance(a, DType) else dtype(I, a)
        kb = b.k if isinstance(b, DType) else dtype(I, b)
        return (ka == kb) == (op is ast.Eq)


def npc(I, name):
    """numpy scalar class"""
    c = I.npclasses.get(name)
    if c is None:
        k = DT.get(name)
        f = None
        if k:
            def f(v=0, *a, k=k):
                if isinstance(v, (Arr, List, tuple)):
                    r = I.as_arr(v, k)
                    return r
                return I.scalar(I.converter(None, k)(v)) if k != "S" else v
        c = BuiltinClass("numpy." + name, f, [I.builtins["object"]])
        I.npclasses[name] = c
    return c


def conv_dims(I, s):
    """a shape argument -> tuple"""
    if isinstance(s, (int, Term)):
        s = (s,)
    elif not isinstance(s, tuple):
        s = tuple(I.concrete_list(s))
    out = []
    for x in s:
        if isinstance(x, Arr):
            x = I.scalar(I.elem(x, (0,) * x.ndim))
        if isinstance(x, Term) and x.sort == "R":
            if x.op == "num" and x.args[0].denominator == 1 and False:
                x = int(x.args[0])
            else:
                raise PyExc(I.builtins["TypeError"], ("float as a dimension",))
        out.append(I.py(x) if isinstance(x, Term) else int(x))
        if isinstance(out[-1], int) and out[-1] < 0:
            raise PyExc(I.builtins["ValueError"], ("negative dimensions are not allowed",))
    return tuple(out)


def zero(dt):
    return {"R": T.num(0, "R"), "I": T.num(0), "B": T.FALSE, "C": Cx(T.num(0, "R"), T.num(0, "R")), "O": None, "S": ""}[dt]


def one(dt):
    return {"R": T.num(1, "R"), "I": T.num(1), "B": T.TRUE, "C": Cx(T.num(1, "R"), T.num(0, "R")), "O": 1, "S": ""}[dt]


# ------------------------------------------------------------------ reshape
def prodt(I, dims):
    r = 1
    for d in dims:
        r = I.binop("*", r, d)
    return r


def reshape(I, a, shape):
    old = list(a.shape)
    new = list(shape)
    if any(isinstance(d, int) and d == -1 for d in new):
        k = new.index(-1)
        rest = new[:k] + new[k + 1:]
        if any(isinstance(d, int) and d == -1 for d in rest):
            raise PyExc(I.builtins["ValueError"], ("can only specify one unknown dimension",))
        o = list(old)
        r = []
        for d in rest:                        # cancel equal symbolic dims
            if isinstance(d, Term):
                for j, e in enumerate(o):
                    if I.same_dim(d, e) if isinstance(e, Term) else False:
                        del o[j]
                        break
                else:
                    r.append(d)
            else:
                r.append(d)
        num_o = prodt(I, o)
        num_r = prodt(I, r)
        if isinstance(num_o, int) and isinstance(num_r, int):
            if num_r == 0 or num_o % num_r:
                raise PyExc(I.builtins["ValueError"], ("cannot reshape",))
            new[k] = num_o // num_r
        elif isinstance(num_r, int):
            if num_r == 1:
                new[k] = num_o
            else:
                c, rest_t = T._split_coef(T.lift(num_o))
                if c.denominator == 1 and c.numerator % num_r == 0:
                    new[k] = T.mul(T.num(c.numerator // num_r), rest_t)
                else:
                    q = T.floordiv(T.lift(num_o), num_r)
                    if not I.entails(T.eq(T.mul(q, num_r), num_o)):
                        raise Unsupported("reshape of a symbolic size")
                    new[k] = q
        else:
            P = prodt(I, rest)
            for q in range(len(old) + 1):
                if k == len(new) - 1 and I.same_dim(prodt(I, old[:q]), P):
                    new[k] = prodt(I, old[q:])
                    break
                if k == 0 and I.same_dim(prodt(I, old[len(old) - q:]), P):
                    new[k] = prodt(I, old[:len(old) - q])
                    break
            else:
                raise Unsupported("reshape with symbolic remainder")
    new = [I.py(d) if isinstance(d, Term) else d for d in new]
    po, pn = prodt(I, old), prodt(I, new)
    if isinstance(po, int) and isinstance(pn, int):
        if po != pn:
            raise PyExc(I.builtins["ValueError"], ("cannot reshape array of size %d into %r" % (po, new),))
    elif not I.same_dim(po, pn):
        raise Unsupported("reshape of symbolic size %r -> %r" % (old, new))
    # one-to-one leading and trailing dims
    lead = 0
    while lead < min(len(old), len(new)) and I.same_dim(old[lead], new[lead]):
        lead += 1
    tail = 0
    while tail < min(len(old), len(new)) - lead and I.same_dim(old[-1 - tail], new[-1 - tail]):
        tail += 1
    mo, mn = old[lead:len(old) - tail], new[lead:len(new) - tail]

    # blocks of consecutive dims with equal products
    blocks = []
    i = j = 0
    while i < len(mo) or j < len(mn):
        found = None
        for tot in range(1, len(mo) + len(mn) - i - j + 1):
            for p in range(0, tot + 1):
                q = tot - p
                if i + p > len(mo) or j + q > len(mn):
                    continue
                if I.same_dim(prodt(I, mo[i:i + p]), prodt(I, mn[j:j + q])):
                    found = (p, q)
                    break
            if found:
                break
        if not found:
            raise Unsupported("reshape of symbolic size %r -> %r" % (old, new))
        p, q = found
        blocks.append((mo[i:i + p], mn[j:j + q]))
        i, j = i + p, j + q

    def block(mo, mn, mid):
        flat = T.num(0)
        stride = T.num(1)
        # flat index of the block
        for d, e in zip(reversed(mn), reversed(mid)):
            if not (isinstance(d, int) and d == 1):
                flat = T.add(flat, T.mul(T.lift(e), stride))
            stride = T.mul(stride, T.lift(d))
        out = []
        rem = flat
        nontriv = [j for j, d in enumerate(mo) if not (isinstance(d, int) and d == 1)]
        for j in range(len(mo) - 1, -1, -1):
            d = mo[j]
            if isinstance(d, int) and d == 1:
                out.append(T.num(0))
            elif nontriv and j == nontriv[0]:
                out.append(rem)
            else:
                q = T.floordiv(rem, T.lift(d))
                out.append(T.sub(rem, T.mul(q, T.lift(d))))
                rem = q
        return tuple(reversed(out))

    def index(idx):
        pre, mid, post = idx[:lead], idx[lead:len(idx) - tail], idx[len(idx) - tail:]
        out = ()
        for bo, bn in blocks:
            out += block(bo, bn, mid[:len(bn)])
            mid = mid[len(bn):]
        return tuple(pre) + out + tuple(post)
    # a view only when the strides allow it for writing: write-through for pure axis insertion/removal
    base = a.vmap
    spec = None
    if a.spec is not None:
        if (all(isinstance(d, int) and d == 1 for d in mo) or not mo) and not any(s[0] == "mix" for s in a.spec):
            spec = []
            for s in a.spec:
                if s[0] == "fix":
                    spec.append(s)
                    continue
                _, ax, st, step = s
                if ax < lead:
                    spec.append(s)
                elif ax >= len(old) - tail:
                    spec.append(("ax", ax - len(old) + len(new), st, step))
                else:
                    spec.append(("fix", st))
            spec = tuple(spec)
        elif len(mo) == 1 and not any(s[0] == "mix" for s in a.spec):
            # one axis split into several: the digits of its index
            spec = []
            for s in a.spec:
                if s[0] == "fix" or s[1] < lead:
                    spec.append(s)
                elif s[1] > lead:
                    spec.append(("ax", s[1] - len(old) + len(new), s[2], s[3]))
                elif T.lift(s[2]) is T.num(0) and s[3] == 1:
                    spec.append(("mix", tuple(mn), tuple(("ax", lead + k, 0, 1) for k in range(len(mn)))))
                else:
                    spec = None
                    break
            spec = None if spec is None else tuple(spec)
    return Arr(a.bid, tuple(new), lambda idx: base(index(tuple(idx))), spec, a.dtype, a.mat and len(new) == 2)


def transpose(I, a, perm=None):
    nd = a.ndim
    perm = tuple(p % nd for p in perm) if perm is not None else tuple(range(nd))[::-1]
    inv = [perm.index(i) for i in range(nd)]
    base = a.vmap
    spec = None
    if a.spec is not None:
        def tr(s):
            return s if s[0] == "fix" else ("mix", s[1], tuple(tr(x) for x in s[2])) if s[0] == "mix" else ("ax", inv[s[1]], s[2], s[3])
        spec = tuple(tr(s) for s in a.spec)
    return Arr(a.bid, tuple(a.shape[p] for p in perm), lambda idx: base(tuple(idx[inv[i]] for i in range(nd))), spec, a.dtype, a.mat)


# ------------------------------------------------------------------ products
def sumaxis(I, n, f):
    """sum_{0<=k<n} f(k)"""
    if isinstance(n, int):
        if n > 400:
            raise Unsupported("long sum")
        r = None
        for k in range(n):
            v = f(T.num(k))
            r = v if r is None else I.binop("+", r, v)
        return T.num(0, "R") if r is None else r
    k = T.fresh("k", "I")
    v = f(k)
    if isinstance(v, Cx):
        return Cx(T.summ(k, 0, n, v.re), T.summ(k, 0, n, v.im))
    return T.summ(k, 0, n, T.lift(v))


def _join(*dts):
    from .arrays import _dt
    r = dts[0]
    for d in dts[1:]:
        r = _dt(r, d)
    return "I" if r == "B" else r


def scal(I, a):
    """0-d arrays returned by numpy functions behave as scalars"""
    if isinstance(a, Arr) and a.ndim == 0:
        return I.scalar(I.elem(a, ()))
    return a


def check_dim(I, a, b, what):
    if not I.same_dim(a, b):
        if isinstance(a, int) and isinstance(b, int):
            raise PyExc(I.builtins["ValueError"], ("%s: shapes not aligned" % what,))
        raise Unsupported("%s: dimensions %r and %r" % (what, a, b))
    return a if isinstance(a, int) else b


def np_dot(I, a, b):
    a, b = I.as_arr(a), I.as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return I.arr_binop("*", a, b)
    fa, fb = I.freeze_arr(a), I.freeze_arr(b)
    ax = b.ndim - 2 if b.ndim >= 2 else 0
    n = check_dim(I, a.shape[-1], b.shape[ax], "dot")
    na = a.ndim - 1
    shape = a.shape[:-1] + b.shape[:ax] + b.shape[ax + 1:]

    def g(idx):
        ia, ib = idx[:na], idx[na:]
        return sumaxis(I, n, lambda k: I.binop("*", fa(ia + (k,)), fb(ib[:ax] + (k,) + ib[ax:])))
    return scal(I, I.new_arr(shape, g, _join(a.dtype, b.dtype), (a.mat or b.mat) and len(shape) == 2))


def np_matmul(I, a, b):
    a, b = I.as_arr(a), I.as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise PyExc(I.builtins["ValueError"], ("matmul: scalar operand",))
    if a.ndim <= 2 and b.ndim <= 2:
        return np_dot(I, a, b)
    fa, fb = I.freeze_arr(a), I.freeze_arr(b)
    va, vb = a.ndim == 1, b.ndim == 1
    n = check_dim(I, a.shape[-1], b.shape[-1] if vb else b.shape[-2], "matmul")
    ba = () if va else a.shape[:-2]
    bb = () if vb else b.shape[:-2]
    bs = I.bcast_shape([ba, bb]) if (ba or bb) else ()
    shape = bs + (() if va else (a.shape[-2],)) + (() if vb else (b.shape[-1],))

    def bidx(idx, sh):
        idx = idx[len(idx) - len(sh):]
        return tuple(T.num(0) if isinstance(s, int) and s == 1 else i for s, i in zip(sh, idx))

    def g(idx):
        bi = idx[:len(bs)]
        r = idx[len(bs):]
        ia = bidx(bi, ba)
        ib = bidx(bi, bb)
        row = () if va else (r[0],)
        col = () if vb else (r[-1],)
        return sumaxis(I, n, lambda k: I.binop("*", fa(ia + row + (k,)), fb(ib + (k,) + col)))
    return scal(I, I.new_arr(shape, g, _join(a.dtype, b.dtype)))


def np_einsum(I, spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported("einsum operand-list form")
    ops = [I.as_arr(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins, out = spec, None
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise PyExc(I.builtins["ValueError"], ("einsum: operands",))
    nell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            nell = max(nell, o.ndim - len(s.replace("...", "")))
    ell = ["_%d" % i for i in range(nell)]

    def labels(s, nd=None):
        if "..." in s:
            p, q = s.split("...")
            k = nell if nd is None else nd - len(p) - len(q)
            return list(p) + ell[nell - k:] + list(q)
        return list(s)
    lab = [labels(s, o.ndim) for s, o in zip(ins, ops)]
    dims = {}
    for L, o in zip(lab, ops):
        if len(L) != o.ndim:
            raise PyExc(I.builtins["ValueError"], ("einsum: subscripts do not match dimensions",))
        for l, d in zip(L, o.shape):
            if l in dims:
                e = dims[l]
                if isinstance(e, int) and e == 1:
                    dims[l] = d
                elif isinstance(d, int) and d == 1:
                    pass
                else:
                    dims[l] = check_dim(I, e, d, "einsum")
            else:
                dims[l] = d
    if out is None:
        cnt = {}
        for L in lab:
            for l in L:
                cnt[l] = cnt.get(l, 0) + 1
        outl = ell + sorted(l for l in cnt if cnt[l] == 1 and l not in ell)
    else:
        outl = labels(out)
    for l in outl:
        if l not in dims:
            raise PyExc(I.builtins["ValueError"], ("einsum: output subscript",))
    summed = [l for l in dims if l not in outl]
    fns = [I.freeze_arr(o) for o in ops]

    def g(idx):
        env = dict(zip(outl, idx))

        def at(l, o, j):
            d = o.shape[j]
            return T.num(0) if isinstance(d, int) and d == 1 else env[l]

        def go(rest):
            if not rest:
                r = None
                for f, L, o in zip(fns, lab, ops):
                    v = f(tuple(at(l, o, j) for j, l in enumerate(L)))
                    r = v if r is None else I.binop("*", r, v)
                return r
            l = rest[0]

            def h(k):
                env[l] = k
                return go(rest[1:])
            return sumaxis(I, dims[l], h)
        # sum over concrete axes outermost first
        return go(sorted(summed, key=lambda l: not isinstance(dims[l], int)))
    shape = tuple(dims[l] for l in outl)
    r = I.new_arr(shape, g, _join(*[o.dtype for o in ops]))
    return finish(I, r, kw)


def finish(I, r, kw):
    out = kw.get("out")
    if out is not None:
        I.arr_assign(out, r)
        return out
    return scal(I, r)


# ------------------------------------------------------------------ reductions
def reduce_axes(I, a, axis, keepdims=False):
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, int):
        axes = (axis,)
    else:
        axes = tuple(I.concrete_list(axis))
    out = []
    for x in axes:
        if not -a.ndim <= x < a.ndim:
            raise PyExc(I.builtins["ValueError"], ("axis out of range",))
        out.append(x % a.ndim)
    return tuple(sorted(out))


def np_sum(I, a, axis=None, keepdims=False, dt=None):
    a = I.as_arr(a)
    axes = reduce_axes(I, a, axis)
    keepdims = keepdims or a.mat and axis is not None
    from . import flat
    fp = flat.flat_of(I, a)
    if fp is not None and a.ndim == 1 and a.dtype in "RI":
        return I.scalar(T.lift(flat.flat_sum(I, fp)))
    f = I.freeze_arr(a)
    keep = [i for i in range(a.ndim) if i not in axes]
    conv = (lambda v: T._b2i(T.lift(v))) if a.dtype == "B" else (lambda v: v)
    shape = tuple(a.shape[i] for i in keep)
    if keepdims:
        shape = tuple(1 if i in axes else a.shape[i] for i in range(a.ndim))

    def g(idx):
        full = [None] * a.ndim
        if keepdims:
            for i in keep:
                full[i] = idx[i]
        else:
            for i, e in zip(keep, idx):
                full[i] = e

        def go(ax):
            if not ax:
                return conv(f(tuple(full)))
            j = ax[0]

            def h(k):
                full[j] = k
                return go(ax[1:])
            return sumaxis(I, a.shape[j], h)
        return go(sorted(axes, key=lambda j: not isinstance(a.shape[j], int)))
    d = dt or ("I" if a.dtype == "B" else a.dtype)
    return scal(I, I.new_arr(shape, g, d, a.mat))


def np_prod(I, a, axis=None):
    a = I.as_arr(a)
    axes = reduce_axes(I, a, axis)
    if not all(isinstance(a.shape[i], int) for i in axes):
        raise Unsupported("product over a symbolic axis")
    f = I.freeze_arr(a)
    keep = [i for i in range(a.ndim) if i not in axes]

    def g(idx):
        r = T.num(1)
        for ks in itertools.product(*[range(a.shape[i]) for i in axes]):
            full = [None] * a.ndim
            for i, e in zip(keep, idx):
                full[i] = e
            for i, e in zip(axes, ks):
                full[i] = T.num(e)
            r = I.binop("*", r, f(tuple(full)))
        return T.lift(r) if not isinstance(r, Cx) else r
    return scal(I, I.new_arr(tuple(a.shape[i] for i in keep), g, a.dtype))


def np_mean(I, a, axis=None):
    a = I.as_arr(a)
    axes = reduce_axes(I, a, axis)
    n = prodt(I, [a.shape[i] for i in axes])
    return I.binop("/", np_sum(I, a, axis), n)


def np_quant(I, a, axis, isany):
    a = I.as_arr(a)
    axes = reduce_axes(I, a, axis)
    f = I.freeze_arr(a)
    keep = [i for i in range(a.ndim) if i not in axes]

    def g(idx):
        full = [None] * a.ndim
        for i, e in zip(keep, idx):
            full[i] = e

        def go(ax):
            if not ax:
                return I.cond(f(tuple(full)))
            j = ax[0]
            n = a.shape[j]
            if isinstance(n, int):
                r = []
                for k in range(n):
                    full[j] = T.num(k)
                    r.append(go(ax[1:]))
                return T.or_(*r) if isany else T.and_(*r)
            k = T.fresh("k", "I")
            full[j] = k
            c = go(ax[1:])
            if isany:
                return T.not_(T.forall(k, 0, n, T.not_(c)))
            return T.forall(k, 0, n, c)
        return go(axes)
    return scal(I, I.new_arr(tuple(a.shape[i] for i in keep), g, "B"))


def np_extremum(I, a, axis, ismin):
    a = I.as_arr(a)
    axes = reduce_axes(I, a, axis)
    f = I.freeze_arr(a)
    if not all(isinstance(a.shape[i], int) for i in axes):
        if len(axes) == 1:
            n = a.shape[axes[0]]
            if a.ndim == 1:
                k = T.fresh("k", "I")
                return T.fn("amin" if ismin else "amax", (canon_fn(I, k, f((k,))), T.lift(n)), a.dtype)
        raise Unsupported("extremum over a symbolic axis")
    keep = [i for i in range(a.ndim) if i not in axes]
    if any(a.shape[i] == 0 for i in axes):
        raise PyExc(I.builtins["ValueError"], ("zero-size array to reduction operation",))

    def g(idx):
        r = None
        for ks in itertools.product(*[range(a.shape[i]) for i in axes]):
            full = [None] * a.ndim
            for i, e in zip(keep, idx):
                full[i] = e
            for i, e in zip(axes, ks):
                full[i] = T.num(e)
            v = f(tuple(full))
            if r is None:
                r = v
            else:
                r = T.ite(T.lt(v, r) if ismin else T.lt(r, v), v, r)
        return r
    return scal(I, I.new_arr(tuple(a.shape[i] for i in keep), g, a.dtype))


def canon_fn(I, k, body):
    """a term standing for the function k -> body (alpha-canonical)"""
    return T.subst(T.lift(body), {k: T.var("_bnd", "I")})


def cumsum(I, a, axis=None):
    a = I.as_arr(a)
    if axis is None:
        a = reshape(I, a, (-1,))
        axis = 0
    axis %= a.ndim
    f = I.freeze_arr(a)

    def g(idx):
        i = idx[axis]
        if i.op == "num":
            return sumaxis(I, int(i.args[0]) + 1, lambda k: f(idx[:axis] + (k,) + idx[axis + 1:]))
        return sumaxis(I, T.add(i, 1), lambda k: f(idx[:axis] + (k,) + idx[axis + 1:]))
    return I.new_arr(a.shape, g, a.dtype if a.dtype != "B" else "I")


# ------------------------------------------------------------------ elementwise
def s_unary(I, op):
    def f(x):
        if isinstance(x, Cx):
            if is_zero_const(x.im):
                return Cx(f(x.re), 0)
            if op == "exp":
                e = T.unary("exp", x.re)
                return Cx(T.mul(e, T.unary("cos", x.im)), T.mul(e, T.unary("sin", x.im)))
            if op in ("cos", "sin") and is_zero_const(x.re):
                # sin(iy) = i sinh y, cos(iy) = cosh y
                if op == "sin":
                    return Cx(T.num(0, "R"), T.unary("sinh", x.im))
                return Cx(T.unary("cosh", x.im), T.num(0, "R"))
            raise Unsupported("complex %s" % op)
        if hasattr(x, "np_unary"):
            return x.np_unary(I, op)
        if x is None or isinstance(x, (str, Obj, Dict, SymObj)):
            raise PyExc(I.builtins["TypeError"], ("ufunc not supported for the input types",))
        x = T.lift(x)
        if op == "sqrt":
            I.nz(x)
            return T.sqrt(x)
        if op == "abs":
            return T.absv(x)
        if op == "sign":
            z = x.sort
            return T.ite(T.lt(0, x), T.num(1, z), T.ite(T.lt(x, 0), T.num(-1, z), T.num(0, z)))
        if op in ("log", "arcsin", "arccos", "arccosh"):
            I.nz(x)
        if op == "floor" or op == "ceil" or op == "rint":
            if x.sort == "I":
                return T.toreal(x)
            if x.op == "num":
                v = x.args[0]
                return T.num({"floor": math.floor, "ceil": math.ceil, "rint": round}[op](v), "R")
            return T.fn("np." + op, (x,), "R")
        return T.unary(op, x)
    return f


UN = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "log": "log", "arctan": "atan",
      "arcsin": "asin", "arccos": "acos", "sinh": "sinh", "cosh": "cosh", "fabs": "abs",
      "sign": "sign", "floor": "floor", "ceil": "ceil", "rint": "rint", "arccosh": "acosh", "arcsinh": "asinh", "tanh": "tanh"}


def make_numpy(I):
    m = Module("numpy")
    A = m.attrs

    def D(name):
        def deco(f):
            A[name] = Builtin("np." + name, f)
            return f
        return deco
    A["pi"] = T.PI
    A["inf"] = T.INF
    A["Inf"] = T.INF
    A["nan"] = I.nan()
    A["e"] = T.unary("exp", T.num(1, "R"))
    A["newaxis"] = None
    for n in ("float64", "double", "float32", "float_", "int64", "int32", "intc", "intp", "int_", "complex128", "complex_", "bool_", "integer", "floating", "number", "generic", "uint8", "complexfloating", "single", "cdouble", "longdouble", "object_", "str_", "uint64", "int8", "int16"):
        A[n] = npc(I, n)
    A["ndarray"] = npc(I, "ndarray")
    toR = lambda dt: "R" if dt in "BI" else dt

    def un(name, op):
        f = s_unary(I, op)

        def uf(x, out=None, where=True, **kw):
            if isinstance(x, (List, tuple, Obj)):
                x = I.as_arr(x)
            if out is not None and isinstance(out, tuple):
                out = out[0]
            if not isinstance(x, Arr):
                r = I.scalar(f(x))
            else:
                r = I.ewise1(f, x, x.dtype if op in ("abs", "sign") and name != "fabs" else toR(x.dtype))
            if out is not None:
                I.arr_assign(out, r)
                return out
            return r
        A[name] = Builtin("np." + name, uf)
    for n, op in UN.items():
        un(n, op)

    @D("absolute")
    def absolute(x, out=None, **kw):
        from .builtins_model import sabs
        if isinstance(x, (List, tuple, Obj)):
            x = I.as_arr(x)
        if isinstance(x, Arr):
            r = I.ewise1(lambda v: sabs(I, v), x, "R" if x.dtype == "C" else x.dtype)
        else:
            r = I.scalar(sabs(I, x))
        if out is not None:
            I.arr_assign(out, r)
            return out
        return r
    A["abs"] = A["absolute"]

    def binuf(name, f, dt=None):
        def uf(a, b, out=None, where=True, **kw):
            r = f(a, b)
            if out is not None:
                if isinstance(out, tuple):
                    out = out[0]
                I.arr_assign(out, r)
                return out
            return r
        uf.__name__ = name
        bl = Builtin("np." + name, uf)
        bl.attrs = {}
        A[name] = bl
        return bl
    coerce = lambda x: I.as_arr(x) if isinstance(x, (List, tuple, Obj)) else x
    for n, op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**"), ("floor_divide", "//"), ("mod", "%"), ("remainder", "%")):
        def f(a, b, op=op):
            a, b = coerce(a), coerce(b)
            if op in "*" and (I.is_matrix(a) or I.is_matrix(b)):
                return I.ewise2(lambda x, y: I.binop("*", x, y), a, b, lambda p, q: _join(p, q), True)
            r = I.binop(op, a, b)
            if op == "**" and isinstance(r, int) and False:
                pass
            return r
        binuf(n, f)

    def reduce_(ufname, op):
        def red(a, axis=0, **kw):
            a = I.as_arr(a)
            if op == "+":
                return np_sum(I, a, axis)
            return np_prod(I, a, axis)
        return Builtin("reduce", red)
    A["add"].attrs["reduce"] = reduce_("add", "+")
    A["multiply"].attrs["reduce"] = reduce_("multiply", "*")

    def outer_(a, b, **kw):
        return np_outer(a, b)
    A["multiply"].attrs["outer"] = Builtin("outer", lambda a, b: A["multiply"].f(A["reshape"].f(a, tuple(I.as_arr(a).shape) + (1,) * I.as_arr(b).ndim), b))

    def atan2_(a, b):
        a, b = coerce(a), coerce(b)
        f = lambda x, y: T.atan2(x, y)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return I.ewise2(lambda x, y: f(T.lift(x), T.lift(y)), a, b, "R")
        return f(T.lift(a), T.lift(b))
    binuf("arctan2", atan2_)

    def hyp(a, b):
        return I.call(A["sqrt"], [I.binop("+", I.binop("*", coerce(a), coerce(a)), I.binop("*", coerce(b), coerce(b)))])
    binuf("hypot", hyp)

    def mm(ismin):
        def f(a, b):
            a, b = coerce(a), coerce(b)
            g = lambda x, y: T.ite(T.lt(x, y) if ismin else T.lt(y, x), T.lift(x), T.lift(y))
            if isinstance(a, Arr) or isinstance(b, Arr):
                return I.ewise2(g, a, b, lambda p, q: _join(p, q))
            return I.scalar(g(T.lift(a), T.lift(b)))
        return f
    binuf("minimum", mm(True))
    binuf("maximum", mm(False))
    binuf("fmin", mm(True))
    binuf("fmax", mm(False))

    def logic(fn):
        def f(a, b):
            a, b = coerce(a), coerce(b)
            g = lambda x, y: fn(I.cond(x), I.cond(y))
            if isinstance(a, Arr) or isinstance(b, Arr):
                return I.ewise2(g, a, b, "B")
            return I.unb(g(a, b))
        return f
    binuf("logical_and", logic(T.and_))
    binuf("logical_or", logic(T.or_))
    binuf("logical_xor", logic(lambda x, y: T.not_(T.eq(x, y))))

    def cmpf(op):
        return lambda a, b: I.compare(op, coerce(a), coerce(b))
    for n, op in (("less", ast.Lt), ("less_equal", ast.LtE), ("greater", ast.Gt), ("greater_equal", ast.GtE), ("equal", ast.Eq), ("not_equal", ast.NotEq)):
        binuf(n, cmpf(op))

    @D("logical_not")
    def logical_not(a):
        a = coerce(a)
        if isinstance(a, Arr):
            return I.ewise1(lambda x: T.not_(I.cond(x)), a, "B")
        return I.unb(T.not_(I.cond(a)))
    A["invert"] = A["logical_not"]

    @D("square")
    def square(a, **kw):
        a = coerce(a)
        r = A["multiply"].f(a, a)
        return finish(I, r, kw)

    @D("negative")
    def negative(a, out=None, **kw):
        return finish(I, I.unop(ast.USub, coerce(a)), dict(kw, out=out))

    @D("reciprocal")
    def reciprocal(a):
        return I.binop("/", T.num(1, "R"), coerce(a))

    @D("deg2rad")
    def deg2rad(a):
        return I.binop("*", coerce(a), T.mul(T.PI, T.num(Fraction(1, 180), "R")))
    A["radians"] = A["deg2rad"]

    @D("rad2deg")
    def rad2deg(a):
        return I.binop("*", coerce(a), T.div(T.num(180, "R"), T.PI))
    A["degrees"] = A["rad2deg"]

    def cpart(name, f):
        def g(a):
            a = coerce(a)
            if isinstance(a, Arr):
                return I.ewise1(lambda x: f(x), a, "R" if a.dtype == "C" and name != "conj" else a.dtype)
            return I.scalar(f(a))
        A[name] = Builtin("np." + name, g)
        return g
    cpart("real", lambda x: x.re if isinstance(x, Cx) else x)
    cpart("imag", lambda x: x.im if isinstance(x, Cx) else T.num(0, "R"))
    cpart("conj", lambda x: Cx(x.re, T.neg(x.im)) if isinstance(x, Cx) else x)
    A["conjugate"] = A["conj"]
    cpart("real_if_close", lambda x: x)
    A["isnan"] = Builtin("np.isnan", lambda a: I.ewise1(lambda x: T.FALSE, coerce(a), "B") if isinstance(coerce(a), Arr) else False)
    A["isfinite"] = Builtin("np.isfinite", lambda a: I.ewise1(lambda x: T.TRUE if x not in (T.INF, T.NINF) else T.FALSE, coerce(a), "B") if isinstance(coerce(a), Arr) else a not in (T.INF, T.NINF))
    A["isinf"] = Builtin("np.isinf", lambda a: I.ewise1(lambda x: T.lift(x in (T.INF, T.NINF)), coerce(a), "B") if isinstance(coerce(a), Arr) else a in (T.INF, T.NINF))
    A["isscalar"] = Builtin("np.isscalar", lambda a: isinstance(a, (int, str, Cx)) or isinstance(a, Term))
    A["iscomplexobj"] = Builtin("np.iscomplexobj", lambda a: I.dtype_of(a) == "C")

    @D("where")
    def where(c, *ab):
        c = coerce(c)
        if not ab:
            raise Unsupported("np.where with one argument")
        a, b = coerce(ab[0]), coerce(ab[1])
        arrs = [x for x in (c, a, b) if isinstance(x, Arr)]
        if not arrs:
            return I.scalar(I.vite(I.cond(c), a, b))
        sh = I.bcast_shape([x.shape for x in arrs])
        fs = [I.bcast_fn(x, sh) if isinstance(x, Arr) else (lambda idx, x=x: x) for x in (c, a, b)]
        return scal(I, I.new_arr(sh, lambda idx: I.vite(I.cond(fs[0](idx)), fs[1](idx), fs[2](idx)), _join(I.dtype_of(a), I.dtype_of(b))))

    @D("clip")
    def clip(a, lo, hi, **kw):
        r = a
        if lo is not None:
            r = A["maximum"].f(r, lo)
        if hi is not None:
            r = A["minimum"].f(r, hi)
        return finish(I, r, kw)

    # -------------------------------------------------- creation
    @D("array")
    def array(v, dtype_=None, copy=True, order=None, ndmin=0, subok=False, **kw):
        dt = dtype(I, kw.get("dtype", dtype_))
        r = I.as_arr(v, dt, copy=True)
        if r.mat and not subok:
            r = Arr(r.bid, r.shape, r.vmap, r.spec, r.dtype)
        while r.ndim < ndmin:
            r = I.getitem(r, (None, Ellipsis))
        return r

    @D("asarray")
    def asarray(v, dtype_=None, **kw):
        r = I.as_arr(v, dtype(I, kw.get("dtype", dtype_)))
        if r.mat:
            r = Arr(r.bid, r.shape, r.vmap, r.spec, r.dtype)
        return r

    @D("asanyarray")
    def asanyarray(v, dtype_=None, **kw):
        return I.as_arr(v, dtype(I, kw.get("dtype", dtype_)))

    @D("ascontiguousarray")
    def ascontiguousarray(v, dtype_=None, **kw):
        r = I.as_arr(v, dtype(I, kw.get("dtype", dtype_)))
        return r if r.ndim else I.getitem(r, (None,))
    A["asfortranarray"] = A["asanyarray"]
    A["require"] = A["asanyarray"]
    A["copy"] = Builtin("np.copy", lambda a, **kw: I.copy_arr(I.as_arr(a)))

    def filled(name, val):
        def f(shape, dtype_=None, order=None, **kw):
            dt = dtype(I, kw.get("dtype", dtype_)) or "R"
            v = val(dt)
            return I.new_arr(conv_dims(I, shape), lambda idx: v, dt)
        A[name] = Builtin("np." + name, f)

        def fl(a, dtype_=None, **kw):
            a = I.as_arr(a)
            dt = dtype(I, kw.get("dtype", dtype_)) or a.dtype
            v = val(dt)
            return I.new_arr(a.shape, lambda idx: v, dt, a.mat)
        A[name + "_like"] = Builtin("np." + name + "_like", fl)
    filled("zeros", zero)
    filled("ones", one)

    def empty(shape, dtype_=None, order=None, **kw):
        dt = dtype(I, kw.get("dtype", dtype_)) or "R"
        sh = conv_dims(I, shape)
        nm = T.fresh("uninit", "R").args[0]
        if dt == "C":
            return I.new_arr(sh, lambda idx: Cx(T.fn(nm + ".re", idx, "R"), T.fn(nm + ".im", idx, "R")), dt)
        if dt in "OS":
            return I.new_arr(sh, lambda idx: None, dt)
        return I.new_arr(sh, lambda idx: T.fn(nm, idx, dt), dt)
    A["empty"] = Builtin("np.empty", empty)
    A["empty_like"] = Builtin("np.empty_like", lambda a, dtype=None, **kw: empty(I.as_arr(a).shape, dtype if dtype is not None else DType(I.as_arr(a).dtype)))

    @D("full")
    def full(shape, v, dtype_=None, **kw):
        dt = dtype(I, kw.get("dtype", dtype_)) or I.dtype_of(v)
        cv = I.converter(None, dt)(v)
        return I.new_arr(conv_dims(I, shape), lambda idx: cv, dt)

    @D("full_like")
    def full_like(a, v, dtype_=None, **kw):
        a = I.as_arr(a)
        cv = I.converter(None, a.dtype)(v)
        return I.new_arr(a.shape, lambda idx: cv, a.dtype)

    def eye(n, M=None, k=0, dtype_=None, **kw):
        dt = dtype(I, kw.get("dtype", dtype_)) or "R"
        n2 = n if M is None else M
        return I.new_arr(conv_dims(I, (n, n2)), lambda idx: I.vite(T.eq(T.add(idx[0], k), idx[1]), one(dt), zero(dt)), dt)
    A["eye"] = Builtin("np.eye", eye)
    A["identity"] = Builtin("np.identity", lambda n, dtype=None: eye(n, dtype=dtype))

    @D("diag")
    def diag(v, k=0):
        v = I.as_arr(v)
        f = I.freeze_arr(v)
        if v.ndim == 1:
            n = I.binop("+", v.shape[0], abs(k))
            return I.new_arr((n, n), lambda idx: I.vite(T.eq(T.add(idx[0], k), idx[1]), f((idx[0] if k >= 0 else idx[1],)), zero(v.dtype)), v.dtype)
        if k == 0:
            n = v.shape[0] if I.same_dim(v.shape[0], v.shape[1]) else min(v.shape)
            return I.new_arr((n,), lambda idx: f((idx[0], idx[0])), v.dtype)
        raise Unsupported("diag with offset")
    A["diagonal"] = Builtin("np.diagonal", lambda a, **kw: diag(a))

    @D("diag_indices")
    def diag_indices(n, ndim=2):
        r = A["arange"].f(n)
        return (r,) * ndim

    @D("trace")
    def trace(a, **kw):
        return np_sum(I, diag(I.as_arr(a)))

    @D("arange")
    def arange(*a, **kw):
        a = [I.scalar(I.elem(x, ())) if isinstance(x, Arr) else x for x in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        dt = dtype(I, kw.get("dtype"))
        if all(isinstance(x, int) for x in (lo, hi, st)):
            n = len(range(lo, hi, st))
            return I.new_arr((n,), lambda idx: I.converter(None, dt or "I")(T.add(T.mul(idx[0], st), lo)), dt or "I")
        ts = [T.lift(x) for x in (lo, hi, st)]
        if all(t.sort == "I" for t in ts) and ts[2].op == "num" and abs(ts[2].args[0]) == 1:
            s = int(ts[2].args[0])
            n = T.mul(T.sub(ts[1], ts[0]), s)
            if not I.entails(T.le(0, n)):
                n = T.ite(T.lt(n, 0), T.num(0), n)
            return I.new_arr((n,), lambda idx: I.converter(None, dt or "I")(T.add(T.mul(idx[0], s), ts[0])), dt or "I")
        if all(t.op == "num" for t in ts):
            q = (ts[1].args[0] - ts[0].args[0]) / ts[2].args[0]
            n = max(0, math.ceil(q))
            return I.new_arr((n,), lambda idx: T.add(T.mul(T.toreal(idx[0]), ts[2]), ts[0]), "R")
        # ceil((hi-lo)/st)
        q = T.div(T.sub(ts[1], ts[0]), ts[2])
        qi = __import__("pyvc.arrays", fromlist=["intsort"]).intsort(q)
        n = qi if qi is not None else T.fn("ceil", (T.toreal(q),), "I")
        return I.new_arr((n,), lambda idx: T.add(T.mul(T.toreal(idx[0]), ts[2]), ts[0]), "R" if any(t.sort == "R" for t in ts) else "I")

    def tri_(lower):
        def f(m, k=0):
            m = I.as_arr(m)
            if m.ndim < 2:
                raise Unsupported("triangle of a vector")
            g = I.freeze_arr(m)
            z = Cx(0, 0) if m.dtype == "C" else T.num(0, m.dtype if m.dtype in "IR" else "I")

            def h(idx):
                d = T.sub(T.sub(idx[-1], idx[-2]), T.lift(k))
                return I.vite(T.le(d, 0) if lower else T.le(0, d), g(idx), z)
            return I.new_arr(m.shape, h, m.dtype, m.mat)
        return f
    D("tril")(tri_(True))
    D("triu")(tri_(False))

    @D("linspace")
    def linspace(a, b, n=50, endpoint=True, **kw):
        n = I.scalar(I.elem(n, ())) if isinstance(n, Arr) else n
        if isinstance(n, Term) and n.sort == "R":
            raise PyExc(I.builtins["TypeError"], ("linspace count must be an integer",))
        if isinstance(a, (Arr, List, tuple)) or isinstance(b, (Arr, List, tuple)):
            raise Unsupported("array linspace")
        at, bt = T.toreal(T.lift(a)), T.toreal(T.lift(b))
        div = T.sub(T.lift(n), 1) if endpoint else T.lift(n)
        if div.op == "num" and div.args[0] == 0:
            return I.new_arr((n,), lambda idx: at, "R")
        # numpy: a + i*step, the last point set to b
        def pt(idx):
            # (a single point is the start)
            st = T.div(T.sub(bt, at), T.toreal(div))
            if div.op != "num":
                st = T.ite(T.eq(div, 0), T.num(0, "R"), st)
            return T.add(at, T.mul(T.toreal(idx[0]), st))
        return I.new_arr((n,), pt, "R")

    class MGrid(object):
        def __init__(self, sparse):
            self.sparse = sparse

        def np_getitem(self, I, k):
            if isinstance(k, List):
                k = tuple(I.concrete_list(k))
            single = not isinstance(k, tuple)
            ks = (k,) if single else k
            axes = []
            for s in ks:
                st = s.step if s.step is not None else 1
                lo = s.lo if s.lo is not None else 0
                if isinstance(st, Cx) and is_zero_const(st.re):
                    n = I.toint(I.scalar(sabs_(st)))
                    axes.append(A["linspace"].f(lo, s.hi, n))
                else:
                    axes.append(A["arange"].f(lo, s.hi, st))
            if single:
                return axes[0]
            shape = tuple(x.shape[0] for x in axes)
            fs = [I.freeze_arr(x) for x in axes]
            dt = _join(*[x.dtype for x in axes])
            if self.sparse:
                n = len(axes)
                return I.newlist([I.getitem(x, tuple([None] * i + [ALL] + [None] * (n - i - 1))) for i, x in enumerate(axes)])

            def g(idx):
                i = idx[0]
                r = None
                for j in range(len(fs) - 1, -1, -1):
                    v = I.converter(None, dt)(fs[j]((idx[1 + j],)))
                    r = v if r is None else I.vite(T.eq(i, j), v, r)
                return r
            return I.new_arr((len(axes),) + shape, g, dt)

    def sabs_(c):
        from .builtins_model import sabs
        if is_zero_const(c.re):
            return T.absv(c.im)
        return sabs(I, c)
    A["mgrid"] = MGrid(False)
    A["ogrid"] = MGrid(True)

    @D("meshgrid")
    def meshgrid(*xs, **kw):
        idx_ = kw.get("indexing", "xy")
        xs = [reshape(I, I.as_arr(x), (-1,)) for x in xs]
        n = len(xs)
        order = list(range(n))
        if idx_ == "xy" and n > 1:
            order[0], order[1] = 1, 0
        shape = [None] * n
        for p, x in zip(order, xs):
            shape[p] = x.shape[0]
        out = []
        for p, x in zip(order, xs):
            f = I.freeze_arr(x)
            out.append(I.new_arr(tuple(shape), (lambda idx, f=f, p=p: f((idx[p],))), x.dtype))
        return I.newlist(out)

    class CR(object):
        def __init__(self, col):
            self.col = col

        def np_getitem(self, I, k):
            ks = k if isinstance(k, tuple) else (k,)
            arrs = []
            for x in ks:
                if isinstance(x, SliceV):
                    x = A["arange"].f(x.lo or 0, x.hi, x.step or 1)
                x = I.as_arr(x)
                if x.ndim == 0:
                    x = I.getitem(x, (None,))
                if self.col and x.ndim == 1:
                    x = I.getitem(x, (ALL, None))
                arrs.append(x)
            return concat(arrs, -1 if self.col else 0)
    A["c_"] = CR(True)
    A["r_"] = CR(False)

    def concat(arrs, axis=0):
        arrs = [I.as_arr(x) for x in arrs]
        nd = arrs[0].ndim
        if nd == 0 or any(x.ndim != nd for x in arrs):
            raise PyExc(I.builtins["ValueError"], ("concatenate dimensions",))
        axis %= nd
        for x in arrs[1:]:
            for j in range(nd):
                if j != axis and not I.same_dim(x.shape[j], arrs[0].shape[j]):
                    if isinstance(x.shape[j], int) and isinstance(arrs[0].shape[j], int):
                        raise PyExc(I.builtins["ValueError"], ("concatenate dimensions",))
                    raise Unsupported("concatenate")
        offs = [T.num(0)]
        for x in arrs:
            offs.append(T.add(offs[-1], T.lift(x.shape[axis])))
        fs = [I.freeze_arr(x) for x in arrs]
        dt = arrs[0].dtype
        from .arrays import _dt
        for x in arrs[1:]:
            dt = _dt(dt, x.dtype)
        conv = I.converter(None, dt)

        def g(idx):
            i = idx[axis]
            r = None
            for j in range(len(fs) - 1, -1, -1):
                if isinstance(arrs[j].shape[axis], int) and arrs[j].shape[axis] == 0:
                    continue
                if i.op == "num" and offs[j].op == "num" and offs[j + 1].op == "num" and not offs[j].args[0] <= i.args[0] < offs[j + 1].args[0]:
                    continue
                c = T.lt(i, offs[j + 1])
                if r is not None and c is T.FALSE:
                    continue
                v = conv(fs[j](idx[:axis] + (T.sub(i, offs[j]),) + idx[axis + 1:]))
                r = v if r is None else I.vite(c, v, r)
            return r
        shape = list(arrs[0].shape)
        shape[axis] = I.py(offs[-1])
        return I.new_arr(tuple(shape), g, dt, any(x.mat for x in arrs))

    @D("concatenate")
    def concatenate(seq, axis=0, **kw):
        ps = I.parts(seq)
        if axis is None:
            ps = tuple(("one", reshape(I, I.as_arr(p[1]), (-1,))) for p in ps)
            axis = 0
        if all(p[0] == "one" for p in ps):
            if not ps:
                raise PyExc(I.builtins["ValueError"], ("need at least one array to concatenate",))
            return concat([p[1] for p in ps], axis)
        from . import flat
        return flat.concatenate(I, ps, axis)

    @D("append")
    def append(a, v, axis=None):
        if axis is None:
            return concat([reshape(I, I.as_arr(a), (-1,)), reshape(I, I.as_arr(v), (-1,))])
        return concat([a, v], axis)

    @D("stack")
    def stack(seq, axis=0, **kw):
        vals = I.concrete_list(seq)
        arrs = [I.as_arr(v) for v in vals]
        nd = arrs[0].ndim + 1
        ax = axis % nd
        return concat([I.getitem(a, tuple([ALL] * ax + [None, Ellipsis])) for a in arrs], ax)

    @D("vstack")
    def vstack(seq, **kw):
        return concat([atleast_2d(v) for v in I.concrete_list(seq)], 0)
    A["row_stack"] = A["vstack"]

    @D("hstack")
    def hstack(seq, **kw):
        arrs = [atleast_1d(v) for v in I.concrete_list(seq)]
        return concat(arrs, 0 if arrs[0].ndim == 1 else 1)

    @D("column_stack")
    def column_stack(seq):
        arrs = [I.as_arr(v) for v in I.concrete_list(seq)]
        return concat([I.getitem(a, (ALL, None)) if a.ndim == 1 else a for a in arrs], 1)

    @D("dstack")
    def dstack(seq):
        arrs = [atleast_2d(v) for v in I.concrete_list(seq)]
        return concat([I.getitem(a, (ALL, ALL, None)) if a.ndim == 2 else a for a in arrs], 2)

    @D("tile")
    def tile(a, reps):
        a = I.as_arr(a)
        reps = (reps,) if isinstance(reps, (int, Term)) else tuple(I.concrete_list(reps))
        while a.ndim < len(reps):
            a = I.getitem(a, (None, Ellipsis))
        reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
        f = I.freeze_arr(a)
        sh = tuple(I.binop("*", d, r) for d, r in zip(a.shape, reps))
        return I.new_arr(sh, lambda idx: f(tuple(e if isinstance(r, int) and r == 1 else T.mod(e, T.lift(d)) for e, d, r in zip(idx, a.shape, reps))), a.dtype)

    @D("repeat")
    def repeat(a, n, axis=None):
        a = I.as_arr(a)
        if axis is None:
            a, axis = reshape(I, a, (-1,)), 0
        if not isinstance(n, int):
            raise Unsupported("repeat")
        f = I.freeze_arr(a)
        sh = list(a.shape)
        sh[axis] = I.binop("*", sh[axis], n)
        return I.new_arr(tuple(sh), lambda idx: f(idx[:axis] + (T.floordiv(idx[axis], n),) + idx[axis + 1:]), a.dtype)

    def atleast_1d(*vs):
        out = []
        for v in vs:
            a = I.as_arr(v)
            out.append(I.getitem(a, (None,)) if a.ndim == 0 else a)
        return out[0] if len(out) == 1 else I.newlist(out)
    A["atleast_1d"] = Builtin("np.atleast_1d", atleast_1d)

    def atleast_2d(*vs):
        out = []
        for v in vs:
            a = I.as_arr(v)
            if a.ndim == 0:
                a = I.getitem(a, (None, None))
            elif a.ndim == 1:
                a = I.getitem(a, (None, ALL))
            out.append(a)
        return out[0] if len(out) == 1 else I.newlist(out)
    A["atleast_2d"] = Builtin("np.atleast_2d", atleast_2d)

    def atleast_3d(*vs):
        out = []
        for v in vs:
            a = I.as_arr(v)
            if a.ndim == 0:
                a = I.getitem(a, (None, None, None))
            elif a.ndim == 1:
                a = I.getitem(a, (None, ALL, None))
            elif a.ndim == 2:
                a = I.getitem(a, (ALL, ALL, None))
            out.append(a)
        return out[0] if len(out) == 1 else I.newlist(out)
    A["atleast_3d"] = Builtin("np.atleast_3d", atleast_3d)

    @D("matrix")
    def matrix(v, dtype_=None, copy=True, **kw):
        a = I.as_arr(v, dtype(I, kw.get("dtype", dtype_)), copy=copy)
        if a.ndim == 1:
            a = I.getitem(a, (None, ALL))
        if a.ndim == 0:
            a = I.getitem(a, (None, None))
        return Arr(a.bid, a.shape, a.vmap, a.spec, a.dtype, True)
    A["asmatrix"] = Builtin("np.asmatrix", lambda v, **kw: matrix(v, copy=False))
    A["mat"] = A["asmatrix"]

    # -------------------------------------------------- shape
    @D("reshape")
    def reshape_(a, shape, **kw):
        return reshape(I, I.as_arr(a), neg1(shape))

    def neg1(shape):
        if isinstance(shape, (int, Term)):
            return (shape,)
        return tuple(shape) if isinstance(shape, tuple) else tuple(I.concrete_list(shape))
    A["ravel"] = Builtin("np.ravel", lambda a, **kw: reshape(I, I.as_arr(a), (-1,)))
    A["transpose"] = Builtin("np.transpose", lambda a, axes=None: transpose(I, I.as_arr(a), None if axes is None else I.concrete_list(axes)))

    @D("swapaxes")
    def swapaxes(a, i, j):
        a = I.as_arr(a)
        p = list(range(a.ndim))
        p[i], p[j] = p[j], p[i]
        return transpose(I, a, p)

    @D("rollaxis")
    def rollaxis(a, axis, start=0):
        a = I.as_arr(a)
        n = a.ndim
        axis %= n
        if start < 0:
            start += n
        p = list(range(n))
        p.remove(axis)
        p.insert(start if start <= axis else start - 1, axis)
        return transpose(I, a, p)

    @D("moveaxis")
    def moveaxis(a, src, dst):
        a = I.as_arr(a)
        n = a.ndim
        src = [src] if isinstance(src, int) else I.concrete_list(src)
        dst = [dst] if isinstance(dst, int) else I.concrete_list(dst)
        src = [s % n for s in src]
        dst = [d % n for d in dst]
        p = [i for i in range(n) if i not in src]
        for d, s in sorted(zip(dst, src)):
            p.insert(d, s)
        return transpose(I, a, p)

    @D("squeeze")
    def squeeze(a, axis=None):
        a = I.as_arr(a)
        key = tuple(0 if (isinstance(d, int) and d == 1 and (axis is None or i == axis % a.ndim)) else ALL for i, d in enumerate(a.shape))
        v, _ = I.index_view(a, key)
        return v

    @D("expand_dims")
    def expand_dims(a, axis):
        a = I.as_arr(a)
        nd = a.ndim + 1
        axis %= nd
        return I.getitem(a, tuple([ALL] * axis + [None, Ellipsis]))

    @D("broadcast_arrays")
    def broadcast_arrays(*xs, **kw):
        arrs = [I.as_arr(x) for x in xs]
        sh = I.bcast_shape([x.shape for x in arrs])
        out = []
        for x in arrs:
            f = I.bcast_fn(x, sh)
            out.append(I.new_arr(sh, f, x.dtype))
        return I.newlist(out)

    @D("broadcast_to")
    def broadcast_to(a, shape, **kw):
        a = I.as_arr(a)
        sh = conv_dims(I, shape)
        return I.new_arr(sh, I.bcast_fn(a, sh), a.dtype)

    @D("roll")
    def roll(a, k, axis=None):
        a = I.as_arr(a)
        if axis is None:
            if a.ndim != 1:
                return reshape(I, roll(reshape(I, a, (-1,)), k), a.shape)
            axis = 0
        axis %= a.ndim
        f = I.freeze_arr(a)
        n = a.shape[axis]
        if not isinstance(k, int):
            raise Unsupported("symbolic roll")

        def g(idx):
            e = T.sub(idx[axis], k)
            if isinstance(n, int):
                if e.op == "num":
                    e = T.num(int(e.args[0]) % n)
                else:
                    e = wrap(e, n, k)
            else:
                e = wrap(e, n, k)
            return f(idx[:axis] + (e,) + idx[axis + 1:])

        def wrap(e, n, k):
            # |k| <= n is required for the single wrap
            nt = T.lift(n)
            if abs(k) == 1:
                if k > 0:
                    return T.ite(T.lt(e, 0), T.add(e, nt), e)
                return T.ite(T.lt(e, nt), e, T.sub(e, nt))
            return T.mod(e, nt)
        return I.new_arr(a.shape, g, a.dtype)

    @D("flip")
    def flip(a, axis=None):
        a = I.as_arr(a)
        rev = SliceV(None, None, -1)
        key = tuple(rev if axis is None or i == axis % a.ndim else ALL for i in range(a.ndim))
        return I.getitem(a, key)
    A["flipud"] = Builtin("np.flipud", lambda a: flip(a, 0))
    A["fliplr"] = Builtin("np.fliplr", lambda a: flip(a, 1))

    @D("diff")
    def diff(a, n=1, axis=-1):
        a = I.as_arr(a)
        for _ in range(n):
            ax = axis % a.ndim
            a = I.binop("-", I.getitem(a, tuple([ALL] * ax + [SliceV(1, None, None)])), I.getitem(a, tuple([ALL] * ax + [SliceV(None, -1, None)])))
        return a

    @D("take")
    def take(a, ind, axis=None, **kw):
        a = I.as_arr(a)
        if axis is None:
            a, axis = reshape(I, a, (-1,)), 0
        ax = axis % a.ndim
        return I.getitem(a, tuple([ALL] * ax + [ind]))

    @D("delete")
    def delete(a, k, axis=None):
        a = I.as_arr(a)
        if axis is None:
            a, axis = reshape(I, a, (-1,)), 0
        ax = axis % a.ndim
        if not isinstance(k, (int, Term)) or isinstance(k, bool):
            raise Unsupported("np.delete with several indices")
        n = a.shape[ax]
        e = T.lift(I.norm_index(k, n))
        f = I.freeze_arr(a)
        sh = list(a.shape)
        sh[ax] = I.binop("-", n, 1)
        return I.new_arr(tuple(sh), lambda idx: f(idx[:ax] + (T.ite(T.lt(idx[ax], e), idx[ax], T.add(idx[ax], 1)),) + idx[ax + 1:]), a.dtype)

    @D("insert")
    def insert(a, k, v, axis=None):
        raise Unsupported("np.insert")

    # -------------------------------------------------- products
    A["dot"] = Builtin("np.dot", lambda a, b, out=None: finish(I, np_dot(I, a, b), {"out": out}))
    A["matmul"] = Builtin("np.matmul", lambda a, b, **kw: finish(I, np_matmul(I, a, b), kw))
    A["einsum"] = Builtin("np.einsum", lambda s, *o, **kw: np_einsum(I, s, *o, **kw))
    A["vdot"] = Builtin("np.vdot", lambda a, b: np_dot(I, reshape(I, I.as_arr(I.call(A["conj"], [a])), (-1,)), reshape(I, I.as_arr(b), (-1,))))

    @D("inner")
    def inner(a, b):
        a, b = I.as_arr(a), I.as_arr(b)
        if a.ndim == 0 or b.ndim == 0:
            return I.binop("*", a, b)
        return np_dot(I, a, b if b.ndim == 1 else transpose(I, b, tuple(range(b.ndim - 2)) + (b.ndim - 1, b.ndim - 2)) if b.ndim == 2 else None)

    def np_outer(a, b, **kw):
        a, b = reshape(I, I.as_arr(a), (-1,)), reshape(I, I.as_arr(b), (-1,))
        r = I.binop("*", I.getitem(a, (ALL, None)), I.getitem(b, (None, ALL)))
        return finish(I, r, kw)
    A["outer"] = Builtin("np.outer", np_outer)

    @D("tensordot")
    def tensordot(a, b, axes=2):
        a, b = I.as_arr(a), I.as_arr(b)
        if isinstance(axes, int):
            aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
        else:
            aa, bb = I.concrete_list(axes)
            aa = [aa] if isinstance(aa, int) else I.concrete_list(aa)
            bb = [bb] if isinstance(bb, int) else I.concrete_list(bb)
        aa = [x % a.ndim for x in aa]
        bb = [x % b.ndim for x in bb]
        letters = "abcdefghijklmnopqrstuvwxyz"
        la = list(letters[:a.ndim])
        lb = list(letters[a.ndim:a.ndim + b.ndim])
        for x, y in zip(aa, bb):
            lb[y] = la[x]
        out = [la[i] for i in range(a.ndim) if i not in aa] + [lb[i] for i in range(b.ndim) if i not in bb]
        return np_einsum(I, "%s,%s->%s" % ("".join(la), "".join(lb), "".join(out)), a, b)

    @D("cross")
    def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
        a, b = I.as_arr(a), I.as_arr(b)
        if axis is not None:
            axisa = axisb = axisc = axis
        if not all(isinstance(x, int) for x in (axisa, axisb, axisc)):
            raise Unsupported("axis of a cross product")
        if a.shape[axisa] != 3 or b.shape[axisb] != 3:
            raise Unsupported("2-d cross product")
        g = lambda x, ax, i: I.getitem(x, (SliceV(None, None, None),) * (ax % x.ndim) + (i,))
        comps = []
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            comps.append(I.as_arr(I.binop("-", I.binop("*", g(a, axisa, j), g(b, axisb, k)), I.binop("*", g(a, axisa, k), g(b, axisb, j)))))
        return stack(I.newlist(comps), axisc)

    @D("kron")
    def kron(a, b):
        raise Unsupported("np.kron")

    # -------------------------------------------------- reductions
    A["sum"] = Builtin("np.sum", lambda a, axis=None, dtype_=None, out=None, keepdims=False, **kw: finish(I, np_sum(I, I.parts2arr(a), axis, keepdims), {"out": out}))
    A["mean"] = Builtin("np.mean", lambda a, axis=None, **kw: np_mean(I, a, axis))
    A["average"] = Builtin("np.average", lambda a, axis=None, weights=None, **kw: np_mean(I, a, axis) if weights is None else I.binop("/", np_sum(I, I.binop("*", I.as_arr(a), I.as_arr(weights)), axis), np_sum(I, weights)))
    A["prod"] = Builtin("np.prod", lambda a, axis=None, **kw: np_prod(I, a, axis))
    A["product"] = A["prod"]
    A["any"] = Builtin("np.any", lambda a, axis=None, **kw: I.unb(np_quant(I, a, axis, True)))
    A["all"] = Builtin("np.all", lambda a, axis=None, **kw: I.unb(np_quant(I, a, axis, False)))
    A["amin"] = A["min"] = Builtin("np.amin", lambda a, axis=None, **kw: np_extremum(I, a, axis, True))
    A["amax"] = A["max"] = Builtin("np.amax", lambda a, axis=None, **kw: np_extremum(I, a, axis, False))
    A["cumsum"] = Builtin("np.cumsum", lambda a, axis=None, **kw: cumsum(I, a, axis))
    A["shape"] = Builtin("np.shape", lambda a: tuple(I.as_arr(a).shape))
    A["ndim"] = Builtin("np.ndim", lambda a: I.as_arr(a).ndim)
    A["size"] = Builtin("np.size", lambda a: prodt(I, I.as_arr(a).shape))

    @D("count_nonzero")
    def count_nonzero(a):
        return np_sum(I, I.ewise1(lambda x: I.cond(x), I.as_arr(a), "B"))

    @D("allclose")
    def allclose(a, b, rtol=None, atol=None, **kw):
        a, b = I.as_arr(a), I.as_arr(b)
        sh = I.bcast_shape([a.shape, b.shape])
        n = 1
        for x in sh:
            n = n * x if isinstance(x, int) and isinstance(n, int) else None
        if n is None or n > 64 or kw or "C" in (a.dtype, b.dtype):
            return T.fresh("allclose", "B")         # opaque
        rt = T.num(Fraction(1, 10 ** 5), "R") if rtol is None else I.scalar(rtol)
        at = T.num(Fraction(1, 10 ** 8), "R") if atol is None else I.scalar(atol)
        out = []
        for ix in itertools.product(*[range(x) for x in sh]):
            x, y = [I.scalar(I.elem(v, tuple(i if d != 1 else 0 for i, d in zip(ix[len(ix) - v.ndim:], v.shape)))) for v in (a, b)]
            out.append(T.le(T.absv(T.sub(x, y)), T.add(at, T.mul(rt, T.absv(y)))))
        return T.and_(*out)

    @D("array_equal")
    def array_equal(a, b):
        a, b = I.as_arr(a), I.as_arr(b)
        if a.ndim != b.ndim:
            return False
        return I.unb(np_quant(I, I.as_arr(I.compare(ast.Eq, a, b)), None, False))

    # -------------------------------------------------- ordering (concrete length: decided element by element)
    def order(a, idxs=None):
        n = a.shape[0]
        if not isinstance(n, int):
            raise Unsupported("sorting of symbolic length")
        from .builtins_model import sort_values
        vals = [(I.elem(a, (T.num(i),)), i) for i in range(n)]
        key = Builtin("key", lambda t: t[0])
        return sort_values(I, vals, key)

    @D("argsort")
    def argsort(a, axis=-1, **kw):
        a = I.as_arr(a)
        if a.ndim != 1:
            raise Unsupported("argsort of n-d array")
        if not isinstance(a.shape[0], int):
            return symargsort(a)
        return I.as_arr(I.newlist([i for _, i in order(a)]), "I")

    def symargsort(a):
        nm = T.fresh("argsort", "I").args[0]
        I.events.append(("argsort", nm, a))
        n = T.lift(a.shape[0])
        return I.new_arr(a.shape, lambda idx: T.fn(nm, idx, "I"), "I")

    @D("sort")
    def sort(a, axis=-1, **kw):
        a = I.as_arr(a)
        if a.ndim != 1:
            raise Unsupported("sort of n-d array")
        if not isinstance(a.shape[0], int):
            return I.getitem(a, symargsort(a))
        return I.as_arr(I.newlist([v for v, _ in order(a)]), a.dtype)

    def argext(ismin):
        def f(a, axis=None, **kw):
            a = I.as_arr(a)
            if axis is not None and a.ndim != 1:
                raise Unsupported("argmin over an axis")
            a = reshape(I, a, (-1,)) if a.ndim != 1 else a
            n = a.shape[0]
            if not isinstance(n, int):
                nm = "argmin" if ismin else "argmax"
                k = T.fresh("k", "I")
                r = T.fresh(nm, "I")
                e = I.elem(a, (k,))
                er = I.elem(a, (r,))
                I.assume(T.and_(T.le(0, r), T.lt(r, n)))
                I.assume(T.forall(k, 0, n, T.le(er, e) if ismin else T.le(e, er)))
                I.events.append((nm, a, r))
                return r
            best = 0
            for i in range(1, n):
                x, y = I.elem(a, (T.num(i),)), I.elem(a, (T.num(best),))
                if I.decide(T.lt(x, y) if ismin else T.lt(y, x)):
                    best = i
            return best
        return f
    A["argmin"] = Builtin("np.argmin", argext(True))
    A["argmax"] = Builtin("np.argmax", argext(False))

    @D("unique")
    def unique(a, **kw):
        a = reshape(I, I.as_arr(a), (-1,))
        out = []
        for v, _ in order(a):
            if out:
                c = I.equal(out[-1], v)
                if c is True or (not isinstance(c, bool) and I.decide(c)):
                    continue
            out.append(v)
        return I.as_arr(I.newlist([I.scalar(x) for x in out]), a.dtype)

    @D("argwhere")
    def argwhere(a):
        a = I.as_arr(a)
        if a.ndim != 1:
            raise Unsupported("argwhere of n-d array")
        return Sel(a.shape[0], lambda i, f=I.freeze_arr(a): I.cond(f((i,))), True)

    @D("flatnonzero")
    def flatnonzero(a):
        a = reshape(I, I.as_arr(a), (-1,))
        return Sel(a.shape[0], lambda i, f=I.freeze_arr(a): I.cond(f((i,))), False)
    A["nonzero"] = Builtin("np.nonzero", lambda a: (flatnonzero(a),))

    @D("gradient")
    def gradient(f, *sp, **kw):
        f = I.as_arr(f)
        axis = kw.get("axis")
        if f.ndim and len(sp) == 1 and f.ndim != 1 and axis is None:
            sp = sp * f.ndim
        if not sp:
            sp = (1,) * (f.ndim if axis is None else 1)
        axes = range(f.ndim) if axis is None else ([axis] if isinstance(axis, int) else I.concrete_list(axis))
        g = I.freeze_arr(f)
        out = []
        for ax, h in zip(axes, sp):
            ax %= f.ndim
            if isinstance(h, Arr) and h.ndim == 0:
                h = I.elem(h, ())
            h = T.toreal(T.lift(h))
            n = T.lift(f.shape[ax])

            def at(idx, ax=ax, h=h, n=n):
                i = idx[ax]
                v = lambda j: g(idx[:ax] + (j,) + idx[ax + 1:])
                mid = T.div(T.sub(v(T.add(i, 1)), v(T.sub(i, 1))), T.mul(2, h))
                lo = T.div(T.sub(v(T.num(1)), v(T.num(0))), h)
                hi = T.div(T.sub(v(T.sub(n, 1)), v(T.sub(n, 2))), h)
                return T.ite(T.eq(i, 0), lo, T.ite(T.eq(i, T.sub(n, 1)), hi, mid))
            out.append(I.new_arr(f.shape, at, "R"))
        if len(out) == 1:
            return out[0]
        return I.newlist(out)

    @D("vectorize")
    def vectorize(f, **kw):
        raise Unsupported("np.vectorize")

    @D("errstate")
    def errstate(**kw):
        return None
    A["seterr"] = Builtin("np.seterr", lambda **kw: None)
    A["set_printoptions"] = Builtin("np.set_printoptions", lambda **kw: None)

    @D("finfo")
    def finfo(d=None):
        return Module("finfo", {"eps": T.num(Fraction(1, 2 ** 52), "R"), "tiny": T.num(Fraction(1, 2 ** 1022), "R"), "max": T.INF})

    @D("triu_indices")
    def triu_indices(n, k=0, m=None):
        if not isinstance(n, int):
            raise Unsupported("triu_indices")
        ij = [(i, j) for i in range(n) for j in range(n) if j - i >= k]
        return (I.as_arr(I.newlist([i for i, _ in ij]), "I"), I.as_arr(I.newlist([j for _, j in ij]), "I"))

    @D("tril_indices")
    def tril_indices(n, k=0, m=None):
        ij = [(i, j) for i in range(n) for j in range(n) if j - i <= k]
        return (I.as_arr(I.newlist([i for i, _ in ij]), "I"), I.as_arr(I.newlist([j for _, j in ij]), "I"))

    @D("triu")
    def triu(a, k=0):
        a = I.as_arr(a)
        f = I.freeze_arr(a)
        return I.new_arr(a.shape, lambda idx: I.vite(T.le(T.lift(k), T.sub(idx[-1], idx[-2])), f(idx), zero(a.dtype)), a.dtype)

    @D("tril")
    def tril(a, k=0):
        a = I.as_arr(a)
        f = I.freeze_arr(a)
        return I.new_arr(a.shape, lambda idx: I.vite(T.le(T.sub(idx[-1], idx[-2]), T.lift(k)), f(idx), zero(a.dtype)), a.dtype)

    @D("ndindex")
    def ndindex(*sh):
        sh = conv_dims(I, sh[0] if len(sh) == 1 and not isinstance(sh[0], int) else sh)
        return Seq([("one", t) for t in itertools.product(*[range(d) for d in sh])])

    @D("ndenumerate")
    def ndenumerate(a):
        a = I.as_arr(a)
        return Seq([("one", (t, I.getitem(a, t))) for t in itertools.product(*[range(d) for d in a.shape])])

    @D("isclose")
    def isclose(a, b, **kw):
        return I.ewise2(lambda x, y: T.fresh("isclose", "B"), I.as_arr(a), I.as_arr(b), "B")

    # -------------------------------------------------- linear algebra
    la = Module("numpy.linalg")
    A["linalg"] = la
    from . import masked
    A["ma"] = masked.module(I)

    def lin(name):
        def deco(f):
            la.attrs[name] = Builtin("np.linalg." + name, f)
            return f
        return deco

    @lin("norm")
    def norm(a, ord=None, axis=None, keepdims=False, **kw):
        a = I.as_arr(a)
        from .builtins_model import sabs
        mag = I.as_arr(I.ewise1(lambda x: sabs(I, x), a, "R")) if a.ndim else I.as_arr(sabs(I, I.elem(a, ())))
        if ord is None or ord == 2 and (a.ndim == 1 or axis is not None):
            return I.call(A["sqrt"], [np_sum(I, I.as_arr(A["multiply"].f(mag, mag)), axis, keepdims)])
        if a.ndim == 1 or isinstance(axis, int):
            if ord == 1:
                return np_sum(I, mag, axis)
            if ord is T.INF:
                return np_extremum(I, mag, axis, False)
        raise Unsupported("matrix norm")

    def mat_at(a):
        return I.freeze_arr(a)

    def spectral(name, sym):
        def f(a, *args, **kw):
            a = I.as_arr(a)
            nd = a.ndim
            nm = T.fresh(name, "R").args[0]
            batch = a.shape[:-2]
            n = a.shape[-1]
            if sym:
                w = I.new_arr(batch + (n,), lambda idx: T.fn(nm + ".w", idx, "R"), "R")
                v = I.new_arr(a.shape, lambda idx: T.fn(nm + ".v", idx, "R"), "R", a.mat)
            else:
                w = I.new_arr(batch + (n,), lambda idx: Cx(T.fn(nm + ".wr", idx, "R"), T.fn(nm + ".wi", idx, "R")), "C")
                v = I.new_arr(a.shape, lambda idx: Cx(T.fn(nm + ".vr", idx, "R"), T.fn(nm + ".vi", idx, "R")), "C", a.mat)
            I.events.append((name, a, w, v, nm))
            if sym and not batch and isinstance(n, int):
                for q in range(n - 1):
                    I.assume(T.le(I.elem(w, (T.num(q),)), I.elem(w, (T.num(q + 1),))))
            I.assumed.add("numpy.linalg.%s returns an eigen-decomposition of its argument%s" % (name, " (ascending, orthonormal)" if sym else ""))
            return (w, v)
        return f
    lin("eigh")(spectral("eigh", True))
    lin("eig")(spectral("eig", False))
    lin("eigvalsh")(lambda a, **kw: la.attrs["eigh"].f(a)[0])
    lin("eigvals")(lambda a, **kw: la.attrs["eig"].f(a)[0])

    @lin("pinv")
    def pinv(a, *args, **kw):
        a = I.as_arr(a)
        nm = T.fresh("pinv", "R").args[0]
        r = I.new_arr((a.shape[1], a.shape[0]), lambda idx: T.fn(nm, idx, "R"), "R", a.mat)
        I.events.append(("pinv", a, r, nm))
        I.assumed.add("numpy.linalg.pinv returns the Moore-Penrose inverse")
        return r

    @lin("inv")
    def inv(a):
        a = I.as_arr(a)
        n = a.shape[-1]
        if not isinstance(n, int) or n > 4 or a.ndim != 2:
            nm = T.fresh("inv", "R").args[0]
            r = I.new_arr(a.shape, lambda idx: T.fn(nm, idx, "R"), "R", a.mat)
            I.events.append(("inv", a, r, nm))
            return r
        M = [[I.elem(a, (T.num(i), T.num(j))) for j in range(n)] for i in range(n)]
        d = det_(M)
        adj = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                mm = [[M[p][q] for q in range(n) if q != i] for p in range(n) if p != j]
                c = det_(mm) if mm else T.num(1, "R")
                adj[i][j] = I.binop("*", c, (-1) ** (i + j))
        return I.as_arr(I.newlist([I.newlist([I.binop("/", T.lift(x), d) for x in row]) for row in adj]))

    def det_(M):
        n = len(M)
        if n == 0:
            return T.num(1, "R")
        if n == 1:
            return T.lift(M[0][0])
        r = T.num(0, "R")
        for j in range(n):
            if isinstance(M[0][j], int) and M[0][j] == 0:
                continue
            mm = [row[:j] + row[j + 1:] for row in M[1:]]
            r = I.binop("+", r, I.binop("*", I.binop("*", M[0][j], det_(mm)), (-1) ** j))
        return r

    @lin("det")
    def det(a):
        a = I.as_arr(a)
        n = a.shape[-1]
        if not isinstance(n, int) or n > 4 or a.ndim != 2:
            raise Unsupported("determinant")
        return det_([[I.elem(a, (T.num(i), T.num(j))) for j in range(n)] for i in range(n)])

    @lin("solve")
    def solve(a, b):
        a, b = I.as_arr(a), I.as_arr(b)
        nm = T.fresh("solve", "R").args[0]
        r = I.new_arr(b.shape, lambda idx: T.fn(nm, idx, "R"), "R")
        I.events.append(("solve", a, b, r, nm))
        return r
    A["identity"].__doc__ = None
    # sub-modules that are only referenced
    A["random"] = Ext("numpy.random")
    A["fft"] = Ext("numpy.fft")
    return m


class Sel(object):
    """result of np.argwhere / flatnonzero on a 1-d mask: the ascending indices i with c(i)"""
    def __init__(self, n, c, two):
        self.n, self.c, self.two = n, c, two

    def np_getitem(self, I, k):
        if self.two:
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], SliceV) and k[0].lo is None and k[0].hi is None and isinstance(k[1], int) and k[1] == 0:
                return Sel(self.n, self.c, False)
        elif isinstance(k, int) or isinstance(k, Term):
            vals = self.concrete(I)
            return I.getitem(I.newlist(vals), k)
        else:
            return I.getitem(self.np_asarray(I), k)
        raise Unsupported("index into argwhere result")

    def np_parts(self, I):
        if self.two:
            raise Unsupported("iteration over argwhere rows")
        if isinstance(self.n, int):
            return tuple(("one", i) for i in self.concrete(I))
        return (("comp", self.n, self.c, lambda i: (("one", i),)),)

    def concrete(self, I):
        if not isinstance(self.n, int):
            raise Unsupported("argwhere of symbolic length")
        return [i for i in range(self.n) if I.decide(T.lift(self.c(T.num(i))))]

    def np_asarray(self, I):
        if not isinstance(self.n, int) and not self.two:
            pos = I.new_arr((self.n,), lambda i: i[0], "I")
            return I.getitem(pos, I.new_arr((self.n,), lambda i: T.lift(self.c(i[0])), "B"))
        return I.as_arr(I.newlist(self.concrete(I)), "I")

    def np_getattr(self, I, name):
        if name in ("ravel", "flatten"):
            return Builtin(name, lambda: Sel(self.n, self.c, False))
        if name == "tolist":
            return Builtin(name, lambda: I.alloc(ListRec(self.np_parts(I)), List))
        if name == "T":
            return self
        raise Unsupported("argwhere result attribute %s" % name)

    def isinst(self, nm):
        return False


# ------------------------------------------------------------------ attributes
def arr_attr(I, a, name):
    np = numpy(I).attrs
    if name == "shape":
        return tuple(a.shape)
    if name == "ndim":
        return a.ndim
    if name == "size":
        return prodt(I, a.shape)
    if name == "T":
        return transpose(I, a) if a.ndim > 1 else a
    if name == "dtype":
        return DType(a.dtype)
    if name in ("A", "base"):
        return Arr(a.bid, a.shape, a.vmap, a.spec, a.dtype)
    if name == "A1":
        return reshape(I, Arr(a.bid, a.shape, a.vmap, a.spec, a.dtype), (-1,))
    if name == "I":
        return np["linalg"].attrs["inv"].f(a)
    if name == "H":
        return transpose(I, I.as_arr(I.call(np["conj"], [a])))
    if name == "real":
        if a.dtype != "C":
            return a
        return I.call(np["real"], [a])
    if name == "imag":
        return I.call(np["imag"], [a])
    if name == "flat":
        return reshape(I, a, (-1,))

    def meth(f):
        return Builtin("ndarray." + name, f)

    def shp(args):
        if len(args) == 1 and not isinstance(args[0], (int, Term)):
            s = args[0]
            return tuple(s) if isinstance(s, tuple) else tuple(I.concrete_list(s))
        return tuple(args)
    if name == "reshape":
        return meth(lambda *s, **kw: reshape(I, a, shp(s)))
    if name == "ravel":
        if a.mat:
            return meth(lambda *s: reshape(I, a, (1, -1)))
        return meth(lambda *s, **kw: reshape(I, a, (-1,)))
    if name == "flatten":
        if a.mat:
            return meth(lambda *s: I.copy_arr(reshape(I, a, (1, -1))))
        return meth(lambda *s: I.copy_arr(reshape(I, a, (-1,))))
    if name == "transpose":
        return meth(lambda *p: transpose(I, a, None if not p or p[0] is None else (shp(p))))
    if name == "copy":
        return meth(lambda *p, **k: I.copy_arr(a))
    if name == "astype":
        return meth(lambda d, **k: I.copy_arr(a, dtype(I, d)))
    if name == "fill":
        return meth(lambda v: I.arr_assign(a, v))
    if name == "tolist":
        def tolist():
            def go(x):
                if not isinstance(x, Arr):
                    return x
                if x.ndim == 0:
                    return I.scalar(I.elem(x, ()))
                ps = []
                for p in I.parts(x):
                    if p[0] == "one":
                        ps.append(("one", go(p[1])))
                    else:
                        ps.append(("comp", p[1], p[2], lambda i, p=p: (("one", go(p[3](i)[0][1])),)))
                return I.alloc(ListRec(ps), List)
            return go(a)
        return meth(tolist)
    if name == "item":
        def item(*k):
            if k:
                return I.getitem(a, k if len(k) > 1 else k[0])
            return I.scalar(I.elem(a, (0,) * a.ndim))
        return meth(item)
    if name == "view":
        return meth(lambda *k: a)
    if name == "sort":
        def sort_(*k, **kw):
            I.arr_assign(a, I.freeze(np["sort"].f(a)))
        return meth(sort_)
    if name == "partition":
        raise Unsupported("partition")
    if name in ("sum", "mean", "prod", "any", "all", "min", "max", "argmin", "argmax", "argsort", "cumsum", "dot", "swapaxes",
                "squeeze", "clip", "conj", "conjugate", "take", "repeat", "round", "diagonal", "trace", "nonzero"):
        f = np.get(name)
        if f is None:
            raise Unsupported("ndarray.%s" % name)
        return meth(lambda *p, **k: f.f(a, *p, **k))
    raise PyExc(I.builtins["AttributeError"], (name,))


def scalar_attr(I, o, name):
    if name == "shape":
        return ()
    if name == "ndim":
        return 0
    if name == "size":
        return 1
    if name == "T":
        return o
    if name == "real":
        return o.re if isinstance(o, Cx) else o
    if name == "imag":
        return o.im if isinstance(o, Cx) else 0
    if name == "dtype":
        return DType(I.dtype_of(o))
    if name in ("item", "copy"):
        return Builtin(name, lambda: o)
    if name in ("conjugate", "conj"):
        return Builtin(name, lambda: Cx(o.re, T.neg(o.im)) if isinstance(o, Cx) else o)
    if name in ("sum", "mean", "min", "max"):
        return Builtin(name, lambda *a, **k: o)
    if name in ("reshape", "ravel", "flatten", "dot", "astype", "any", "all", "round", "tolist"):
        if isinstance(o, Term):
            return arr_attr(I, I.as_arr(o), name) if name != "tolist" else Builtin(name, lambda: o)
    if name == "is_integer":
        return Builtin(name, lambda: T.eq(o, T.toreal(T.lift(I.toint(o)))))
    raise PyExc(I.builtins["AttributeError"], (name,))


def numpy(I):
    m = I.extmods.get("numpy")
    if m is None:
        m = make_numpy(I)
        I.extmods["numpy"] = m
    return m


# ------------------------------------------------------------------ other modules
# packages the repository tries to import that its runtime environment does not have
ABSENT = {"numba", "traits", "qc", "bem", "pytriangle", "mayavi", "tvtk", "vtk", "nlopt", "polygon", "quadtree", "enthought"}


def external_module(I, name):
    if name in I.extmods:
        return I.extmods[name]
    if name.split(".")[0] == "cvxopt":
        from . import cvx
        I.extmods.update(cvx.modules(I))
        return I.extmods[name]
    m = None
    if name.split(".")[0] in ABSENT and name not in I.modpatch:
        raise PyExc(I.builtins["ImportError"], (name,))
    if name in I.modpatch:
        m = I.modpatch[name](I)
    elif name == "numpy":
        return numpy(I)
    elif name.startswith("numpy."):
        o = numpy(I)
        for p in name.split(".")[1:]:
            o = I.getattr(o, p)
        return o if isinstance(o, Module) else Module(name)
    elif name == "math":
        np = numpy(I).attrs
        g = lambda n: np[n]
        m = Module("math", {"pi": T.PI, "e": np["e"], "inf": T.INF, "sqrt": g("sqrt"), "sin": g("sin"), "cos": g("cos"), "tan": g("tan"),
                            "exp": g("exp"), "log": g("log"), "atan2": g("arctan2"), "atan": g("arctan"), "acos": g("arccos"),
                            "asin": g("arcsin"), "sinh": g("sinh"), "cosh": g("cosh"), "hypot": g("hypot"), "fabs": g("fabs"),
                            "floor": Builtin("math.floor", lambda x: mfloor(I, x)), "ceil": Builtin("math.ceil", lambda x: -mfloor_neg(I, x)),
                            "degrees": g("rad2deg"), "radians": g("deg2rad"), "pow": g("power"),
                            "factorial": Builtin("math.factorial", lambda n: mfact(I, n))})
    elif name == "itertools":
        m = Module("itertools", {"product": Builtin("product", lambda *a, **k: product(I, *a, **k)),
                                 "permutations": Builtin("permutations", lambda it, r=None: Seq([("one", tuple(t)) for t in itertools.permutations(I.concrete_list(it), r)])),
                                 "combinations": Builtin("combinations", lambda it, r: Seq([("one", tuple(t)) for t in itertools.combinations(I.concrete_list(it), r)])),
                                 "combinations_with_replacement": Builtin("cwr", lambda it, r: Seq([("one", tuple(t)) for t in itertools.combinations_with_replacement(I.concrete_list(it), r)])),
                                 "chain": mkchain(I), "count": Builtin("count", lambda *a: Ext("itertools.count")),
                                 "cycle": Builtin("cycle", lambda it: Cycle(I.concrete_list(it))),
                                 "repeat": Builtin("repeat", lambda v, n: Seq([("one", v)] * n) if isinstance(n, int) else Seq([("comp", n, lambda i: T.TRUE, lambda i: (("one", v),))])),
                                 "islice": Builtin("islice", lambda it, *a: islice(I, it, *a)),
                                 "zip_longest": Ext("itertools.zip_longest")})
    elif name == "contextlib":
        m = Module("contextlib", {"contextmanager": BuiltinClass("contextmanager", lambda f: CtxFactory(f))})
    elif name == "functools":
        def reduce_(f, it, *init):
            vals = I.concrete_list(it)
            acc = init[0] if init else vals.pop(0)
            for v in vals:
                acc = I.call(f, [acc, v], {})
            return acc

        def partial(f, *a, **k):
            return Builtin("partial", lambda *b, **kk: I.call(f, list(a) + list(b), dict(k, **kk)))
        m = Module("functools", {"reduce": Builtin("reduce", reduce_), "partial": Builtin("partial", partial),
                                 "wraps": Builtin("wraps", lambda f: Builtin("wraps", lambda g: g)),
                                 "lru_cache": Builtin("lru_cache", lambda *a, **k: (a[0] if a and isinstance(a[0], Func) else Builtin("deco", lambda g: g)))})
    elif name == "operator":
        m = Module("operator", {"itemgetter": Builtin("itemgetter", lambda *k: Builtin("ig", lambda o: I.getitem(o, k[0]) if len(k) == 1 else tuple(I.getitem(o, x) for x in k))),
                                "attrgetter": Builtin("attrgetter", lambda k: Builtin("ag", lambda o: I.getattr(o, k))),
                                "add": Builtin("add", lambda a, b: I.binop("+", a, b)), "mul": Builtin("mul", lambda a, b: I.binop("*", a, b))})
    elif name == "collections":
        m = Module("collections", {"OrderedDict": I.builtins["dict"], "namedtuple": Ext("namedtuple"), "defaultdict": Ext("defaultdict")})
    elif name == "copy":
        m = Module("copy", {"copy": Builtin("copy", lambda v: shallow(I, v)), "deepcopy": Builtin("deepcopy", lambda v: deep(I, v))})
    elif name == "warnings":
        m = Module("warnings", {"warn": Builtin("warn", lambda *a, **k: None), "filterwarnings": Builtin("fw", lambda *a, **k: None)})
    elif name == "importlib":
        def import_module(nm, package=None):
            # C extensions other than those made available by I.modpatch are treated as absent
            full = (package or "") + nm if nm.startswith(".") else nm
            if full in I.modpatch:
                return external_module(I, full)
            if full == "electrode._transformations":
                raise PyExc(I.builtins["ImportError"], (full,))
            return I.import_(full, None)
        m = Module("importlib", {"import_module": Builtin("import_module", import_module)})
    elif name == "logging":
        lg = Module("logger", {k: Builtin(k, lambda *a, **kw: None) for k in ("debug", "info", "warning", "error", "critical", "exception", "warn", "log", "setLevel")})
        m = Module("logging", dict({k: Builtin(k, lambda *a, **kw: None) for k in ("debug", "info", "warning", "error", "basicConfig", "warn")}, getLogger=Builtin("getLogger", lambda *a: lg)))
    elif name in ("scipy.ndimage.interpolation", "scipy.ndimage"):
        m = Module(name, {"map_coordinates": Builtin("map_coordinates", lambda *a, **k: map_coordinates(I, *a, **k))})
    elif name == "scipy.linalg":
        la = numpy(I).attrs["linalg"].attrs
        m = Module(name, {k: la[k] for k in ("solve", "inv", "norm", "det", "eigh", "eig", "eigvals", "eigvalsh") if k in la})
    elif name == "time":
        m = Module("time", {"time": Builtin("time", lambda: T.fresh("time", "R")), "sleep": Builtin("sleep", lambda *a: None)})
    elif name == "multiprocessing":
        m = Module("multiprocessing", {"Pool": Ext("Pool")})
    elif name.split(".")[0] in ("scipy", "cvxopt", "matplotlib", "shapely", "gdsii", "traits", "traitsui", "pyface", "mayavi", "os", "sys", "re", "pickle", "json", "struct", "bem", "polygon", "enthought", "quadtree", "vtk", "tvtk", "apptools", "itk", "gdspy", "transforms3d", "nlopt", "pkg_resources", "threading", "random", "string", "io", "gzip", "glob", "csv", "datetime", "types", "typing", "abc", "numba", "__main__", "bisect", "heapq", "fractions", "decimal", "pprint", "unittest"):
        m = Module(name)
    if m is not None:
        I.extmods[name] = m
    return m


def map_coordinates(I, input, coordinates, output=None, order=3, mode="constant", cval=0.0, prefilter=True):
    """assumed contract of scipy: value j is a function of the array (by its entry at generic indices) and of column j of the
    coordinates; order and mode select the function"""
    a, x = I.as_arr(input, "R"), I.as_arr(coordinates, "R")
    if output is not None or x.ndim != 2 or not isinstance(x.shape[0], int) or x.shape[0] != a.ndim or not isinstance(I.py(order), int):
        raise Unsupported("map_coordinates")
    fa, fx = I.freeze_arr(a), I.freeze_arr(x)
    generic = T.toreal(T.lift(fa(tuple(T.var("grid%d" % k, "I") for k in range(a.ndim)))))
    shape = [T.toreal(T.lift(s)) for s in a.shape]
    nm = "interp_%d_%s" % (I.py(order), mode)
    I.assumed.add("scipy.ndimage.map_coordinates(order=1, mode='nearest') interpolates linearly at the given fractional indices")
    return I.new_arr((x.shape[1],), lambda i: T.fn(nm, [generic] + shape + [fx((T.num(k), i[0])) for k in range(a.ndim)]), "R")


class Cycle(object):
    def __init__(self, vals):
        self.vals = vals


def mkchain(I):
    b = Builtin("chain", lambda *its: Seq([p for it in its for p in I.parts(it)]))

    def fi(its):
        out = []
        for p in I.parts(its):
            if p[0] == "one":
                out.extend(I.parts(p[1]))
            elif p[0] == "comp":
                def body(i, p=p):
                    r = []
                    for q in p[3](i):
                        if q[0] != "one":
                            raise Unsupported("chain of nested sequences")
                        r.extend(I.parts(q[1]))
                    return tuple(r)
                out.append(("comp", p[1], p[2], body))
            else:
                raise Unsupported("chain")
        return Seq(out)
    b.attrs = {"from_iterable": Builtin("from_iterable", fi)}
    return b


def islice(I, it, *a):
    a = list(a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0] or 0, a[1], a[2] if len(a) > 2 and a[2] else 1)
    return I.seq_getitem(I.alloc(ListRec(I.parts(it)), List), SliceV(lo, hi, st))


def mfact(I, n):
    if isinstance(n, Term) and n.sort == "R":
        raise PyExc(I.builtins["TypeError"], ("float factorial",))
    if not isinstance(n, int):
        return T.fn("factorial", (T.lift(n),), "I")
    if n < 0:
        raise PyExc(I.builtins["ValueError"], ("factorial of a negative number",))
    return math.factorial(n)


def mfloor(I, x):
    if isinstance(x, int):
        return x
    t = T.lift(x)
    if t.sort == "I":
        return t
    if t.op == "num":
        return math.floor(t.args[0])
    return T.fn("floor", (t,), "I")


def mfloor_neg(I, x):
    r = mfloor(I, I.unop(ast.USub, x))
    return r if isinstance(r, int) else r


def product(I, *its, **kw):
    rep = kw.get("repeat", 1)
    lists = [I.concrete_list(it) for it in its] * rep
    n = 1
    for l in lists:
        n *= max(1, len(l))
    if n > 20000:
        raise Unsupported("large product")
    return Seq([("one", t) for t in itertools.product(*lists)])


def shallow(I, v):
    if isinstance(v, List):
        return I.alloc(ListRec(I.rec(v).parts), List)
    if isinstance(v, Dict):
        r = I.rec(v)
        return I.alloc(DictRec(dict(r.items), r.sym), Dict)
    if isinstance(v, Arr):
        return I.copy_arr(v)
    if isinstance(v, Obj):
        r = I.rec(v)
        attrs = dict(r.attrs)
        if "__list__" in attrs:
            attrs["__list__"] = shallow(I, attrs["__list__"])
        return I.alloc(ObjRec(r.cls, attrs), Obj)
    if isinstance(v, (int, str, Term, Cx, tuple)) or v is None:
        return v
    raise Unsupported("copy of %r" % (v,))


def deep(I, v):
    if isinstance(v, List):
        ps = []
        for p in I.rec(v).parts:
            if p[0] == "one":
                ps.append(("one", deep(I, p[1])))
            elif p[0] == "comp":
                ps.append(p)
            else:
                raise Unsupported("deepcopy")
        return I.alloc(ListRec(ps), List)
    if isinstance(v, tuple):
        return tuple(deep(I, x) for x in v)
    if isinstance(v, Dict):
        r = I.rec(v)
        if r.sym:
            raise Unsupported("deepcopy")
        return I.alloc(DictRec({k: deep(I, x) for k, x in r.items.items()}), Dict)
    if isinstance(v, Obj):
        r = I.rec(v)
        return I.alloc(ObjRec(r.cls, {k: deep(I, x) for k, x in r.attrs.items()}), Obj)
    return shallow(I, v)
