"""Arrays flattened from nested or filtered sequences of symbolic length.  Element i is an opaque application; sums and
iteration go through the nested parts (enumeration lemma: a flat sequence lists its parts in order)."""
from . import terms as T
from .values import *


def probe(I, parts):
    """a leaf value of the sequence, at fresh positions"""
    for p in parts:
        if p[0] == "one":
            return p[1]
        if p[0] == "comp":
            return probe(I, p[3](T.fresh("pr", "I")))
        raise Unsupported("array from loop-carried list")
    return None


def conv_parts(I, parts, conv, rest):
    out = []
    for p in parts:
        if p[0] == "one":
            v = p[1]
            if isinstance(v, (Arr, List, tuple, Obj)):
                a = I.as_arr(v)
                out.append(("one", I.new_arr(a.shape, (lambda f: lambda ix: conv(f(ix)))(I.freeze_arr(a)), I.as_arr(v).dtype)))
            else:
                out.append(("one", conv(v)))
        else:
            out.append(("comp", p[1], p[2], lambda k, p=p: conv_parts(I, p[3](k), conv, rest)))
    return tuple(out)


def all_but_one(I, parts):
    """(n, r, f) for the entries f(0), .., f(n-1) without f(r)"""
    from .loops import affine
    if len(parts) != 1 or parts[0][0] != "comp":
        return None
    _, n, c, f = parts[0]
    k = T.fresh("k", "I")
    t = T.lift(c(k))
    if t.op != "not" or t.args[0].op != "eq" or t.args[0].args[0].sort != "I":
        return None
    ar = affine(t.args[0].args[0], k) if len(t.args[0].args) == 1 else affine(T.sub(*t.args[0].args), k)
    if ar is None:
        return None
    r = T.mul(T.num(-ar[0]), ar[1])
    one = f(k)
    if len(one) != 1 or one[0][0] != "one" or not I.entails(T.and_(T.le(0, r), T.lt(r, T.lift(n)))):
        return None
    return T.lift(n), r, lambda i: f(i)[0][1]


def flat_array(I, parts, dtype):
    from .arrays import _dt
    m = all_but_one(I, parts)
    if m is not None:
        n, r, f = m
        return I.as_arr(Seq((("comp", T.sub(n, 1), lambda i: T.TRUE, lambda i: (("one", f(T.ite(T.lt(i, r), i, T.add(i, 1)))),)),)), dtype)
    v = probe(I, parts)
    if isinstance(v, (Arr, List, tuple, Obj)):
        a = I.as_arr(v)
        rest, dt = a.shape, a.dtype
        if any("!" in str(x.args[0]) for s in rest if isinstance(s, Term) for x in T.fv(s) if isinstance(x, Term)):
            raise Unsupported("ragged array")
    else:
        rest, dt = (), I.dtype_of(v)
    dt = dtype or dt
    if dt not in "RICB":
        raise Unsupported("flat array of objects")
    conv = I.converter(None, dt)
    total = I.length_parts(parts)
    name = T.fresh("flat", dt if dt != "C" else "R").args[0]
    if dt == "C":
        fn = lambda idx: Cx(T.fn(name + ".re", idx, "R"), T.fn(name + ".im", idx, "R"))
    else:
        fn = lambda idx: T.fn(name, idx, dt)
    a = I.new_arr((total,) + tuple(rest), fn, dt)
    I.heap[a.bid].flat = conv_parts(I, parts, conv, rest)
    return a


def flat_of(I, a):
    """the nested parts behind a full one-dimensional view, or None"""
    rec = I.heap.get(a.bid)
    f = getattr(rec, "flat", None)
    if f is None or a.ndim != len(rec.shape) or a.spec is None:
        return None
    if any(s[0] != "ax" or s[1] != i or s[2] != 0 or s[3] != 1 for i, s in enumerate(a.spec)):
        return None
    return f


def flat_sum(I, parts, rest=()):
    tot = T.num(0)
    for p in parts:
        if p[0] == "one":
            v = p[1]
            if isinstance(v, Arr):
                v = I.elem(v, rest)
            tot = I.binop("+", tot, v)
        else:
            k = T.fresh("k", "I")
            body = flat_sum(I, p[3](k), rest)
            if isinstance(body, Cx):
                raise Unsupported("complex flat sum")
            body = T.ite(p[2](k), T.lift(body), T.num(0, T.lift(body).sort))
            tot = I.binop("+", tot, T.summ(k, 0, T.lift(p[1]), body))
    return tot
