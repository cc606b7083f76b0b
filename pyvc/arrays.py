"""numpy array semantics: views, indexing, broadcasting, elementwise operators."""
import ast
import operator
from fractions import Fraction
from . import terms as T
from .terms import Term
from .values import *


def _dt(a, b):
    order = {"B": 0, "I": 1, "R": 2, "C": 3, "O": 4, "S": 4}
    return a if order[a] >= order[b] else b


class ArrayOps(object):
    # ---------------------------------------------------------------- creation
    def new_arr(self, shape, f, dtype="R", mat=False):
        """f: idx tuple of terms -> Term | Cx | value"""
        shape = tuple(self.py(s) for s in shape)
        bid = self.alloc(BufRec(shape, f, dtype))
        return self.full_view(bid, shape, dtype, mat)

    def full_view(self, bid, shape, dtype, mat=False):
        spec = tuple(("ax", i, 0, 1) for i in range(len(shape)))
        return Arr(bid, shape, lambda idx: idx, spec, dtype, mat)

    def freeze_arr(self, a):
        """capture the present element function of a view"""
        f = self.heap[a.bid].fn
        vm = a.vmap
        return lambda idx: f(vm(tuple(idx)))

    def copy_arr(self, a, dtype=None, mat=None):
        f = self.freeze_arr(a)
        dt = dtype or a.dtype
        if dt != a.dtype:
            conv = self.converter(a.dtype, dt)
            g = f
            f = lambda idx: conv(g(idx))
        return self.new_arr(a.shape, f, dt, a.mat if mat is None else mat)

    def converter(self, src, dst):
        if dst == "R":
            return lambda v: self.toreal(v)
        if dst == "I":
            return lambda v: self.toint(v)
        if dst == "C":
            return lambda v: self.tocx(v)
        if dst == "B":
            return lambda v: self.cond(v)
        return lambda v: v

    def toreal(self, v):
        if isinstance(v, bool) or isinstance(v, int):
            return T.num(int(v), "R")
        if isinstance(v, Term):
            if v.sort == "B":
                return T.toreal(T._b2i(v))
            return T.toreal(v)
        if isinstance(v, Cx):
            if is_zero_const(v.im):
                return v.re
            raise PyExc(self.builtins["TypeError"], ("can't convert complex to float",))
        if isinstance(v, str):
            try:
                return T.num(Fraction(v), "R")
            except ValueError:
                raise PyExc(self.builtins["ValueError"], ("could not convert string to float",))
        if isinstance(v, Arr):
            if v.ndim == 0 or all(s == 1 for s in v.shape):
                return self.toreal(self.elem(v, (0,) * v.ndim))
        if v is None:
            raise PyExc(self.builtins["TypeError"], ("float(None)",))
        raise Unsupported("float(%r)" % (v,))

    def toint(self, v):
        """int(): truncation towards zero"""
        if isinstance(v, bool) or isinstance(v, int):
            return int(v)
        if isinstance(v, Arr) and all(s == 1 for s in v.shape):
            return self.toint(self.elem(v, (0,) * v.ndim))
        if isinstance(v, str):
            return int(v)
        v = T.lift(v)
        if v.sort == "B":
            return T._b2i(v)
        if v.sort == "I":
            return self.py(v)
        if v.op == "num":
            import math
            return math.trunc(v.args[0])
        i = intsort(v)
        if i is not None:
            return self.py(i)
        if v.op == "ite":
            return T.ite(v.args[0], T.lift(self.toint(v.args[1])), T.lift(self.toint(v.args[2])))
        if self.entails(T.le(0, v)):
            return T.fn("floor", (v,), "I")
        return T.mk("trunc", (v,), "I")

    def is_matrix(self, a):
        return isinstance(a, Arr) and a.mat

    # ---------------------------------------------------------------- indexing
    def norm_index(self, e, n):
        """normalise a scalar index (negative counts from the end)"""
        if isinstance(e, Arr) and e.ndim == 0:
            e = self.elem(e, ())
        if isinstance(e, Term) and e.op == "num":
            if e.args[0].denominator != 1 or e.sort != "I":
                raise PyExc(self.builtins["IndexError"], ("non-integer index",))
            e = int(e.args[0])
        if isinstance(e, bool):
            raise Unsupported("boolean index")
        if isinstance(e, int):
            if isinstance(n, int):
                if not -n <= e < n:
                    raise PyExc(self.builtins["IndexError"], ("index %d out of range %d" % (e, n),))
                return e % n
            if e < 0:
                self.in_bounds(T.le(T.num(-e), n))
                return T.add(n, e)
            self.in_bounds(T.lt(T.num(e), n))
            return e
        if isinstance(e, Term):
            if e.sort != "I":
                if e.sort == "R":
                    raise PyExc(self.builtins["IndexError"], ("only integers are valid indices",))
                raise Unsupported("index of sort %s" % e.sort)
            if e.op == "ite":
                a, b = self.norm_index(e.args[1], n), self.norm_index(e.args[2], n)
                return T.ite(e.args[0], T.lift(a), T.lift(b))
            if e.op == "fn" and e.args[0].split("!")[0] in ("argsort", "selpos") or self.entails(T.le(T.num(0), e)):
                return e            # positions delivered by argsort / by a mask are never negative
            if self.entails(T.lt(e, T.num(0))):
                return self.py(T.add(e, n))
            return T.ite(T.lt(e, T.num(0)), T.add(e, n), e)
        raise PyExc(self.builtins["TypeError"], ("bad index %r" % (e,),))

    def in_bounds(self, c):
        pass

    def slice_range(self, s, n):
        """(start, length, step) of a basic slice over an axis of length n"""
        step = 1 if s.step is None else self.py(T.lift(s.step)) if not isinstance(s.step, int) else s.step
        if not isinstance(step, int) or step == 0:
            raise Unsupported("symbolic slice step")
        nn = n

        def clampidx(v, lo_default):
            if v is None:
                return lo_default
            v = self.toint(v) if not isinstance(v, int) else v
            if isinstance(v, int) and isinstance(nn, int):
                if v < 0:
                    v += nn
                    if v < 0:
                        v = 0 if step > 0 else -1
                elif v > (nn if step > 0 else nn - 1):
                    v = nn if step > 0 else nn - 1
                return v
            v = T.lift(v)
            nt = T.lift(nn)
            if self.entails(T.lt(v, 0)):
                v = T.add(v, nt)
            elif not self.entails(T.le(0, v)):
                v = T.ite(T.lt(v, 0), T.add(v, nt), v)
            if step > 0:
                lo, hi = T.num(0), nt
            else:
                lo, hi = T.num(-1), T.sub(nt, 1)
            if not self.entails(T.le(v, hi)):
                v = T.ite(T.lt(hi, v), hi, v)
            if not self.entails(T.le(lo, v)):
                v = T.ite(T.lt(v, lo), lo, v)
            return self.py(v)
        if step > 0:
            a, b = clampidx(s.lo, 0), clampidx(s.hi, n)
        else:
            a, b = clampidx(s.lo, self.binop("-", n, 1)), clampidx(s.hi, -1)
        if isinstance(a, int) and isinstance(b, int):
            return a, len(range(a, b, step)), step
        if abs(step) != 1:
            d = T.sub(T.lift(b), T.lift(a)) if step > 0 else T.sub(T.lift(a), T.lift(b))
            ln = T.floordiv(T.add(d, abs(step) - 1), abs(step))
            if not self.entails(T.le(0, ln)):
                ln = T.ite(T.lt(ln, 0), T.num(0), ln)
            return a, self.py(ln), step
        ln = T.sub(b, a) if step == 1 else T.sub(a, b)
        if not (ln.op == "num") and not self.entails(T.le(0, ln)):
            ln = T.ite(T.lt(ln, 0), T.num(0), ln)
        ln = self.py(ln)
        if isinstance(ln, int) and ln < 0:
            ln = 0
        return a, ln, step

    def index_view(self, a, key):
        """basic indexing -> (Arr view) or None when advanced"""
        if not isinstance(key, tuple):
            key = (key,)
        key = tuple(k.np_asarray(self) if hasattr(k, "np_asarray") else k for k in key)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        out = []
        seen = False
        for k in key:
            if k is Ellipsis:
                if seen:
                    raise PyExc(self.builtins["IndexError"], ("two ellipses",))
                seen = True
                out.extend([SliceV(None, None, None)] * (a.ndim - n_real))
            else:
                out.append(k)
        if n_real > a.ndim:
            raise PyExc(self.builtins["IndexError"], ("too many indices",))
        if not seen:
            out.extend([SliceV(None, None, None)] * (a.ndim - n_real))
        adv = any(isinstance(k, (List, tuple, Set)) or (isinstance(k, Arr) and k.ndim > 0) for k in out)
        if adv:
            return None, out
        shape = []
        ax_map = []           # per old view axis: ('fix', e) or ('ax', newaxis, start, step)
        ax = 0
        for k in out:
            if k is None:
                shape.append(1)
                continue
            n = a.shape[ax]
            if isinstance(k, SliceV):
                st, ln, step = self.slice_range(k, n)
                ax_map.append(("ax", len(shape), st, step))
                shape.append(ln)
            else:
                ax_map.append(("fix", self.norm_index(k, n)))
            ax += 1
        return self.compose_view(a, shape, ax_map), None

    def compose_view(self, a, shape, ax_map):
        base = a.vmap

        def vmap(idx, ax_map=tuple(ax_map), base=base):
            o = []
            for m in ax_map:
                if m[0] == "fix":
                    o.append(T.lift(m[1]))
                else:
                    k = T.lift(idx[m[1]])
                    if m[3] != 1:
                        k = T.mul(k, m[3])
                    if not (isinstance(m[2], int) and m[2] == 0):
                        k = T.add(k, m[2])
                    o.append(k)
            return base(tuple(o))
        spec = None
        if a.spec is not None:
            def comp(s):
                if s[0] == "fix":
                    return s
                if s[0] == "mix":
                    return ("mix", s[1], tuple(comp(x) for x in s[2]))
                _, vax, st, step = s
                m = ax_map[vax]
                if m[0] == "fix":
                    return ("fix", T.add(T.mul(T.lift(m[1]), step), st))
                return ("ax", m[1], T.add(T.mul(T.lift(m[2]), step), st), m[3] * step)
            spec = tuple(comp(s) for s in a.spec)
        shape = tuple(self.py(s) for s in shape)
        return Arr(a.bid, shape, vmap, spec, a.dtype, a.mat and len(shape) == 2)

    def getitem(self, o, k):
        if isinstance(o, Arr):
            return self.arr_getitem(o, k)
        if isinstance(o, (List, tuple, str, Seq)):
            return self.seq_getitem(o, k)
        if isinstance(o, Dict):
            r = self.rec(o)
            if r.sym is not None:
                from .builtins_model import symdict_get
                return symdict_get(self, o, k)
            kk = self.dkey(k)
            if kk not in r.items:
                raise PyExc(self.builtins["KeyError"], (k,))
            return r.items[kk]
        if isinstance(o, Obj):
            r = self.rec(o)
            m = r.cls.lookup("__getitem__")
            if m:
                return self.call(Bound(m, o), [k], {})
            if "__list__" in r.attrs:
                return self.seq_getitem(r.attrs["__list__"], k)
        if isinstance(o, Ext):
            raise Unsupported("index of external %s" % o.name)
        if hasattr(o, "np_getitem"):
            return o.np_getitem(self, k)
        raise PyExc(self.builtins["TypeError"], ("not subscriptable: %r" % (o,),))

    def slice_end(self, e, n):
        if e is None or isinstance(e, int):
            return e
        e = self.toint(e)
        if not isinstance(e, Term):
            return e
        if self.decide(T.le(n, e)):
            return n
        for v in range(n - 1, -n, -1):
            if self.decide(T.eq(e, v)):
                return v
        return -n

    def seq_getitem(self, o, k):
        TE = self.builtins["TypeError"]
        if isinstance(k, Arr) and k.ndim == 0:
            k = self.elem(k, ())
        if isinstance(k, SliceV):
            if isinstance(o, str):
                vals = list(o)
            else:
                vals = None
            ps = self.parts(o)
            if all(p[0] == "one" for p in ps):
                vals = [p[1] for p in ps]
                n = len(vals)
                if n <= 64:         # by cases on a symbolic end: every value inside the list, or beyond it
                    k = SliceV(self.slice_end(k.lo, n), self.slice_end(k.hi, n), k.step)
                st, ln, step = self.slice_range(k, n)
                if not isinstance(st, int) or not isinstance(ln, int):
                    raise Unsupported("symbolic slice of a list")
                r = [vals[st + i * step] for i in range(ln)]
                if isinstance(o, str):
                    return "".join(r)
                return tuple(r) if isinstance(o, tuple) else self.newlist(r)
            n = self.length(o)
            st, ln, step = self.slice_range(k, n)
            part = ("comp", ln, lambda i: T.TRUE, lambda i: (("one", self.seq_index(ps, T.add(T.mul(i, step), st))),))
            return self.alloc(ListRec((part,)), List)
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, Term) and k.op == "num" and k.sort == "I":
            k = int(k.args[0])
        if isinstance(k, str) or k is None or isinstance(k, (tuple, List)):
            raise PyExc(TE, ("list indices must be integers",))
        if isinstance(k, Term) and k.sort != "I":
            raise PyExc(TE, ("list indices must be integers",))
        if not isinstance(k, (int, Term)):
            raise PyExc(TE, ("list indices must be integers, not %r" % (k,),))
        ps = self.parts(o)
        if isinstance(k, int) and all(p[0] == "one" for p in ps):
            if not -len(ps) <= k < len(ps):
                raise PyExc(self.builtins["IndexError"], ("list index out of range",))
            return ps[k][1]
        if k == 0 and isinstance(k, int) and ps and ps[0][0] == "comp" and ps[0][2](T.var("_any", "I")) is not T.TRUE and self.none_of([ps[0]]) is not None:
            # the first element that passes the filter
            x = self.first_of(ps[0])
            if x is not None:
                return x[0]
        n = self.length(o)
        if isinstance(k, int):
            # from an end made of explicit elements
            if k >= 0 and len(ps) > k and all(p[0] == "one" for p in ps[:k + 1]):
                return ps[k][1]
            if k < 0 and len(ps) >= -k and all(p[0] == "one" for p in ps[k:]):
                return ps[k][1]
        if isinstance(n, int) and isinstance(k, int):
            ok = T.TRUE if -n <= k < n else T.FALSE
        else:
            ok = T.and_(T.le(T.neg(T.lift(n)), T.lift(k)), T.lt(T.lift(k), T.lift(n)))
        if not self.decide(ok):
            raise PyExc(self.builtins["IndexError"], ("list index out of range",))
        e = self.norm_index(k, n)
        return self.seq_index(ps, T.lift(e))

    def none_of(self, ps):
        """condition: no element comes from these parts (ones and runs of single elements), or None"""
        out = T.TRUE
        for p in ps:
            if p[0] == "one":
                return T.FALSE
            if p[0] != "comp":
                return None
            k = T.fresh("k", "I")
            b = p[3](k)
            if len(b) != 1 or b[0][0] != "one":
                return None
            out = T.and_(out, T.forall(k, 0, T.lift(p[1]), T.not_(p[2](k))))
        return out

    def first_of(self, p):
        """(index of the first element of a run, what follows) after deciding that there is one; None otherwise"""
        n = T.lift(p[1])
        if not self.decide(T.not_(self.none_of([p]))):
            return None
        at = T.fresh("first", "I")
        k = T.fresh("k", "I")
        self.assume(T.and_(T.le(0, at), T.lt(at, n)))
        self.assume(p[2](at))
        self.assume(T.forall(k, 0, at, T.not_(p[2](k))))
        nx = T.add(at, 1)
        return p[3](at)[0][1], ("comp", T.sub(n, nx), lambda j: p[2](T.add(nx, j)), lambda j: p[3](T.add(nx, j)))

    def seq_index(self, ps, e):
        """element at (in-range) index term e of a sequence of parts"""
        off = T.num(0)
        opts = []
        for p in ps:
            if p[0] == "one":
                opts.append((T.eq(e, off), p[1]))
                off = T.add(off, 1)
            elif p[0] == "comp":
                i = T.sub(e, off)
                one = p[3](i)
                if p[2](i) is not T.TRUE or len(one) != 1 or one[0][0] != "one":
                    raise Unsupported("index into a filtered/nested symbolic sequence")
                n = T.lift(p[1])
                opts.append((T.and_(T.le(0, i), T.lt(i, n)), one[0][1]))
                off = T.add(off, n)
            else:
                raise Unsupported("loop-carried list indexed inside the loop")
        live = []
        for c, v in opts:
            if c is T.FALSE:
                continue
            if self.entails(c):
                return v
            if self.entails(T.not_(c)):
                continue
            live.append((c, v))
        if not live:
            raise Infeasible()
        r = live[-1][1]
        try:
            for c, v in reversed(live[:-1]):
                r = self.vmerge(c, v, r)
            return r
        except Unsupported:
            for c, v in live[:-1]:
                if self.decide(c):
                    return v
            self.assume(live[-1][0])
            return live[-1][1]

    def arr_getitem(self, a, key):
        if isinstance(key, Arr) and key.dtype == "B" and key.ndim >= 1:
            return self.mask_get(a, key)
        v, adv = self.index_view(a, key)
        if v is not None:
            if a.mat:
                v = self.mat_fix(a, v, key)
            if v.ndim == 0 and not (a.ndim == 0 and key is Ellipsis):
                return self.scalar(self.elem(v, ()))
            if v.ndim == 0:
                return v
            return v
        return self.adv_get(a, adv)

    def mat_fix(self, a, v, key):
        """np.matrix indexing always stays two-dimensional (except scalars)"""
        if v.ndim == 1:
            k = key if isinstance(key, tuple) else (key,)
            n = v.shape[0]
            fix0 = not isinstance(k[0], SliceV)
            w = v
            if fix0:
                r = Arr(v.bid, (1, n), lambda i, f=v.vmap: f((i[1],)), None, v.dtype, True)
            else:
                r = Arr(v.bid, (n, 1), lambda i, f=v.vmap: f((i[0],)), None, v.dtype, True)
            return r
        return v

    def scalar(self, v):
        if isinstance(v, Term):
            if v.sort == "I":
                return self.py(v)
            if v is T.TRUE:
                return True
            if v is T.FALSE:
                return False
        return v

    def adv_get(self, a, keys):
        """advanced (integer array) indexing; result is a copy"""
        arrs = []
        ax = 0
        plan = []            # per key: ('new',), ('slice', axis, st, ln, step), ('adv', axis, arr)
        if any(isinstance(k, Arr) and k.dtype == "B" for k in keys):
            return self.adv_mask(a, keys)
        for k in keys:
            if k is None:
                plan.append(("new",))
                continue
            if isinstance(k, SliceV):
                st, ln, step = self.slice_range(k, a.shape[ax])
                plan.append(("slice", ax, st, ln, step))
            else:
                ka = self.as_arr(k, "I")
                plan.append(("adv", ax, ka))
                arrs.append(ka)
            ax += 1
        bshape = self.bcast_shape([x.shape for x in arrs])
        fns = {}
        for p in plan:
            if p[0] == "adv":
                fns[id(p)] = self.bcast_fn(p[2], bshape)
        pos = [i for i, p in enumerate(plan) if p[0] == "adv"]
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        shape = []
        layout = []          # result axes
        insert_at = None
        first = pos[0] if contiguous else -1
        if not contiguous:
            shape.extend(bshape)
            badv = 0
        for i, p in enumerate(plan):
            if p[0] == "adv":
                if contiguous and i == first:
                    badv = len(shape)
                    shape.extend(bshape)
                continue
            layout.append((p, len(shape)))
            shape.append(1 if p[0] == "new" else p[3])
        f = self.freeze_arr(a)
        nb = len(bshape)
        lay = {id(p): q for p, q in layout}
        dims = a.shape

        def g(idx):
            b = tuple(idx[badv:badv + nb])
            src = []
            for p in plan:
                if p[0] == "new":
                    continue
                if p[0] == "adv":
                    src.append(T.lift(self.norm_index(self.scalar(fns[id(p)](b)), dims[p[1]])))
                else:
                    src.append(T.add(T.mul(T.lift(idx[lay[id(p)]]), p[4]), p[2]))
            return f(tuple(src))
        # force bounds errors for fully concrete index arrays
        return self.new_arr(shape, g, a.dtype, a.mat and len(shape) == 2)

    def mask_get(self, a, m):
        if m.ndim == 1:
            return self.adv_mask(a, [m] + [SliceV(None, None, None)] * (a.ndim - 1))
        raise Unsupported("multi-dimensional boolean mask")

    def adv_mask(self, a, keys):
        """boolean selection along one axis -> concrete masks, or a filtered array (1-d)"""
        pos = [i for i, k in enumerate(keys) if isinstance(k, Arr) and k.dtype == "B"]
        if len(pos) != 1 or any(k is None for k in keys):
            raise Unsupported("boolean mask combination")
        ax = pos[0]
        m = keys[ax]
        n = m.shape[0]
        if isinstance(n, int):
            sel = []
            for i in range(n):
                if self.truth(self.elem(m, (i,))):
                    sel.append(i)
            k2 = list(keys)
            k2[ax] = self.newlist(sel)
            return self.adv_get(a, k2)
        if not all(isinstance(k, SliceV) for i, k in enumerate(keys) if i != ax):
            raise Unsupported("boolean mask combination")
        # the ascending positions of the True entries: an uninterpreted function of the mask
        k = T.fresh("mk", "I")
        body = T.lift(self.elem(m, (k,)))
        cnt = T.summ(k, 0, n, T.ite(body, T.num(1), T.num(0)))
        nm = "selpos!%d" % T.alpha(cnt).id
        self.events.append(("mask", nm, m))
        b = self.getitem(a, tuple(SliceV(None, None, None) if i == ax else q for i, q in enumerate(keys)))
        g = self.freeze_arr(b)
        self.pc.append(T.le(0, cnt))
        return self.new_arr(tuple(b.shape[:ax]) + (cnt,) + tuple(b.shape[ax + 1:]),
                            lambda idx: g(tuple(idx[:ax]) + (T.fn(nm, (idx[ax],), "I"),) + tuple(idx[ax + 1:])), a.dtype)

    # ---------------------------------------------------------------- writing
    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            if isinstance(k, Arr) and k.dtype == "B":
                return self.mask_set(o, k, v)
            view, adv = self.index_view(o, k)
            if view is None:
                return self.adv_set(o, adv, v)
            return self.arr_assign(view, v)
        if isinstance(o, List):
            r = self.rec(o)
            if isinstance(k, SliceV):
                if k.step not in (None, 1) or not all(x is None or isinstance(x, int) for x in (k.lo, k.hi)):
                    raise Unsupported("list slice assignment")
                old = list(self.concrete_list(o))
                old[k.lo:k.hi] = self.concrete_list(v)
                self.heap[o.id] = ListRec([("one", x) for x in old])
                return
            if isinstance(k, Term):
                k = self.py(k)
            vals = list(r.parts)
            if isinstance(k, int) and all(p[0] == "one" for p in vals):
                if not -len(vals) <= k < len(vals):
                    raise PyExc(self.builtins["IndexError"], ("list assignment index out of range",))
                vals[k] = ("one", v)
                self.heap[o.id] = ListRec(vals)
                return
            raise Unsupported("assignment into a symbolic list")
        if isinstance(o, Dict):
            r = self.rec(o)
            if r.sym is not None or (isinstance(k, Term) and k.op not in ("num", "str")):
                from .builtins_model import symdict_set
                return symdict_set(self, o, k, v)
            r.items[self.dkey(k)] = v
            return
        if isinstance(o, Obj):
            r = self.rec(o)
            m = r.cls.lookup("__setitem__")
            if m:
                self.call(Bound(m, o), [k, v], {})
                return
            if "__list__" in r.attrs:
                return self.setitem(r.attrs["__list__"], k, v)
        if hasattr(o, "np_setitem"):
            return o.np_setitem(self, k, v)
        raise PyExc(self.builtins["TypeError"], ("item assignment on %r" % (o,),))

    def mask_set(self, o, m, v):
        if m.ndim > o.ndim:
            raise Unsupported("mask")
        mf = self.freeze_arr(m)
        if isinstance(v, Arr) and v.ndim > 0:
            raise Unsupported("masked assignment of an array")
        buf = self.heap[o.bid]
        if o.spec is None or any(s[0] != "ax" or T.lift(s[2]) is not T.num(0) or s[3] != 1 for s in o.spec):
            raise Unsupported("masked assignment into a view")
        conv = self.converter(None, buf.dtype)
        old = buf.fn
        axes = [s[1] for s in o.spec]

        def g(b):
            idx = [None] * o.ndim
            for s, bi in zip(o.spec, b):
                idx[s[1]] = bi
            return self.vite(self.cond(mf(tuple(idx[:m.ndim]))), conv(v), old(b))
        self.heap[o.bid] = BufRec(buf.shape, g, buf.dtype)

    def adv_set(self, o, keys, v):
        """assignment through integer index lists of concrete length (one advanced key)"""
        pos = [i for i, k in enumerate(keys) if isinstance(k, (List, tuple, Arr)) and not (isinstance(k, Arr) and k.ndim == 0)]
        if len(pos) > 1:
            arrs = [self.as_arr(keys[i], "I") for i in pos]
            if all(x.ndim == 1 and isinstance(x.shape[0], int) for x in arrs) and len({x.shape[0] for x in arrs}) == 1:
                for j in range(arrs[0].shape[0]):
                    k2 = list(keys)
                    for i, x in zip(pos, arrs):
                        k2[i] = self.scalar(self.elem(x, (j,)))
                    self.setitem(o, tuple(k2), self.getitem(v, j) if isinstance(v, Arr) and v.ndim else v)
                return
            raise Unsupported("multi-axis fancy assignment")
        ka = self.as_arr(keys[pos[0]], "I")
        if ka.dtype == "B":
            raise Unsupported("mask assignment")
        if ka.ndim != 1 or not isinstance(ka.shape[0], int):
            raise Unsupported("fancy assignment of symbolic length")
        if isinstance(v, (List, tuple)):
            v = self.as_arr(v)
        n = ka.shape[0]
        # position of the advanced axis in the result
        rpos = sum(1 for k in keys[:pos[0]] if isinstance(k, SliceV) or k is None)
        rest = sum(1 for k in keys[pos[0] + 1:] if isinstance(k, SliceV) or k is None)
        for j in range(n):
            k2 = list(keys)
            k2[pos[0]] = self.scalar(self.elem(ka, (j,)))
            vj = v
            if isinstance(v, Arr) and v.ndim > rest:
                ax = v.ndim - 1 - rest
                if v.shape[ax] == 1:
                    jj = 0
                else:
                    jj = j
                vj = self.getitem(v, tuple([SliceV(None, None, None)] * ax + [jj]))
            self.setitem(o, tuple(k2), vj)

    def arr_assign(self, view, v):
        """view[...] = v with broadcasting"""
        if view.spec is None:
            raise Unsupported("write through an unsupported view")
        buf = self.heap[view.bid]
        if isinstance(v, (List, tuple)) or hasattr(v, "np_asarray"):
            v = self.as_arr(v)
        if isinstance(v, Obj) or False:
            if isinstance(v, Obj) and "__list__" in self.rec(v).attrs:
                v = self.as_arr(self.rec(v).attrs["__list__"])
        if isinstance(v, Arr):
            vf = self.bcast_fn(v, view.shape, assign=True)
            src_dt = v.dtype
        else:
            vv = v
            vf = lambda idx: vv
            src_dt = self.dtype_of(v)
        if buf.dtype == "I" and src_dt in "RC" or buf.dtype == "B" and src_dt != "B":
            if buf.dtype == "I" and src_dt == "R":
                conv = self.toint
            else:
                raise Unsupported("narrowing store")
        elif buf.dtype == "R" and src_dt == "C":
            raise PyExc(self.builtins["TypeError"], ("can't convert complex to float",))
        else:
            conv = self.converter(src_dt, buf.dtype)
        if not isinstance(v, Arr):
            cv = conv(v)
            vf = lambda idx: cv
            conv2 = None
        else:
            conv2 = conv
        old = buf.fn
        spec, vshape, bshape = view.spec, view.shape, buf.shape
        nd = view.ndim

        def g(b):
            cond = []
            idx = [T.num(0)] * nd
            # axes split by a reshape: one position in the buffer is several digits
            flatspec = []
            for s, bi, n in zip(spec, b, bshape):
                if s[0] != "mix":
                    flatspec.append((s, bi, n))
                    continue
                rem, digits = T.lift(bi), []
                for d in reversed(s[1][1:]):
                    q = T.floordiv(rem, T.lift(d))
                    digits.append(T.sub(rem, T.mul(q, T.lift(d))))
                    rem = q
                flatspec.extend(zip(s[2], [rem] + digits[::-1], s[1]))
            for s, bi, n in flatspec:
                if s[0] == "fix":
                    c = T.eq(bi, T.lift(s[1]))
                    if c is T.FALSE:
                        return old(b)
                    cond.append(c)
                else:
                    _, ax, st, step = s
                    k = T.sub(bi, T.lift(st))
                    if step == -1:
                        k = T.neg(k)
                    elif step != 1:
                        cond.append(T.eq(T.mod(k, step), 0))
                        k = T.floordiv(k, step)
                    idx[ax] = k
                    whole = step == 1 and T.lift(st) is T.num(0) and T.lift(n) is T.lift(vshape[ax])
                    if not whole:
                        c1, c2 = T.le(0, k), T.lt(k, T.lift(vshape[ax]))
                        if c1 is T.FALSE or c2 is T.FALSE:
                            return old(b)
                        cond += [c1, c2]
            c = T.and_(*cond)
            if c is T.FALSE:
                return old(b)
            nv = vf(tuple(idx))
            if conv2 is not None:
                nv = conv2(nv)
            return self.vite(c, nv, old(b)) if c is not T.TRUE else nv
        self.heap[view.bid] = BufRec(buf.shape, g, buf.dtype)

    # ---------------------------------------------------------------- conversion
    def dtype_of(self, v):
        if isinstance(v, bool):
            return "B"
        if isinstance(v, int):
            return "I"
        if isinstance(v, Cx):
            return "C"
        if isinstance(v, Term):
            return v.sort
        if isinstance(v, Arr):
            return v.dtype
        if isinstance(v, str):
            return "S"
        return "O"

    def as_arr(self, v, dtype=None, copy=False):
        """np.asarray"""
        if isinstance(v, Arr):
            if (dtype is None or dtype == v.dtype) and not copy:
                return v
            if dtype is not None and dtype != v.dtype:
                if dtype == "I" and v.dtype == "B" and False:
                    pass
                return self.copy_arr(v, dtype)
            return self.copy_arr(v)
        if isinstance(v, (bool, int, Term, Cx)):
            dt = dtype or self.dtype_of(v)
            cv = self.converter(None, dt)(v)
            return self.new_arr((), lambda idx: T.lift(cv) if not isinstance(cv, Cx) else cv, dt)
        if v is None or isinstance(v, (str, SymObj, Dict)):
            if dtype in ("R", "I", "C"):
                if v is None:
                    return self.new_arr((), lambda idx: self.nan(), "R")
                raise PyExc(self.builtins["ValueError"], ("could not convert",))
            return self.new_arr((), lambda idx: v, "S" if isinstance(v, str) else "O")
        if isinstance(v, Obj) and "__list__" not in self.rec(v).attrs:
            r = self.rec(v)
            m = r.cls.lookup("__array__")
            return self.new_arr((), lambda idx: v, "O")
        if isinstance(v, (List, tuple, Seq, Obj)):
            return self.seq_to_arr(self.parts(v), dtype)
        if isinstance(v, Gen):
            return self.new_arr((), lambda idx: v, "O")
        if hasattr(v, "np_asarray"):
            return v.np_asarray(self)
        raise Unsupported("array from %r" % (v,))

    def nan(self):
        return T.var("NaN", "R")

    def seq_to_arr(self, parts, dtype=None):
        if not parts:
            return self.new_arr((0,), lambda idx: T.num(0, "R"), dtype or "R")
        if all(p[0] == "one" for p in parts):
            vals = [p[1] for p in parts]
            items = [self.as_arr(x) if isinstance(x, (Arr, List, tuple, Obj, Seq)) else x for x in vals]
            if any(isinstance(x, Arr) for x in items):
                if not all(isinstance(x, Arr) for x in items):
                    items = [x if isinstance(x, Arr) else self.as_arr(x) for x in items]
                sh = items[0].shape
                for x in items[1:]:
                    if x.ndim != len(sh) or not all(self.same_dim(p, q) for p, q in zip(x.shape, sh)):
                        raise PyExc(self.builtins["ValueError"], ("inhomogeneous shape",))
                dt = items[0].dtype
                for x in items[1:]:
                    dt = _dt(dt, x.dtype)
                if dtype:
                    dt = dtype
                fns = [self.freeze_arr(x) for x in items]
                conv = self.converter(None, dt)

                def g(idx):
                    i = idx[0]
                    if i.op == "num":
                        return conv(fns[int(i.args[0])](tuple(idx[1:])))
                    r = conv(fns[-1](tuple(idx[1:])))
                    for j in range(len(fns) - 2, -1, -1):
                        r = self.vite(T.eq(i, j), conv(fns[j](tuple(idx[1:]))), r)
                    return r
                return self.new_arr((len(fns),) + sh, g, dt)
            dt = dtype
            if dt is None:
                dt = "B"
                for x in items:
                    dt = _dt(dt, self.dtype_of(x))
            conv = self.converter(None, dt)
            cvals = [conv(x) for x in items]
            cvals = [x if isinstance(x, Cx) or dt in "OS" else T.lift(x) for x in cvals]

            def g1(idx):
                i = idx[0]
                if i.op == "num":
                    return cvals[int(i.args[0])]
                r = cvals[-1]
                for j in range(len(cvals) - 2, -1, -1):
                    r = self.vite(T.eq(i, j), cvals[j], r)
                return r
            return self.new_arr((len(cvals),), g1, dt)
        return self.parts_to_arr(parts, dtype)

    def parts_to_arr(self, parts, dtype):
        """array from a sequence with symbolic parts: each comp yields exactly one element per step"""
        n = self.length_parts(parts)
        k = T.var("_probe", "I")
        # element kind from a probe
        shape_rest = None
        dt = dtype
        segs = []
        off = T.num(0)
        for p in parts:
            if p[0] == "one":
                v = p[1]
                segs.append((off, T.num(1), lambda i, v=v: v))
                off = T.add(off, 1)
            elif p[0] == "comp":
                ps = p[3](k)
                if p[2](k) is T.TRUE and len(ps) == 1 and ps[0][0] == "one":
                    segs.append((off, T.lift(p[1]), lambda i, p=p: p[3](i)[0][1]))
                    off = T.add(off, T.lift(p[1]))
                    continue
                return self.flat_arr(parts, dtype)
            else:
                raise Unsupported("array from loop-carried list")
        probe = segs[-1][2](k)
        for s in segs:
            pv = s[2](k)
            if isinstance(pv, (Arr, List, tuple, Obj)):
                pa = self.as_arr(pv)
                if shape_rest is None:
                    shape_rest = pa.shape
                    dt0 = pa.dtype
                elif len(shape_rest) != pa.ndim:
                    raise Unsupported("inhomogeneous symbolic array")
            else:
                shape_rest = ()
                dt0 = self.dtype_of(pv)
            if dtype is None:
                dt = dt0 if dt is None else _dt(dt, dt0)
        if any(k in T.fv(T.lift(s)) for s in shape_rest):
            raise Unsupported("ragged array")
        conv = self.converter(None, dt)

        def at(seg, i, rest):
            v = seg[2](i)
            if isinstance(v, (Arr, List, tuple, Obj)):
                v = self.elem(self.as_arr(v), rest)
            return conv(v)

        def g(idx):
            i = idx[0]
            r = None
            for s in reversed(segs):
                c = T.TRUE if r is None else T.le(s[0], i)
                try:
                    v = at(s, T.sub(i, s[0]), tuple(idx[1:])) if len(segs) > 1 else at(s, i, tuple(idx[1:]))
                except Infeasible:
                    continue        # the index cannot lie in this part
                if r is None:
                    r = v
                else:
                    nxt = T.add(s[0], s[1])
                    r = self.vite(T.lt(i, nxt), v, r)
            if r is None:
                raise Infeasible()
            return r
        return self.new_arr((n,) + tuple(shape_rest), g, dt)

    def flat_arr(self, parts, dtype):
        from . import flat
        return flat.flat_array(self, parts, dtype)

    def same_dim(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        a, b = T.lift(a), T.lift(b)
        return a is b or self.entails(T.eq(a, b))

    def bcast_shape(self, shapes):
        nd = max(len(s) for s in shapes)
        out = []
        for i in range(nd):
            d = 1
            for s in shapes:
                j = i - (nd - len(s))
                if j < 0:
                    continue
                x = s[j]
                if isinstance(x, int) and x == 1:
                    continue
                if isinstance(d, int) and d == 1:
                    d = x
                elif self.same_dim(d, x):
                    if isinstance(x, int):
                        d = x
                else:
                    if isinstance(d, int) and isinstance(x, int):
                        raise PyExc(self.builtins["ValueError"], ("operands could not be broadcast together",))
                    raise Unsupported("broadcast of %r and %r" % (d, x))
            out.append(d)
        return tuple(out)

    def bcast_fn(self, a, shape, assign=False):
        """element function of a broadcast to shape"""
        f = self.freeze_arr(a)
        nd = len(shape)
        off = nd - a.ndim
        ash = a.shape
        if assign and off < 0:
            # leading ones of the value may be dropped
            k = -off
            if all(isinstance(s, int) and s == 1 for s in ash[:k]):
                return self.bcast_fn(self.getitem(a, tuple([0] * k)), shape)
            raise PyExc(self.builtins["ValueError"], ("could not broadcast input array",))
        if assign:
            for j in range(a.ndim):
                s, d = ash[j], shape[j + off]
                if isinstance(s, int) and s == 1:
                    continue
                if not self.same_dim(s, d):
                    if isinstance(s, int) and isinstance(d, int):
                        raise PyExc(self.builtins["ValueError"], ("could not broadcast input array",))
                    raise Unsupported("assignment of shape %r to %r" % (ash, shape))
        ones = [isinstance(s, int) and s == 1 for s in ash]
        zero = T.num(0)

        def g(idx):
            return f(tuple(zero if ones[j] else idx[j + off] for j in range(len(ash))))
        return g

    # ---------------------------------------------------------------- operators
    def unop(self, op, v):
        if isinstance(v, Arr):
            f = self.freeze_arr(v)
            if op is ast.USub:
                return self.new_arr(v.shape, lambda i: self.sneg(f(i)), v.dtype, v.mat)
            if op is ast.UAdd:
                return v
            if op in (ast.Not,):
                return not self.truth(v)
            if op is ast.Invert:
                return self.new_arr(v.shape, lambda i: T.not_(self.cond(f(i))), "B")
        if op is ast.USub:
            if isinstance(v, (bool, int)):
                return -v
            if hasattr(v, "np_binop"):
                return v.np_binop(self, "neg", v, None)
            return self.sneg(v)
        if op is ast.UAdd:
            return v
        if op is ast.Not:
            c = self.cond(v)
            if c is T.TRUE:
                return False
            if c is T.FALSE:
                return True
            return T.not_(c)
        if op is ast.Invert:
            if isinstance(v, bool):
                return ~v
            if isinstance(v, int):
                return ~v
            if isinstance(v, Term) and v.sort == "B":
                return T.not_(v)
        raise Unsupported("unary operator on %r" % (v,))

    def sneg(self, v):
        if isinstance(v, Cx):
            return Cx(T.neg(v.re), T.neg(v.im))
        if hasattr(v, "np_binop"):
            return v.np_binop(self, "neg", v, None)
        if isinstance(v, Term) and v in (T.INF, T.NINF):
            return T.NINF if v is T.INF else T.INF
        if isinstance(v, str) or isinstance(v, Obj):
            raise PyExc(self.builtins["TypeError"], ("bad operand type for unary -",))
        return self.py(T.neg(T.lift(v)))

    def binop(self, op, a, b):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return self.int_binop(op, int(a) if op not in "&|^" else a, int(b) if op not in "&|^" else b)
        if hasattr(a, "np_binop"):
            return a.np_binop(self, op, a, b)
        if hasattr(b, "np_binop"):
            return b.np_binop(self, op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_binop(op, a, b)
        if isinstance(a, str) or isinstance(b, str):
            return self.str_binop(op, a, b)
        if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, List) or isinstance(b, List):
            return self.seq_binop(op, a, b)
        for x, y, mname in ((a, b, {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "@": "__matmul__", "&": "__and__", "|": "__or__"}),
                            (b, a, {"+": "__radd__", "-": "__rsub__", "*": "__rmul__", "/": "__rtruediv__"})):
            if isinstance(x, Obj):
                m = self.rec(x).cls.lookup(mname.get(op, "?"))
                if m:
                    return self.call(Bound(m, x), [y], {})
                if "__list__" in self.rec(x).attrs and op == "+":
                    l = lambda z: self.rec(z).attrs["__list__"] if isinstance(z, Obj) else z
                    return self.seq_binop(op, l(a), l(b))
        return self.sbinop(op, a, b)

    def int_binop(self, op, a, b):
        if op == "/":
            if b == 0:
                raise PyExc(self.builtins["ZeroDivisionError"], ())
            return T.num(Fraction(a, b), "R")
        if op in ("//", "%") and b == 0:
            raise PyExc(self.builtins["ZeroDivisionError"], ())
        if op == "**":
            if b < 0:
                if a == 0:
                    raise PyExc(self.builtins["ZeroDivisionError"], ())
                return T.num(Fraction(a) ** b, "R")
            return a ** b
        f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod,
             "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift}.get(op)
        if f is None:
            raise Unsupported("operator %s on ints" % op)
        return f(a, b)

    def str_binop(self, op, a, b):
        if op == "%" and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, (str, int)) for x in args):
                try:
                    return a % b
                except (TypeError, ValueError) as e:
                    raise PyExc(self.builtins[type(e).__name__], ())
            return T.fresh("str", "S")
        if op == "+" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "*":
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(b, str) and isinstance(a, int):
                return a * b
        if isinstance(a, Term) and a.sort == "S" or isinstance(b, Term) and b.sort == "S":
            return T.fresh("str", "S")
        raise PyExc(self.builtins["TypeError"], ("unsupported operand types for %s" % op,))

    def seq_binop(self, op, a, b):
        if op == "+":
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            la = a if not isinstance(a, Obj) else a
            if type(a) is type(b):
                return self.alloc(ListRec(tuple(self.parts(a)) + tuple(self.parts(b))), List)
            raise PyExc(self.builtins["TypeError"], ("can only concatenate",))
        if op == "*":
            if isinstance(b, (tuple, List)):
                a, b = b, a
            if isinstance(b, bool):
                b = int(b)
            if isinstance(b, int):
                if isinstance(a, tuple):
                    return a * b
                return self.alloc(ListRec(tuple(self.parts(a)) * max(b, 0)), List)
            if isinstance(b, Term) and b.sort == "I":
                ps = self.parts(a)
                return self.alloc(ListRec((("comp", b, lambda i: T.TRUE, lambda i: ps),)), List)
        if op in "/" and isinstance(a, List) and isinstance(b, Term) and b.sort == "R" and b.op != "num":
            # Python floats and numpy.float64 scalars are one kind here; the latter divide lists entry by entry
            self.assumed.add("a list is divided by a numpy.float64, not by a float")
            return self.binop(op, self.as_arr(a), b)
        raise PyExc(self.builtins["TypeError"], ("unsupported operand types for %s" % op,))

    def sbinop(self, op, a, b):
        """scalars"""
        if isinstance(a, Cx) or isinstance(b, Cx):
            return self.cbinop(op, a, b)
        TE = self.builtins["TypeError"]
        for v in (a, b):
            if v is None or isinstance(v, (Dict, Set, SymObj, Func, Builtin, ClassVal, Obj, Module, BuiltinClass)):
                if isinstance(a, Set) and isinstance(b, Set):
                    break
                raise PyExc(TE, ("unsupported operand types for %s: %r %r" % (op, a, b),))
        if isinstance(a, Set) and isinstance(b, Set):
            x, y = self.rec(a).items, self.rec(b).items
            if op == "-":
                return self.alloc(SetRec([i for i in x if i not in y]), Set)
            if op == "|":
                return self.alloc(SetRec(x + [i for i in y if i not in x]), Set)
            if op == "&":
                return self.alloc(SetRec([i for i in x if i in y]), Set)
        try:
            x, y = T.lift(a), T.lift(b)
        except TypeError:
            raise Unsupported("operator %s on %r, %r" % (op, a, b))
        if x.sort == "S" or y.sort == "S":
            if x.op in ("none",) or y.op in ("none",):
                raise PyExc(TE, ("None operand",))
            raise Unsupported("operator on opaque value")
        try:
            if op == "+":
                r = self.infarith(op, x, y) or T.add(x, y)
            elif op == "-":
                r = self.infarith(op, x, y) or T.sub(x, y)
            elif op == "*":
                r = self.infarith(op, x, y) or T.mul(x, y)
            elif op == "/":
                r = T.div(x, y)
                self.nz(y)
            elif op == "//":
                r = T.floordiv(x, y)
            elif op == "%":
                r = T.mod(x, y)
            elif op == "**":
                r = self.spow(x, y)
            elif op in "&|^" and x.sort == "B" and y.sort == "B":
                r = T.and_(x, y) if op == "&" else T.or_(x, y) if op == "|" else T.not_(T.eq(x, y))
            else:
                raise Unsupported("operator %s" % op)
        except ZeroDivisionError:
            raise PyExc(self.builtins["ZeroDivisionError"], ())
        return self.py(r)

    def infarith(self, op, x, y):
        if x in (T.INF, T.NINF) or y in (T.INF, T.NINF):
            if op == "+":
                return x if x in (T.INF, T.NINF) else y
            if op == "-":
                if x in (T.INF, T.NINF):
                    return x
                return T.NINF if y is T.INF else T.INF
            if op == "*":
                z = y if x in (T.INF, T.NINF) else x
                w = x if x in (T.INF, T.NINF) else y
                if z.op == "num" and z.args[0] > 0:
                    return w
                if z.op == "num" and z.args[0] < 0:
                    return T.NINF if w is T.INF else T.INF
            raise Unsupported("arithmetic with infinity")
        return None

    def nz(self, y):
        if not T.isnum(y):
            self.assumed.add("denominators are non-zero and square roots/logarithms are taken inside their domain")

    def spow(self, x, y):
        if y.op == "num":
            v = y.args[0]
            if v.denominator == 1:
                n = int(v)
                if n < 0 and x.op == "num" and x.args[0] == 0:
                    raise ZeroDivisionError()
                r = T.power(T.toreal(x) if (y.sort == "R" or n < 0) else x, n)
                return r
            return T.power(T.toreal(x), v)
        if x.op == "num" and x.args[0] == -1:
            # (-1)**n
            return T.mk("pows", (x, y), "I")
        return T.mk("pows", (x, y), "I" if x.sort == y.sort == "I" else "R")

    def cbinop(self, op, a, b):
        a, b = self.tocx(a), self.tocx(b)
        if op == "+":
            return Cx(T.add(a.re, b.re), T.add(a.im, b.im))
        if op == "-":
            return Cx(T.sub(a.re, b.re), T.sub(a.im, b.im))
        if op == "*":
            return Cx(T.sub(T.mul(a.re, b.re), T.mul(a.im, b.im)), T.add(T.mul(a.re, b.im), T.mul(a.im, b.re)))
        if op == "/":
            if is_zero_const(b.im):
                return Cx(T.div(a.re, b.re), T.div(a.im, b.re))
            d = T.add(T.mul(b.re, b.re), T.mul(b.im, b.im))
            n = self.cbinop("*", a, Cx(b.re, T.neg(b.im)))
            return Cx(T.div(n.re, d), T.div(n.im, d))
        if op == "**":
            if is_zero_const(b.im) and b.re.op == "num" and b.re.args[0].denominator == 1:
                n = int(b.re.args[0])
                r = Cx(T.num(1, "R"), T.num(0, "R"))
                for _ in range(abs(n)):
                    r = self.cbinop("*", r, a)
                if n < 0:
                    r = self.cbinop("/", Cx(T.num(1, "R"), T.num(0, "R")), r)
                return r
        raise Unsupported("complex operator %s" % op)

    def arr_binop(self, op, a, b):
        if isinstance(a, (List, tuple)):
            a = self.as_arr(a)
        if isinstance(b, (List, tuple)):
            b = self.as_arr(b)
        if op == "@":
            from .npmodel import np_matmul
            return np_matmul(self, a, b)
        mat = self.is_matrix(a) or self.is_matrix(b)
        if mat and op == "*" and isinstance(a, Arr) and isinstance(b, Arr) and a.ndim > 0 and b.ndim > 0:
            from .npmodel import np_dot
            r = np_dot(self, self.mat2(a), self.mat2(b))
            r.mat = True
            return r
        if mat and op == "**" and self.is_matrix(a):
            k = self.scalar(b) if not isinstance(b, Arr) else self.scalar(self.elem(b, ()))
            if not isinstance(k, int) or k < 1:
                raise Unsupported("matrix power")
            r = a
            for _ in range(k - 1):
                r = self.arr_binop("*", r, a)
            return r
        for v in (a, b):
            if v is None or isinstance(v, (str, Dict, SymObj)):
                raise PyExc(self.builtins["TypeError"], ("unsupported operand types for %s: %r %r" % (op, a, b),))
            if isinstance(v, Obj) and "__list__" not in self.rec(v).attrs:
                raise PyExc(self.builtins["TypeError"], ("unsupported operand",))
        if op == "**" and self.dtype_of(a) in "BI" and self.dtype_of(b) in "BI" and b is not None:
            self.int_power(b)
        return self.ewise2(lambda x, y: self.binop(op, x, y) if not (isinstance(x, (Term, Cx)) and isinstance(y, (Term, Cx))) else self.sbinop(op, x, y),
                           a, b, (lambda da, db: "R" if op == "/" and _dt(da, db) in "BI" else ("I" if _dt(da, db) == "B" and op not in "&|^" else _dt(da, db))), mat)

    def int_power(self, b):
        """numpy refuses integers to negative integer powers"""
        if isinstance(b, Arr):
            idx = tuple(T.fresh("i", "I") for _ in b.shape)
            v = self.elem(b, idx)
            rng = [T.and_(T.le(0, i), T.lt(i, T.lift(n))) for i, n in zip(idx, b.shape)]
        else:
            v, rng = T.lift(b), []
        if not self.entails(T.or_(*([T.not_(r) for r in rng] + [T.le(0, v)]))):
            if not isinstance(b, Arr) and self.decide(T.le(0, v)):
                return
            if isinstance(b, Arr) and not b.shape and self.decide(T.le(0, v)):
                return
            if isinstance(b, Arr) and b.shape:
                raise Unsupported("an integer to a power that may be negative")
            raise PyExc(self.builtins["ValueError"], ("Integers to negative integer powers are not allowed.",))

    def mat2(self, a):
        if a.ndim == 2:
            return a
        if a.ndim == 1:
            return self.getitem(a, (None, SliceV(None, None, None)))
        return a

    def ewise2(self, f, a, b, dt, mat=False):
        A = a if isinstance(a, Arr) else None
        B = b if isinstance(b, Arr) else None
        if A is None:
            if isinstance(a, Obj):
                A = a = self.as_arr(a)
        if B is None:
            if isinstance(b, Obj):
                B = b = self.as_arr(b)
        sh = self.bcast_shape([x.shape for x in (A, B) if x is not None])
        fa = self.bcast_fn(A, sh) if A is not None else (lambda idx: a)
        fb = self.bcast_fn(B, sh) if B is not None else (lambda idx: b)
        d = dt(self.dtype_of(a), self.dtype_of(b)) if callable(dt) else dt
        if not sh and False:
            return self.scalar(f(fa(()), fb(())))
        r = self.new_arr(sh, lambda idx: f(fa(idx), fb(idx)), d, mat and len(sh) == 2)
        if not sh:
            return self.scalar(self.elem(r, ()))
        return r

    def ewise1(self, f, a, dt=None):
        if isinstance(a, (List, tuple, Obj)):
            a = self.as_arr(a)
        if not isinstance(a, Arr):
            return self.scalar(f(a))
        g = self.freeze_arr(a)
        r = self.new_arr(a.shape, lambda idx: f(g(idx)), dt or a.dtype, a.mat)
        if a.ndim == 0:
            return self.scalar(self.elem(r, ()))
        return r

    # ---------------------------------------------------------------- comparison
    def compare(self, op, a, b):
        if op is ast.Is or op is ast.IsNot:
            r = self.identical(a, b)
            return r if op is ast.Is else (not r if isinstance(r, bool) else T.not_(r))
        if op is ast.In or op is ast.NotIn:
            r = self.contains(b, a)
            if op is ast.NotIn:
                r = (not r) if isinstance(r, bool) else T.not_(r)
            return r
        if hasattr(a, "np_compare"):
            return a.np_compare(self, op, a, b)
        if hasattr(b, "np_compare"):
            return b.np_compare(self, op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (List, tuple)):
                a = self.as_arr(a)
            if isinstance(b, (List, tuple)):
                b = self.as_arr(b)
            if op in (ast.Eq, ast.NotEq):
                for v in (a, b):
                    if v is None or isinstance(v, (str, Obj)):
                        o = a if isinstance(a, Arr) else b
                        if o.dtype in "IRBC":
                            return self.new_arr(o.shape, lambda i: T.lift(op is ast.NotEq), "B") if o.ndim else (op is ast.NotEq)
            for v in (a, b):
                if v is None or isinstance(v, (str, Dict)):
                    raise PyExc(self.builtins["TypeError"], ("comparison not supported",))
            return self.ewise2(lambda x, y: T.lift(self.scompare(op, x, y)), a, b, "B")
        return self.scompare(op, a, b)

    def identical(self, a, b):
        if a is None or b is None:
            if isinstance(a, Term) and a.sort == "S" or isinstance(b, Term) and b.sort == "S":
                return self.unb(T.eq(T.lift(a), T.lift(b)))
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return False
        if a is b:
            return True
        if isinstance(a, (Ref, SymObj)) and isinstance(b, (Ref, SymObj)):
            if type(a) is type(b) and isinstance(a, SymObj) and a.fam == b.fam:
                return self.unb(T.eq(T.lift(a.idx), T.lift(b.idx)))
            return a == b
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (ClassVal, BuiltinClass)) or isinstance(b, (ClassVal, BuiltinClass)):
            return a is b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return False
        if type(a) is not type(b):
            return False
        raise Unsupported("identity of %r and %r" % (a, b))

    def unb(self, t):
        if t is T.TRUE:
            return True
        if t is T.FALSE:
            return False
        return t

    def contains(self, c, x):
        if hasattr(c, "np_contains"):
            return c.np_contains(self, x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported("substring test on symbolic string")
        if isinstance(c, Dict):
            r = self.rec(c)
            if r.sym is not None or isinstance(x, Term) and x.op not in ("num", "str"):
                from .builtins_model import symdict_has
                return self.unb(symdict_has(self, c, x))
            return self.dkey(x) in r.items
        if isinstance(c, Arr):
            c = self.as_arr(c)
            if c.ndim == 1 and isinstance(c.shape[0], int):
                return self.unb(T.or_(*[T.lift(self.scompare(ast.Eq, self.elem(c, (i,)), x)) for i in range(c.shape[0])]))
            raise Unsupported("in array")
        out = T.FALSE
        for p in self.parts(c):
            if p[0] == "one":
                e = self.scompare(ast.Eq, p[1], x) if not (isinstance(p[1], Arr) or isinstance(x, Arr)) else self.compare(ast.Eq, p[1], x)
                if e is True:
                    return True
                out = T.or_(out, T.lift(e))
            else:
                k = T.fresh("k", "I")
                ps = p[3](k)
                if len(ps) != 1 or ps[0][0] != "one":
                    raise Unsupported("membership in nested sequence")
                e = T.and_(p[2](k), T.lift(self.scompare(ast.Eq, ps[0][1], x)))
                out = T.or_(out, T.not_(T.forall(k, 0, T.lift(p[1]), T.not_(e))))
        return self.unb(out)

    def scompare(self, op, a, b):
        TE = self.builtins["TypeError"]
        if op in (ast.Eq, ast.NotEq):
            r = self.equal(a, b)
            if op is ast.NotEq:
                r = (not r) if isinstance(r, bool) else T.not_(r)
            return r
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                e = self.equal(x, y)
                if e is True:
                    continue
                if e is False:
                    return self.scompare(op, x, y)
                if self.decide(e):
                    continue
                return self.scompare(op, x, y)
            return self.scompare(op, len(a), len(b))
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}
            rf = {ast.Lt: "__gt__", ast.LtE: "__ge__", ast.Gt: "__lt__", ast.GtE: "__le__"}
            if isinstance(a, Obj) and self.rec(a).cls.lookup(nm[op]):
                return self.call(Bound(self.rec(a).cls.lookup(nm[op]), a), [b], {})
            if isinstance(b, Obj) and self.rec(b).cls.lookup(rf[op]):
                return self.call(Bound(self.rec(b).cls.lookup(rf[op]), b), [a], {})
        for v in (a, b):
            if v is None or isinstance(v, (str, tuple, List, Dict, Obj, Cx, SymObj)) or isinstance(v, Term) and v.sort == "S":
                raise PyExc(TE, ("comparison not supported: %r %r" % (a, b),))
        if isinstance(a, int) and isinstance(b, int):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        x, y = T.lift(a), T.lift(b)
        r = {ast.Lt: lambda: T.lt(x, y), ast.LtE: lambda: T.le(x, y), ast.Gt: lambda: T.lt(y, x), ast.GtE: lambda: T.le(y, x)}[op]()
        return self.unb(r)

    def equal(self, a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            if isinstance(a, (Cx, int, Term)) and isinstance(b, (Cx, int, Term)):
                a, b = self.tocx(a), self.tocx(b)
                return self.unb(T.and_(T.eq(a.re, b.re), T.eq(a.im, b.im)))
            return False
        num = lambda v: isinstance(v, (bool, int)) or isinstance(v, Term) and v.sort in "IRB"
        strv = lambda v: isinstance(v, str) or isinstance(v, Term) and v.sort == "S"
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if num(a) and num(b):
            return self.unb(T.eq(T.lift(a), T.lift(b)))
        if strv(a) and strv(b):
            return self.unb(T.eq(T.lift(a), T.lift(b)))
        if a is None or b is None:
            if isinstance(a, Term) and a.sort == "S" or isinstance(b, Term) and b.sort == "S":
                return self.unb(T.eq(T.lift(a), T.lift(b)))
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.equal(x, y) for x, y in zip(a, b)]
            if all(isinstance(r, bool) for r in rs):
                return all(rs)
            return self.unb(T.and_(*[T.lift(r) for r in rs]))
        if isinstance(a, List) and isinstance(b, List):
            pa, pb = self.parts(a), self.parts(b)
            if all(p[0] == "one" for p in pa) and all(p[0] == "one" for p in pb):
                return self.equal(tuple(p[1] for p in pa), tuple(p[1] for p in pb))
            raise Unsupported("equality of symbolic lists")
        if isinstance(a, (Ref, SymObj)) and isinstance(b, (Ref, SymObj)):
            if isinstance(a, Obj):
                m = self.rec(a).cls.lookup("__eq__")
                if m:
                    return self.call(Bound(m, a), [b], {})
            if isinstance(a, SymObj) and isinstance(b, SymObj):
                return self.identical(a, b)
            return a == b
        if isinstance(a, (Func, ClassVal, BuiltinClass, Builtin, Module)) or isinstance(b, (Func, ClassVal, BuiltinClass, Builtin, Module)):
            return a is b
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = self.compare(ast.Eq, a, b)
            return r
        if type(a) is not type(b):
            return False
        raise Unsupported("equality of %r and %r" % (a, b))




def intsort(t):
    """the integer-sorted version of a real term that is built from integers, or None"""
    if t.sort == "I":
        return t
    if t.op == "num":
        return T.num(int(t.args[0]), "I") if t.args[0].denominator == 1 else None
    if t.op == "add":
        if any(c.denominator != 1 for c, _ in t.args[0]) or t.args[1].denominator != 1:
            return None
        xs = [(c, intsort(x)) for c, x in t.args[0]]
        if any(x is None for _, x in xs):
            return None
        return T.add(*([T.mul(T.num(int(c)), x) for c, x in xs] + [T.num(int(t.args[1]))]))
    if t.op == "mul":
        if t.args[0].denominator != 1:
            return None
        xs = [(intsort(x), e) for x, e in t.args[1]]
        if any(x is None or e < 0 for x, e in xs):
            return None
        return T.mul(*([T.num(int(t.args[0]))] + [T.power(x, e) for x, e in xs]))
    if t.op == "ite":
        a, b = intsort(t.args[1]), intsort(t.args[2])
        if a is None or b is None:
            return None
        return T.ite(t.args[0], a, b)
    if t.op == "sum":
        b = intsort(t.args[3])
        return None if b is None else T.summ(t.args[0], t.args[1], t.args[2], b)
    return None
