"""Discharges equalities and conditions: exact back ends decide, random
evaluation only ever refutes."""
import time
from . import terms as T
from . import nf as NFM
from . import solver as S
from . import numev as E

STAT = {}


def _stat(k, dt=0.0):
    n, t = STAT.get(k, (0, 0.0))
    STAT[k] = (n + 1, t + dt)


class Res(object):
    def __init__(self, status, backend, note="", cex=None):
        self.status, self.backend, self.note, self.cex = status, backend, note, cex

    def __repr__(self):
        return "%s[%s]%s" % (self.status, self.backend, self.note)


def opaque_fn(t):
    """symbols introduced by the engine or standing for library functions: their values are
    constrained by more than the random valuation knows, so a numeric difference is only a hint"""
    for v in T.fv(t):
        n = v if isinstance(v, str) else v.args[0]
        if n in E.EXACT:
            continue
        if "!" in n or "." in n or n in ("amin", "amax", "round"):
            return True
    return False


def conds_of(t):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.append(x.args[0])
        if x.op in ("sum", "forall"):
            continue
        st.extend(T.children(x))
    return out


def atoms_of(c):
    if c.op == "not":
        return atoms_of(c.args[0])
    if c.op == "and":
        return [y for x in c.args for y in atoms_of(x)]
    if c in (T.TRUE, T.FALSE):
        return []
    return [c]


def describe(p, terms):
    d = {}
    for t in terms:
        for v in T.fv(t):
            if isinstance(v, T.Term) and v in p.vals:
                d[v.args[0]] = E.mpmath.nstr(p.vals[v], 12) if isinstance(p.vals[v], E.mp.mpf) else p.vals[v]
    f = {}
    for (n, a), v in list(p.fvals.items())[:40]:
        f["%s(%s)" % (n, ",".join(x[:10] for x in a))] = E.mpmath.nstr(v, 12) if isinstance(v, E.mp.mpf) else str(v)
    d.update(f)
    return d


def refute(a, b, pc, seed, want=5):
    """counterexample valuation or None; 'weak' when engine symbols are involved"""
    t0 = time.time()
    try:
        for p in E.points(pc, [a, b], seed, want):
            try:
                if E.differ(a, b, p):
                    x, y = p.ev(a), p.ev(b)
                    return p, "lhs=%s rhs=%s" % (E.mpmath.nstr(x, 15) if isinstance(x, E.mp.mpf) else x,
                                                 E.mpmath.nstr(y, 15) if isinstance(y, E.mp.mpf) else y)
            except (E.Undef, ZeroDivisionError, OverflowError, TypeError, ValueError):
                continue
    finally:
        _stat("numeric", time.time() - t0)
    return None


def relevant(pc, ts):
    syms = set()
    for t in ts:
        syms |= T.fv(t)
    return [c for c in pc if T.fv(c) & syms]


def eq_term(a, b, pc=(), seed=1, limit=4000000, depth=0, numeric=True, nf=True):
    a, b = T.lift(a), T.lift(b)
    pc = list(pc)
    if a is b:
        _stat("syntactic")
        return Res("proved", "syntactic")
    if a.sort == "S" or b.sort == "S" or a.sort == "B" or b.sort == "B":
        t0 = time.time()
        r = S.check(pc + [T.not_(T.eq(a, b)) if a.sort != "B" and b.sort != "B" else
                          T.or_(T.and_(bool_(a), T.not_(bool_(b))), T.and_(bool_(b), T.not_(bool_(a))))], 5000)
        _stat("z3", time.time() - t0)
        if r == "unsat":
            return Res("proved", "z3")
        if numeric:
            c = refute(a, b, pc, seed)
            if c:
                return Res("refuted" if not weak(a, b) else "weak", "numeric", c[1], describe(c[0], [a, b]))
        return Res("undecided", "z3", r)
    if nf and numeric:
        t0 = time.time()
        try:
            n = NFM.NF(limit=min(limit, 40000), entails=lambda c: S.entails(pc, c))
            z = n.is_zero(n.poly(T.sub(a, b)))
        except (NFM.TooBig, ZeroDivisionError, RecursionError) as e:
            z = False
        _stat("normal form", time.time() - t0)
        if z:
            return Res("proved", "normal form")
    if numeric:
        c = refute(a, b, pc, seed)
        if c:
            return Res("refuted" if not weak(a, b) else "weak", "numeric", c[1], describe(c[0], [a, b]))
    z = False
    if nf:
        t0 = time.time()
        try:
            n = NFM.NF(limit=limit, entails=lambda c: S.entails(pc, c))
            z = n.is_zero(n.poly(T.sub(a, b)))
        except (NFM.TooBig, ZeroDivisionError, RecursionError) as e:
            z = False
        _stat("normal form", time.time() - t0)
        if z:
            return Res("proved", "normal form")
        if z is False and depth == 0 and has_ctx(a, b):
            t0 = time.time()
            reps = {}
            try:
                a2, b2 = merge_ctx(sift(a), pc, reps), merge_ctx(sift(b), pc, reps)
                if a2 is b2:
                    z = True
                elif a2 is not a or b2 is not b:
                    n = NFM.NF(limit=limit, entails=lambda c: S.entails(pc, c))
                    z = n.is_zero(n.poly(T.sub(a2, b2)))
                    a, b = a2, b2
            except (NFM.TooBig, ZeroDivisionError, RecursionError):
                pass
            _stat("index merging + normal form", time.time() - t0)
            if z:
                return Res("proved", "index merging (z3) + normal form")
    if depth == 0 and nf and z is not True:
        for last in (False, True):
            a2, b2 = shift_sums(a, last), shift_sums(b, last)
            if a2 is not a or b2 is not b:
                r = eq_term(a2, b2, pc, seed, limit, 1, False, nf)
                if r.status == "proved":
                    return r
    # simplify under the path condition and split on conditions
    if depth < 7:
        d = T.sub(a, b) if a.sort in "IR" and b.sort in "IR" else None
        cs = []
        for c in conds_of(a) + conds_of(b):
            for x in atoms_of(c):
                if x not in cs:
                    cs.append(x)
        for c in cs[:12]:
            t0 = time.time()
            if S.entails(pc, c):
                r = (True,)
            elif S.entails(pc, T.not_(c)):
                r = (False,)
            else:
                r = (True, False)
            _stat("z3", time.time() - t0)
            for v in r:
                a1, b1 = assume_deep(a, c, v), assume_deep(b, c, v)
                res = eq_term(a1, b1, pc + [c if v else T.not_(c)], seed, limit, depth + 1, False, nf)
                if res.status != "proved":
                    return res
            return Res("proved", "case split")
    t0 = time.time()
    r = S.check(relevant(pc, [a, b]) + [T.not_(T.eq(a, b))], 8000)
    if r != "unsat" and depth == 0:
        r = S.check(pc, 8000)          # the case cannot occur
    _stat("z3", time.time() - t0)
    if r == "unsat":
        return Res("proved", "z3")
    return Res("undecided", "all", "not decided")


def shift_sums(t, last=False):
    """sum over k < h-1 of f(k) as sum over k < h of f(k-1), less f(-1) if 0 < h (last: as sum over k < h of f(k), less
    f(h-1) if 0 < h)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        ch = T.children(x)
        r = x
        if ch:
            n = [go(c) for c in ch]
            if any(p is not q for p, q in zip(ch, n)):
                r = T.rebuild(x, n)
        if r.op == "sum":
            k, lo, hi, body = r.args
            items, const = T._linear(hi)
            if T.isnum(lo) and T.numval(lo) == 0 and const == -1 and items:
                h = T.add(hi, 1)
                j = T.fresh("k", "I")
                if last:
                    r = T.sub(T.summ(j, 0, h, T.subst(body, {k: j})), T.ite(T.lt(0, h), T.subst(body, {k: hi}), T.num(0, body.sort)))
                    memo[x] = r
                    return r
                r = T.sub(T.summ(j, 0, h, T.subst(body, {k: T.sub(j, 1)})),
                          T.ite(T.lt(0, h), T.subst(body, {k: T.num(-1)}), T.num(0, body.sort)))
        memo[x] = r
        return r
    return go(T.lift(t))


def sift(t):
    """sum over k of (y(k) if k = e else 0) is y(e) if e is in the range, else 0; conditions free of k leave the sum"""
    memo = {}
    zero = lambda x: T.isnum(x) and T.numval(x) == 0

    def go(x):
        r = memo.get(x)
        if r is None:
            ch = T.children(x)
            r = x
            if ch:
                n = [go(c) for c in ch]
                if any(p is not q for p, q in zip(ch, n)):
                    r = T.rebuild(x, n)
            if r.op == "sum":
                r = one(*r.args)
            memo[x] = r
        return r

    def one(k, lo, hi, b):
        if b.op == "ite" and b.args[0].sort == "B" and (zero(b.args[2]) or zero(b.args[1])):
            c, y = (b.args[0], b.args[1]) if zero(b.args[2]) else (T.not_(b.args[0]), b.args[2])
            cs = list(c.args) if c.op == "and" else [c]
            z = T.num(0, b.sort)
            for q in cs:
                rest = [p for p in cs if p is not q]
                if k not in T.fv(q):
                    return T.ite(q, one(k, lo, hi, T.ite(T.and_(*rest), y, z)), z)
                if q.op == "eq" and q.args[0].sort == "I":
                    items, const = T._linear(q.args[0])
                    co = [a for a, v in items if v is k]
                    if len(co) == 1 and abs(co[0]) == 1 and all(a.denominator == 1 for a, _ in items) and const.denominator == 1 and not any(k in T.fv(v) for _, v in items if v is not k):
                        e = T.sub(k, T.mul(T.num(co[0]), q.args[0]))
                        return T.ite(T.and_(T.le(lo, e), T.lt(e, hi), *[T.subst(p, {k: e}) for p in rest]), T.subst(y, {k: e}), z)
        return T.summ(k, lo, hi, b)
    return go(T.lift(t))


def has_ctx(*ts):
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("sum", "ite", "mod", "floordiv"):
            return True
        st.extend(T.children(x))
    return False


def merge_ctx(t, pc, reps):
    """inside the range of its binders every condition that is decided there is resolved, and integer arguments
    of applications that are provably equal there are replaced by one representative"""
    memo = {}

    def go(x, ctx, depth):
        key = (x, ctx)
        r = memo.get(key)
        if r is not None:
            return r
        r = go1(x, ctx, depth)
        memo[key] = r
        return r

    def go1(x, ctx, depth):
        ch = T.children(x)
        if not ch:
            return x
        if x.op in ("sum", "forall"):
            k, lo, hi, b = x.args
            lo, hi = go(lo, ctx, depth), go(hi, ctx, depth)
            if not (T.isnum(lo) and T.numval(lo) == 0) and x.op == "sum":
                b = T.subst(b, {k: T.add(k, lo)})
                hi = T.sub(hi, lo)
                lo = T.num(0)
            kk = T.var("_m%d" % depth, "I")
            b = T.subst(b, {k: kk})
            b = go(b, ctx + (T.le(lo, kk), T.lt(kk, hi)), depth + 1)
            if x.op == "sum":
                b = pin(lift_ites(b), ctx + (T.le(lo, kk), T.lt(kk, hi)), kk, (T.sub(hi, 1), lo), depth + 1)
            return (T.summ if x.op == "sum" else T.forall)(kk, lo, hi, b)
        if x.op == "ite":
            c = go(x.args[0], ctx, depth)
            full = list(pc) + list(ctx)
            if c.sort == "B" and not c.op == "true":
                if S.entails(full, c):
                    return go(x.args[1], ctx, depth)
                if S.entails(full, T.not_(c)):
                    return go(x.args[2], ctx, depth)
                c = conjuncts(c, full)
            u = go(x.args[1], ctx, depth)
            v = go(x.args[2], ctx, depth)
            if c.sort == "B":
                c, flip = repc(c, ctx)
                if flip:
                    u, v = v, u
            if c.op == "eq" and coincide(c, v, u):
                return v
            if c.op == "not" and c.args[0].op == "eq" and coincide(c.args[0], u, v):
                return u
            return T.ite(c, u, v)
        nch = [go(y, ctx, depth) for y in ch]
        if x.op == "fn":
            nch = [rep(y, ctx) if y.sort == "I" and y.op not in ("num", "var") else y for y in nch]
        if all(p is q for p, q in zip(ch, nch)):
            return x
        return T.rebuild(x, nch)

    def pin(b, ctx, kk, ends, depth):
        """in a case that leaves only the first or the last value of the binder, that value is put in"""
        if b.op != "ite" or b.args[0].sort != "B":
            return b
        c = b.args[0]
        rs = []
        for cc, y in ((c, b.args[1]), (T.not_(c), b.args[2])):
            cx = ctx + (cc,)
            if kk in T.fv(c):
                for e in ends:
                    if S.entails(list(pc) + list(cx), T.eq(kk, e)):
                        y2 = T.subst(y, {kk: e})
                        y = y2 if y2 is y else go(y2, ctx, depth)
                        break
                else:
                    y = pin(y, cx, kk, ends, depth)
            else:
                y = pin(y, cx, kk, ends, depth)
            rs.append(y)
        return T.ite(c, *rs)

    def repc(c, ctx):
        """one representative of the conditions equivalent to c (or to its negation) here"""
        l = reps.setdefault(("cond",) + ctx, [])
        if any(z is c for z in l):
            return c, False
        nc = T.not_(c)
        for z in l[:12]:
            if z is nc:
                return z, True
            if T.fv(z) & T.fv(c):
                full = list(pc) + list(ctx)
                if S.entails(full + [c], z) and S.entails(full + [z], c):
                    return z, False
        l.append(c)
        return c, False

    def rep(y, ctx):
        l = reps.setdefault(ctx, [])
        full = list(pc) + list(ctx)
        for z in l:
            if z is y:
                return z
        cand = []
        for z in l[:40]:
            if z.sort == y.sort and S.entails(full, T.eq(z, y)):
                return z
        l.append(y)
        return y
    return go(t, (), 0)


def coincide(c, v, u):
    """v equals u where the equation c holds: c is solved for an atom, which is replaced in v"""
    t = c.args[0]
    if t.op in ("fn", "var"):
        cand = [(t, T.num(0, t.sort))]
    elif t.op == "add":
        cand = []
        for k, x in t.args[0]:
            if x.op in ("fn", "var") and k in (1, -1):
                rest = T.sub(t, x) if k == 1 else T.add(t, x)
                cand.append((x, T.neg(rest) if k == 1 else rest))
    else:
        return False
    for x, val in cand:
        try:
            w = T.map_term(v, x, val) if hasattr(T, "map_term") else replace(v, x, val)
        except ZeroDivisionError:
            continue
        if w is u:
            return True
    return False


def replace(t, x, val):
    memo = {}

    def go(y):
        if y is x:
            return val
        r = memo.get(y)
        if r is None:
            ch = T.children(y)
            n = [go(z) for z in ch]
            r = y if all(p is q for p, q in zip(ch, n)) else T.rebuild(y, n)
            memo[y] = r
        return r
    return go(t)


def conjuncts(c, full):
    """without the conjuncts that hold here anyway"""
    if c.op == "not" and c.args[0].op == "and":
        return T.not_(conjuncts(c.args[0], full))
    if c.op != "and":
        return c
    cs = list(c.args)
    for x in list(cs):
        if S.entails(full + [y for y in cs if y is not x], x):
            cs.remove(x)
    return T.and_(*cs)


def lift_ites(b):
    """b with every condition outside deeper binders tested once, at the top, in a fixed order"""
    cs = []
    for c in conds_of(b):
        for x in atoms_of(c):
            if x not in cs:
                cs.append(x)
    if not cs or len(cs) > 4:
        return b
    cs.sort(key=lambda c: (len(T.fv(c)), T.key(c) if hasattr(T, "key") else repr(c)))

    def go(b, cs):
        if not cs:
            return b
        u, v = assume_deep(b, cs[0], True), assume_deep(b, cs[0], False)
        if u is b and v is b:
            return go(b, cs[1:])
        return T.ite(cs[0], go(u, cs[1:]), go(v, cs[1:]))
    return go(b, cs)


def weak(*ts):
    return any(opaque_fn(t) for t in ts)


def bool_(t):
    if t.sort == "B":
        return t
    return T.not_(T.eq(t, T.num(0)))


def assume_deep(t, c, v):
    """replace the condition c by its truth value everywhere outside binders that capture"""
    memo = {}

    def go(x):
        if x is c:
            return T.TRUE if v else T.FALSE
        r = memo.get(x)
        if r is not None:
            return r
        ch = T.children(x)
        if not ch:
            return x
        if x.op in ("sum", "forall") and x.args[0] in T.fv(c):
            return x
        n = [go(y) for y in ch]
        r = x if all(p is q for p, q in zip(ch, n)) else T.rebuild(x, n)
        memo[x] = r
        return r
    return go(t)


def holds(c, pc=(), seed=1, numeric=True):
    c = T.lift(c)
    if c is T.TRUE or c in pc:
        return Res("proved", "syntactic")
    if c.op == "and":
        r = None
        for x in c.args:
            r = holds(x, pc, seed, numeric)
            if r.status != "proved":
                return r
        return r
    if numeric:
        r = refute(c, T.TRUE, list(pc), seed)
        if r:
            return Res("refuted" if not weak(c) else "weak", "numeric", r[1], describe(r[0], [c]))
    t0 = time.time()
    r = S.check(relevant(pc, [c]) + [T.not_(c)], 8000)
    if r != "unsat":
        r = S.check(list(pc) + [T.not_(c)], 8000)
    _stat("z3", time.time() - t0)
    if r == "unsat":
        return Res("proved", "z3")
    if c.op in ("eq", "eqs"):
        a, b = (c.args[0], T.num(0)) if c.op == "eq" else c.args
        return eq_term(a, b, pc, seed, numeric=numeric)
    return Res("undecided", "z3", r)


def holds_split(goal, pc, seed=1, limit=6):
    """holds() after a case split on the conditions of conditional terms (those without bound variables) and
    normalisation of all comparisons with one set of atoms"""
    if goal.op == "and":
        for x in goal.args:
            r = holds_split(x, pc, seed, limit)
            if r.status != "proved":
                return r
        return r
    pc = relevant(pc, [goal])
    free = set()
    for t in pc + [goal]:
        free |= T.fv(t)

    def conds(t, out, seen):
        if t in seen:
            return
        seen.add(t)
        if t.op == "ite" and T.fv(t.args[0]) <= free and t.args[0] not in out:
            out.append(t.args[0])
        for x in T.children(t):
            conds(x, out, seen)
    cs = []
    conds(goal, cs, set())
    if len(cs) > limit:
        return Res("undecided", "split", "%d conditions" % len(cs))
    if cs:
        c = cs[0]
        for v in (T.TRUE, T.FALSE):
            lit = c if v is T.TRUE else T.not_(c)
            r = holds_split(T.subst(goal, {c: v}), [T.subst(p, {c: v}) for p in pc if p is not lit] + [lit], seed, limit - 1)
            if r.status != "proved":
                return r
        return r
    n = NFM.NF(limit=60000, entails=lambda c: S.entails(pc, c))
    memo = {}

    def inner(t):
        """squares of absolute values; arguments of roots in normal form"""
        r = memo.get((t,))
        if r is not None:
            return r
        ch = T.children(t)
        r = T.rebuild(t, [inner(x) for x in ch]) if ch and t.op != "fn" else t
        if r.op == "mul" and any(x.op == "abs" and e % 2 == 0 for x, e in r.args[1]):
            r = T.mul(T.num(r.args[0], "R"), *[T.power(x.args[0] if x.op == "abs" and e % 2 == 0 else x, e) for x, e in r.args[1]])
        if r.op == "sqrt" and T.fv(r) <= free:
            try:
                r = T.sqrt(n.to_term(n.poly(r.args[0])))
            except (NFM.TooBig, ZeroDivisionError, RecursionError):
                pass
        memo[(t,)] = r
        return r

    def canon(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ("lt", "eq"):
            try:
                d = n.to_term(n.reduce(n.poly(t.args[0]))) if t.op == "eq" else n.to_term(n.poly(t.args[0]))
                r = T.lt(d, T.num(0)) if t.op == "lt" else T.eq(d, T.num(0))
            except (NFM.TooBig, ZeroDivisionError, RecursionError):
                r = t
        elif t.op in ("and", "or", "not"):
            r = T.rebuild(t, [canon(x) for x in T.children(t)])
        else:
            r = t
        memo[t] = r
        return r
    g = canon(inner(goal))
    ps = [canon(inner(p)) for p in pc]
    return holds(g, ps, seed)

