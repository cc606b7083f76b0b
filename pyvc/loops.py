"""Loop cutting: loops over sequences of symbolic length.

One arbitrary iteration i is executed with every loop-carried location havocked
to an application of a fresh function symbol.  From the step relation a closed
form F(i, .) (the loop invariant "location = F(i, .) at the start of iteration
i") is derived by rules that guarantee initialisation F(0)=init and preservation
F(i+1)=step(F(i)); both are re-checked.  Anything not covered is poisoned: a
later use makes the obligation undecided."""
from . import terms as T
from .terms import Term
from .values import *
from . import solver as S

COUNT = [0]


class Loc(object):
    """a loop-carried location.  kind: var/attr/arrvar/buf/len/fam"""
    def __init__(self, kind, key, nd, hname, cx, sort):
        self.kind, self.key, self.nd, self.h, self.cx, self.sort = kind, key, nd, hname, cx, sort
        self.F = None       # F(i, args) -> Term | Cx
        self.init = None
        self.step = None    # dict comp -> (bvars, term)
        self.why = None


def _sub(v, f):
    if isinstance(v, Cx):
        return Cx(f(v.re), f(v.im))
    return f(T.lift(v))


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str, bool)):
        return a == b
    if isinstance(a, Ref) or isinstance(a, SymObj):
        return a == b
    if isinstance(a, Cx):
        return a.re is b.re and a.im is b.im
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Arr):
        return a.bid == b.bid and a.vmap is b.vmap and a.shape == b.shape
    return False


def writes(h0, h1):
    """locations of h0 changed in h1"""
    out = set()
    for i, r0 in h0.items():
        r1 = h1.get(i)
        if r1 is r0 or r1 is None:
            continue
        if isinstance(r0, EnvRec):
            for k in set(r0.vars) | set(r1.vars):
                if k not in r0.vars or k not in r1.vars or not same(r0.vars[k], r1.vars[k]):
                    out.add(("var", i, k))
        elif isinstance(r0, ObjRec):
            for k in set(r0.attrs) | set(r1.attrs):
                if k not in r0.attrs or k not in r1.attrs or not same(r0.attrs[k], r1.attrs[k]):
                    out.add(("attr", i, k))
        elif isinstance(r0, BufRec):
            out.add(("buf", i))
        elif isinstance(r0, ListRec):
            if not (len(r0.parts) == len(r1.parts) and all(p is q for p, q in zip(r0.parts, r1.parts))):
                out.add(("list", i))
        elif isinstance(r0, DictRec):
            if r0.sym is not r1.sym or set(r0.items) != set(r1.items) or any(not same(r0.items[k], r1.items[k]) for k in r0.items):
                out.add(("dict", i))
        elif isinstance(r0, FamRec):
            for k in r0.fields:
                if r0.fields[k] is not r1.fields[k]:
                    out.add(("fam", i, k))
        elif isinstance(r0, SetRec):
            if len(r0.items) != len(r1.items) or any(not same(x, y) for x, y in zip(r0.items, r1.items)):
                out.add(("set", i))
    return out


def numeric(v):
    return isinstance(v, (bool, int, Cx)) or (isinstance(v, Term) and v.sort in "IRB" and v not in (T.INF, T.NINF))


def cut_loop(I, part, cb, where):
    from .interp import Poison
    COUNT[0] += 1
    n, cond, parts = T.lift(part[1]), part[2], part[3]
    if not I.entails(T.le(0, n)):
        if not I.decide(T.lt(0, n)):
            return
    i = T.fresh("i", "I")
    rng = [T.le(0, i), T.lt(i, n)]
    c0 = cond(i)
    filt = c0 is not T.TRUE

    def body(at=i):
        if filt:
            I.assume(cond(at))
        I.loopstack.append(at)
        try:
            I.iter_parts(parts(at), cb, where)
        finally:
            I.loopstack.pop()

    h0 = I.snapshot()
    known = set(h0)
    nevents = len(I.events)

    # ---- fixpoint of the write set
    ws = set()
    modes = {}           # lists that get one number per iteration at the end or at the front: their items are kept track of
    guess = {}
    for attempt in range(8):
        I.restore(h0)
        locs = havoc(I, ws, h0, i, n, where, modes)
        hav = I.snapshot()
        try:
            res = I.explore(body, rng)
        except Unsupported:
            new = {w[1]: guess[w[1]] for w in ws if w[0] == "list" and guess.get(w[1]) and w[1] not in modes}
            if not new or filt:
                raise
            modes.update(new)
            continue
        I.restore(hav)
        for w in known:
            if isinstance(hav[w], ListRec) and w not in guess and ("list", w) not in ws and any(o[0] == "next" for pc, o, heap in res):
                guess[w] = growth(hav[w].parts, [heap[w].parts for pc, o, heap in res if o[0] == "next"])
        neww = set()
        for pc, out, heap in res:
            base = {k: hav[k] for k in known}
            neww |= writes(base, heap)
        if neww <= ws:
            break
        ws |= neww
    else:
        raise Unsupported("loop write set does not stabilise in %s" % where)
    del I.events[nevents:]
    exits = [(pc, out) for pc, out, heap in res if out[0] != "next"]
    nexts = [(pc, heap) for pc, out, heap in res if out[0] == "next"]

    # ---- step relations
    allpc = [T.and_(*pc) for pc, heap in nexts]

    def merge(vals):
        r = vals[-1]
        for c, v in zip(reversed(allpc[:-1]), reversed(vals[:-1])):
            r = I.vmerge(c, v, r) if not numeric(r) or not numeric(v) else I.vite(c, v, r)
        return r

    def skip_ite(v, h):
        """account for filtered iterations"""
        if not filt:
            return v
        return I.vite(c0, v, h)
    final = {}
    for L in locs:
        L.final = None
        if not nexts:
            L.why = "no normal continuation"
            continue
        try:
            if L.kind == "var":
                vals = [heap[L.key[1]].vars.get(L.key[2], Poison("unbound")) for pc, heap in nexts]
            elif L.kind == "attr":
                vals = [heap[L.key[1]].attrs.get(L.key[2], Poison("unbound")) for pc, heap in nexts]
            elif L.kind == "arrvar":
                vals = [heap[L.key[1]].vars.get(L.key[2]) for pc, heap in nexts]
            elif L.kind == "buf":
                vals = [heap[L.key[1]] for pc, heap in nexts]
            elif L.kind == "fam":
                vals = [heap[L.key[1]].fields[L.key[2]] for pc, heap in nexts]
            elif L.kind == "len":
                continue
            elif L.kind == "seq":
                if exits or filt:
                    raise Unsupported("list not extended in every iteration")
                old = hav[L.key[1]].parts
                if growth(old, [heap[L.key[1]].parts for pc, heap in nexts]) != modes[L.key[1]]:
                    raise Unsupported("list extended irregularly")
                vals = [heap[L.key[1]].parts[-1 if L.mode == "app" else 0][1] for pc, heap in nexts]
            if any(isinstance(v, Poison) for v in vals):
                raise Unsupported("unbound on some path")
            L.vals = vals
            if L.h is None:
                continue        # generic temporary
            # axes of length one have the single index 0
            b = tuple(T.num(0) if isinstance(sh, int) and sh == 1 else T.fresh("b", "I") for sh in getattr(L, "shape", (None,) * L.nd))
            if L.kind in ("var", "attr", "seq"):
                if not all(numeric(v) for v in vals):
                    raise Unsupported("non-numeric loop-carried value")
                v = merge([v if isinstance(v, Cx) else T.lift(v) for v in vals])
            else:
                out = []
                for (pc, heap), v in zip(nexts, vals):
                    old = I.heap
                    oldpc = I.pc
                    I.heap = heap
                    I.pc = oldpc + rng + ([c0] if filt else []) + list(pc) + L.bounds(b)
                    try:
                        if L.kind == "buf":
                            e = v.fn(b)
                        elif L.kind == "fam":
                            e = v(*b)
                        else:
                            if not isinstance(v, Arr) or v.ndim != L.nd or not all(I.same_dim(p, q) for p, q in zip(v.shape, L.shape)):
                                raise Unsupported("array variable changes shape")
                            e = I.elem(v, b)
                    finally:
                        I.heap = old
                        I.pc = oldpc
                    if not numeric(e) and not (L.kind == "fam" and (isinstance(e, str) or isinstance(e, Term) and e.sort == "S")):
                        if L.kind == "buf" or L.kind == "fam":
                            raise Unsupported("non-numeric array element")
                        raise Unsupported("object array")
                    out.append(e if isinstance(e, Cx) else T.lift(e))
                v = merge(out)
            if L.cx:
                v = I.tocx(v)
                L.step = [(b, skip_ite(v.re, T.fn(L.h + ".re", b, "R")), L.h + ".re"), (b, skip_ite(v.im, T.fn(L.h + ".im", b, "R")), L.h + ".im")]
            else:
                if isinstance(v, Cx):
                    raise Unsupported("becomes complex")
                L.step = [(b, skip_ite(v, T.fn(L.h, b, L.sort)), L.h)]
        except Unsupported as e:
            L.why = str(e)
    # a scalar that becomes an array in the first iteration: run that iteration on its own, then cut the rest
    if not filt and not exits and any(L.kind == "var" and L.h is not None and getattr(L, "vals", None) and
                                      all(isinstance(v, Arr) for v in L.vals) for L in locs):
        I.restore(h0)
        if not I.entails(T.lt(0, n)):
            if not I.decide(T.lt(0, n)):
                return
        body(T.num(0))
        I.iter_parts((("comp", I.py(T.sub(n, 1)), lambda j: cond(T.add(j, 1)), lambda j: parts(T.add(j, 1))),), cb, where)
        return
    # list appends
    lists = []
    for w in sorted(ws, key=str):
        if w[0] == "list":
            lists.append(w)

    # ---- closed forms
    solved = {}          # hname -> F(i, args)

    def close(t, at=None):
        """replace solved havoc symbols by their closed form at iteration i"""
        def f(name, args, sort):
            F = solved.get(name)
            if F is None:
                return None
            return F(i, args)
        t = T.map_fn(t, f)
        if at is not None:
            t = T.subst(t, {i: at})
        return t
    hnames = set()
    for L in locs:
        if L.h is not None:
            hnames |= {L.h, L.h + ".re", L.h + ".im"}
        if L.kind == "len":
            hnames.add(L.h)

    def unsolved(t):
        return {x for x in T.fv(t) if isinstance(x, str) and x in hnames and x not in solved}

    # list lengths
    for L in locs:
        if L.kind == "len":
            try:
                tot = []
                for pc, heap in nexts:
                    ps = heap[L.key[1]].parts
                    if not ps or ps[0][0] != "hav" or ps[0][1] != L.h:
                        raise Unsupported("list is not only appended to")
                    old = I.heap
                    I.heap = heap
                    try:
                        tot.append(T.lift(I.length_parts(ps)))
                    finally:
                        I.heap = old
                L.step = [((), skip_ite(merge(tot), T.fn(L.h, (), "I")), L.h)]
                L.parts = [heap[L.key[1]].parts[1:] for pc, heap in nexts]
            except Unsupported as e:
                L.why = str(e)
    pending = [(L, s) for L in locs if L.step for s in L.step]
    progress = True
    while pending and progress:
        progress = False
        for item in list(pending):
            L, (b, v, hn) = item
            v = close(v)
            own = T.fn(hn, b, L.sort if not L.cx else "R")
            init = L.initf(hn)
            if L.kind == "seq":
                F = sequence(I, v, hn, i, unsolved, rng)
            else:
                F = classify(I, v, own, hn, b, i, n, init, unsolved, rng + ([] if not filt else []), L)
            if F is not None:
                solved[hn] = F
                pending.remove(item)
                progress = True
    for L, s in pending:
        L.why = L.why or "loop-carried value has no recognised closed form"
        L.bad = True

    # ---- path conditions of exits must be over closed state
    exit_conds = []
    for pc, out in exits:
        c = close(T.and_(*pc))
        if filt:
            c = T.and_(c0, c)
        if unsolved(c):
            raise Unsupported("loop exit depends on unrecognised loop-carried state in %s" % where)
        exit_conds.append(c)
    for pc in allpc:
        pass

    old_heaps = dict(nexts=nexts)
    inst_cache = {}

    def make_inst(at, heap, pc):
        """function mapping values produced by iteration i (in `heap`) to iteration `at`"""
        memo = {}
        extra = rng + ([c0] if filt else []) + list(pc)

        def tm(t):
            t = close(t)
            if unsolved(t):
                raise Unsupported("value depends on unrecognised loop-carried state")
            return T.subst(t, {i: at})

        def inst(v):
            if isinstance(v, Term):
                return I.scalar(tm(v))
            if isinstance(v, Cx):
                return Cx(tm(v.re), tm(v.im))
            if isinstance(v, (int, str, bool)) or v is None:
                return v
            if isinstance(v, tuple):
                return tuple(inst(x) for x in v)
            if isinstance(v, SymObj):
                return SymObj(v.fam, tm(T.lift(v.idx)))
            if isinstance(v, Arr):
                rec = heap[v.bid]
                vm = v.vmap

                def f(idx, rec=rec, vm=vm):
                    oh, op = I.heap, I.pc
                    I.heap = heap
                    I.pc = op + extra
                    try:
                        e = rec.fn(vm(tuple(idx)))
                    finally:
                        I.heap, I.pc = oh, op
                    return inst(e) if not isinstance(e, Term) else tm(e)
                shape = tuple(I.py(tm(T.lift(s))) for s in v.shape)
                if v.bid in known and v.bid not in {k[1] for k in ws if k[0] == "buf"}:
                    # a view of an unchanged outer array
                    return Arr(v.bid, shape, lambda idx: tuple(tm(T.lift(e)) for e in vm(tuple(idx))), None, v.dtype, v.mat)
                return I.new_arr(shape, f, v.dtype, v.mat)
            if isinstance(v, Ref):
                if v.id in known:
                    return v
                k = (type(v).__name__, v.id)
                if k in memo:
                    return memo[k]
                rec = heap[v.id]
                if isinstance(rec, ListRec):
                    r = I.alloc(ListRec([inst_part(p) for p in rec.parts]), List)
                elif isinstance(rec, DictRec) and rec.sym is None:
                    r = I.alloc(DictRec({kk: inst(x) for kk, x in rec.items.items()}), Dict)
                elif isinstance(rec, ObjRec):
                    r = I.alloc(ObjRec(rec.cls, {}), Obj)
                    memo[k] = r
                    for kk, x in rec.attrs.items():
                        I.heap[r.id].attrs[kk] = inst(x)
                elif isinstance(rec, SetRec):
                    r = I.alloc(SetRec([inst(x) for x in rec.items]), Set)
                else:
                    raise Unsupported("instantiation of %r" % (v,))
                memo[k] = r
                return r
            if isinstance(v, (Func, Builtin, ClassVal, BuiltinClass, Module, Ext)):
                if isinstance(v, Func) and v.env not in known:
                    raise Unsupported("closure escaping a loop")
                return v
            if isinstance(v, Bound):
                return Bound(inst(v.f), inst(v.self_))
            if isinstance(v, Seq):
                return Seq([inst_part(p) for p in v.parts])
            if hasattr(v, "np_map"):
                return v.np_map(inst)
            raise Unsupported("value %r escaping a loop" % (v,))

        def inst_part(p):
            if p[0] == "one":
                return ("one", inst(p[1]))
            if p[0] == "comp":
                def c(j):
                    return tm(p[2](j))

                def q(j):
                    oh = I.heap
                    I.heap = dict(oh, **{}) if False else oh
                    with_heap = heap
                    # evaluate the element function against the iteration's heap
                    saved = I.heap
                    I.heap = with_heap
                    try:
                        ps = p[3](j)
                        new = {k: I.heap[k] for k in I.heap if k not in with_heap_ids}
                    finally:
                        I.heap = saved
                    return tuple(inst_part(x) for x in ps)
                with_heap_ids = set(heap)
                return ("comp", I.py(tm(T.lift(p[1]))), c, q)
            raise Unsupported("loop-carried list escaping the loop")
        return inst

    def set_state(at, guard_nonempty):
        """state at the start of iteration `at` (at = n: after the loop)"""
        I.restore(h0)
        for L in locs:
            L.install(I, at, solved, close, i, n, make_inst, nexts, guard_nonempty, merge)
        for L in locs:
            if L.kind == "len":
                install_list(I, L, at, nexts, allpc, make_inst, i, filt, c0, close)
        for w in ws:
            if w[0] in ("dict", "set"):
                raise Unsupported("dictionary or set built in a symbolic loop in %s" % where)

    I.loops.append((where, len(solved), [L.why for L in locs if L.why]))
    I.obligations_inner += 2 * len(solved)
    nonempty = I.entails(T.lt(0, n))
    if exits:
        anyexit = T.not_(T.and_(*[T.not_(c) for c in exit_conds]))
        k = T.fresh("k", "I")
        none = T.forall(k, 0, n, T.not_(T.subst(anyexit, {i: k})))
        if not I.decide(none):
            at = T.fresh("first", "I")
            I.assume(T.le(0, at))
            I.assume(T.lt(at, n))
            ex = T.subst(anyexit, {i: at})
            I.assume(ex)
            k2 = T.fresh("k", "I")
            I.assume(T.forall(k2, 0, at, T.not_(T.subst(anyexit, {i: k2}))))
            set_state(at, False)
            try:
                body(at)
            except ContinueSig:
                pass
            raise Infeasible()
    set_state(n, nonempty)


def growth(old, news):
    """("app"|"pre", sort) if every list is the old one with one number more at the same end"""
    out = set()
    for ps in news:
        if len(ps) != len(old) + 1:
            return None
        if all(p is q for p, q in zip(old, ps)):
            m, x = "app", ps[-1]
        elif all(p is q for p, q in zip(old, ps[1:])):
            m, x = "pre", ps[0]
        else:
            return None
        if x[0] != "one" or not numeric(x[1]) or isinstance(x[1], Cx):
            return None
        out.add((m, T.lift(x[1]).sort))
    return out.pop() if len(out) == 1 else None


def recursive(I, body, hn, i, more=()):
    """function symbol defined by body(i), which applies hn (args -> the symbol) to smaller arguments only; the definition
    is kept in I.recs and used by unfold()"""
    extras = tuple(x for x in I.loopstack if isinstance(x, Term) and x is not i and x in T.fv(body))
    name = T.fresh("rec", "R").args[0]
    sort = body.sort

    def own(fname, args, s):
        return T.fn(name, (args[0],) + extras, sort) if fname == hn else None
    I.recs[name] = ((i,) + extras, T.map_fn(body, own))
    return lambda e: T.fn(name, (T.lift(e),) + extras, sort)


def unfold(I, t, keep=()):
    """replace the outermost applications of recursively defined symbols by their definition"""
    def f(name, args, sort):
        if name not in I.recs:
            return None
        ps, body = I.recs[name]
        return T.subst(body, dict(zip(ps, args)))
    return T.map_fn(T.lift(t), f)


def sequence(I, v, hn, i, unsolved, rng):
    """items of a list that grows by one number per iteration: item(i) = v, which may use earlier items"""
    if unsolved(v) - {hn}:
        return None
    if hn not in T.fv(v):
        return lambda at, args: T.subst(v, {i: args[0]})
    ok = []

    def see(name, args, sort):
        if name == hn:
            ok.append(T.sub(i, args[0]))
    T.map_fn(v, see)
    for d in ok:
        # earlier items only (a constant distance); the definition is well-founded
        if not (d.op == "num" and d.args[0] >= 1):
            return None
    F = recursive(I, v, hn, i)
    return lambda at, args: F(args[0])


def mk_install_seq(L):
    def f(I, at, solved, close, i, n, make_inst, nexts, nonempty, merge):
        if L.h not in solved:
            I.heap[L.key[1]] = ListRec((("poison", L.why or "list without closed form after a loop"),))
            return
        I.heap[L.key[1]] = ListRec(grown(I, L, at, lambda k: solved[L.h](at, (T.lift(k),))))
    return f


def grown(I, L, at, item):
    at = T.lift(at)
    if L.mode == "app":
        return tuple(L.init_parts) + (("comp", I.py(at), lambda k: T.TRUE, lambda k: (("one", item(k)),)),)
    return (("comp", I.py(at), lambda k: T.TRUE, lambda k: (("one", item(T.sub(T.sub(at, 1), k))),)),) + tuple(L.init_parts)


def install_list(I, L, at, nexts, allpc, make_inst, i, filt, c0, close):
    lid = L.key[1]
    if L.why:
        I.heap[lid] = ListRec((("poison", L.why),))
        return
    init = L.init_parts
    ctx = []
    for (pc, heap), ps in zip(nexts, L.parts):
        if ps:
            ctx.append((pc, heap, ps))
    if not ctx:
        I.heap[lid] = ListRec(init)
        return

    def allones(ps):
        return all(p[0] == "one" for p in ps)
    conds = [T.and_(*pc) for pc, heap, ps in ctx]
    lens = {len(ps) for _, _, ps in ctx}
    covers = len(ctx) == len(nexts)

    def inst_parts(pc, heap, ps, a):
        ins = make_inst(a, heap, pc)
        out = []
        for p in ps:
            if p[0] == "one":
                out.append(("one", ins(p[1])))
            else:
                out.append(("comp",) + _inst_comp(I, p, ins, a, heap, i, close))
        return tuple(out)

    def cond_at(c, a):
        return T.subst(close(c), {i: a})
    if len(ctx) == 1:
        pc, heap, ps = ctx[0]
        c = T.TRUE if covers else conds[0]
        if filt:
            c = T.and_(c0, c)
        part = ("comp", I.py(at), lambda a: cond_at(c, a), lambda a: inst_parts(pc, heap, ps, a))
    else:
        def g(a):
            if covers and len(lens) == 1 and all(allones(ps) for _, _, ps in ctx):
                try:
                    cols = [inst_parts(pc, heap, ps, a) for pc, heap, ps in ctx]
                    out = []
                    for j in range(len(cols[0])):
                        r = cols[-1][j][1]
                        for c, col in zip(reversed(conds[:-1]), reversed(cols[:-1])):
                            r = I.vmerge(cond_at(c, a), col[j][1], r)
                        out.append(("one", r))
                    return tuple(out)
                except Unsupported:
                    pass
            return tuple(("comp", 1, lambda _, c=c: cond_at(c, a), lambda _, x=x: inst_parts(x[0], x[1], x[2], a))
                         for c, x in zip(conds, ctx))
        c = T.TRUE if covers else T.or_(*conds)
        if filt:
            c = T.and_(c0, c)
        part = ("comp", I.py(at), lambda a: cond_at(c, a), g)
    I.heap[lid] = ListRec(tuple(init) + (part,))


def _inst_comp(I, p, ins, a, heap, i, close):
    tm = lambda t: T.subst(close(T.lift(t)), {i: a})

    def q(j):
        saved = I.heap
        I.heap = dict(heap)
        I.heap.update({k: v for k, v in saved.items() if k not in heap})
        try:
            ps = p[3](j)
            grown = {k: v for k, v in I.heap.items() if k not in saved and k not in heap}
        finally:
            I.heap = saved
        I.heap.update(grown)
        heap.update(grown)
        out = []
        for x in ps:
            if x[0] == "one":
                out.append(("one", ins(x[1])))
            else:
                out.append(("comp",) + _inst_comp(I, x, ins, a, heap, i, close))
        return tuple(out)
    return (I.py(tm(p[1])), lambda j: tm(p[2](j)), q)


def havoc(I, ws, h0, i, n, where, modes={}):
    """replace every location of the write set by fresh symbols"""
    from .interp import Poison, UNBOUND
    locs = []
    uid = T.fresh("H", "R").args[0]
    for k, w in enumerate(sorted(ws, key=str)):
        hn = "%s_%d" % (uid, k)
        if w[0] in ("var", "attr"):
            store = I.heap[w[1]].vars if w[0] == "var" else I.heap[w[1]].attrs
            cur = store.get(w[2], UNBOUND)
            if numeric(cur):
                cx = isinstance(cur, Cx)
                t0 = cur if cx else T.lift(cur)
                sort = "R" if cx else t0.sort
                # python ints may become reals in the loop: handled by probing below
                L = Loc(w[0], w, 0, hn, cx, sort)
                L.init = t0
                L.initf = (lambda t0: lambda nm: (lambda args: t0 if not isinstance(t0, Cx) else (t0.re if nm.endswith(".re") else t0.im)))(t0)
                store[w[2]] = Cx(T.fn(hn + ".re", (), "R"), T.fn(hn + ".im", (), "R")) if cx else T.fn(hn, (), sort)
                L.install = mk_install_scalar(L)
            elif isinstance(cur, Arr) and cur.dtype in "RIC":
                L = Loc("arrvar", ("arr",) + w[1:], cur.ndim, hn, cur.dtype == "C", cur.dtype)
                L.store = w[0]
                L.key = w
                L.kind = "arrvar" if w[0] == "var" else "arrattr"
                L.shape = cur.shape
                L.mat = cur.mat
                f0 = I.freeze_arr(cur)
                L.initf = mk_initf(f0)
                L.bounds = mk_bounds(cur.shape)
                dt = cur.dtype
                store[w[2]] = I.new_arr(cur.shape, mk_h(hn, dt), dt, cur.mat)
                L.install = mk_install_arrvar(L, dt)
                if w[0] == "attr":
                    L.kind = "attr"
                    L.h = None
                    store[w[2]] = Poison("array attribute rebound in a loop")
                    L.install = mk_install_generic(L)
            else:
                L = Loc(w[0], w, 0, None, False, None)
                L.init = cur
                store[w[2]] = Poison("loop-carried non-numeric value") if cur is not UNBOUND else UNBOUND
                if cur is UNBOUND:
                    store.pop(w[2], None)
                L.install = mk_install_generic(L)
            locs.append(L)
        elif w[0] == "buf":
            rec = I.heap[w[1]]
            if rec.dtype not in "RICB":
                raise Unsupported("object array written in a symbolic loop in %s" % where)
            L = Loc("buf", w, len(rec.shape), hn, rec.dtype == "C", rec.dtype)
            L.shape = rec.shape
            L.initf = mk_initf(rec.fn)
            L.bounds = mk_bounds(rec.shape)
            I.heap[w[1]] = BufRec(rec.shape, mk_h(hn, rec.dtype), rec.dtype)
            L.install = mk_install_buf(L, rec)
            locs.append(L)
        elif w[0] == "fam":
            rec = I.heap[w[1]].copy()
            I.heap[w[1]] = rec
            f0 = rec.fields[w[2]]
            v0 = f0(T.var("_probe", "I"))
            if not numeric(v0) and not isinstance(v0, str) and not (isinstance(v0, Term) and v0.sort == "S"):
                raise Unsupported("non-numeric symbolic field")
            cx = isinstance(v0, Cx)
            sort = "R" if cx else T.lift(v0).sort
            L = Loc("fam", w, 1, hn, cx, sort)
            L.initf = mk_initf(lambda idx, f0=f0: f0(idx[0]))
            L.bounds = lambda b: []
            rec.fields[w[2]] = lambda e, hn=hn, sort=sort, cx=cx: (Cx(T.fn(hn + ".re", (e,), "R"), T.fn(hn + ".im", (e,), "R")) if cx else T.fn(hn, (e,), sort))
            L.install = mk_install_fam(L)
            locs.append(L)
        elif w[0] == "list" and w[1] in modes:
            L = Loc("seq", w, 0, hn, False, modes[w[1]][1])
            L.mode = modes[w[1]][0]
            L.init_parts = I.heap[w[1]].parts
            L.initf = lambda nm: None
            I.heap[w[1]] = ListRec(grown(I, L, i, lambda k, hn=hn, s=L.sort: T.fn(hn, (T.lift(k),), s)))
            L.install = mk_install_seq(L)
            locs.append(L)
        elif w[0] == "list":
            L = Loc("len", w, 0, hn, False, "I")
            rec = I.heap[w[1]]
            L.init_parts = rec.parts
            t0 = T.lift(I.length_parts(rec.parts))
            L.initf = (lambda t0: lambda nm: (lambda args: t0))(t0)
            I.heap[w[1]] = ListRec((("hav", hn, T.fn(hn, (), "I")),))
            L.install = lambda *a: None
            locs.append(L)
        elif w[0] in ("dict", "set"):
            pass
    for L in locs:
        L.bad = False
    return locs


def mk_h(hn, dt):
    if dt == "C":
        return lambda idx: Cx(T.fn(hn + ".re", idx, "R"), T.fn(hn + ".im", idx, "R"))
    return lambda idx: T.fn(hn, idx, dt)


def mk_initf(f0):
    def initf(nm):
        def g(args):
            v = f0(tuple(args))
            if isinstance(v, Cx):
                return v.re if nm.endswith(".re") else v.im
            if nm.endswith(".im") and not isinstance(v, Cx):
                return T.num(0, "R")
            return T.lift(v)
        return g
    return initf


def mk_bounds(shape):
    def b(bs):
        out = []
        for x, s in zip(bs, shape):
            out += [T.le(0, x), T.lt(x, T.lift(s))]
        return out
    return b


def closed_value(L, solved, at, args):
    if L.cx:
        return Cx(solved[L.h + ".re"](at, args), solved[L.h + ".im"](at, args))
    return solved[L.h](at, args)


def is_solved(L, solved):
    return (L.h + ".re" in solved and L.h + ".im" in solved) if L.cx else (L.h in solved)


def mk_install_scalar(L):
    def f(I, at, solved, close, i, n, make_inst, nexts, nonempty, merge):
        from .interp import Poison
        store = I.heap[L.key[1]].vars if L.key[0] == "var" else I.heap[L.key[1]].attrs
        if is_solved(L, solved):
            v = closed_value(L, solved, at, ())
            store[L.key[2]] = I.scalar(v) if isinstance(v, Term) else v
        else:
            # maybe a plain overwritten value of another kind
            if nonempty and at is n and L.step is None and hasattr(L, "vals") and len(nexts) == 1:
                try:
                    store[L.key[2]] = make_inst(T.sub(n, 1), nexts[0][1], nexts[0][0])(L.vals[0])
                    return
                except Unsupported:
                    pass
            store[L.key[2]] = Poison(L.why or "loop-carried value without closed form")
    return f


def mk_install_generic(L):
    def f(I, at, solved, close, i, n, make_inst, nexts, nonempty, merge):
        from .interp import Poison, UNBOUND
        store = I.heap[L.key[1]].vars if L.key[0] == "var" else I.heap[L.key[1]].attrs
        if at is n and nonempty and hasattr(L, "vals") and not L.why:
            try:
                ins = [make_inst(T.sub(n, 1), heap, pc)(v) for (pc, heap), v in zip(nexts, L.vals)]
                r = ins[-1]
                for (pc, heap), v in zip(reversed(nexts[:-1]), reversed(ins[:-1])):
                    r = I.vmerge(T.subst(close(T.and_(*pc)), {i: T.sub(n, 1)}), v, r)
                store[L.key[2]] = r
                return
            except Unsupported:
                pass
        if L.init is None and at is n and False:
            return
        store[L.key[2]] = Poison("value after a possibly empty symbolic loop")
    return f


def mk_install_arrvar(L, dt):
    def f(I, at, solved, close, i, n, make_inst, nexts, nonempty, merge):
        from .interp import Poison
        store = I.heap[L.key[1]].vars
        if is_solved(L, solved):
            store[L.key[2]] = I.new_arr(L.shape, lambda idx: closed_value(L, solved, at, tuple(idx)), dt, L.mat)
        elif nonempty and at is n and hasattr(L, "vals") and len(nexts) == 1 and isinstance(L.vals[0], Arr):
            store[L.key[2]] = make_inst(T.sub(n, 1), nexts[0][1], nexts[0][0])(L.vals[0])
        else:
            store[L.key[2]] = Poison(L.why or "loop-carried array without closed form")
    return f


def mk_install_buf(L, rec):
    def f(I, at, solved, close, i, n, make_inst, nexts, nonempty, merge):
        if is_solved(L, solved):
            I.heap[L.key[1]] = BufRec(rec.shape, lambda idx: closed_value(L, solved, at, tuple(idx)), rec.dtype)
        else:
            why = L.why or "array without closed form after a loop"

            def bad(idx):
                raise Unsupported(why)
            I.heap[L.key[1]] = BufRec(rec.shape, bad, rec.dtype)
    return f


def mk_install_fam(L):
    def f(I, at, solved, close, i, n, make_inst, nexts, nonempty, merge):
        rec = I.heap[L.key[1]].copy()
        I.heap[L.key[1]] = rec
        if is_solved(L, solved):
            rec.fields[L.key[2]] = lambda e: closed_value(L, solved, at, (T.lift(e),))
        else:
            why = L.why or "field without closed form after a loop"

            def bad(e):
                raise Unsupported(why)
            rec.fields[L.key[2]] = bad
    return f


# ------------------------------------------------------------------ classification
def classify(I, v, own, hn, b, i, n, init, unsolved, pc, L):
    """closed form F(at, args) of the recurrence  h' = v(h, i),  or None"""
    uns = unsolved(v)
    if uns - {hn}:
        return None
    if b:
        v = align(v, own, hn, b)
    if hn not in T.fv(v):
        # overwritten in every iteration
        def F(at, args, v=v):
            at = T.lift(at)
            prev = T.sub(at, 1)
            m = {i: prev}
            m.update(bmap(b, args))
            w = T.subst(v, m)
            if at.op == "num" and at.args[0] == 0:
                return init(args)
            c = T.eq(at, 0)
            if I.entails(T.not_(c)):
                return w
            return T.ite(c, init(args), w)
        return F
    d = delta(v, own, hn)
    if d is not None:
        if d.op == "num" and d.args[0] == 0:
            return lambda at, args: init(args)
        return accum(I, d, b, i, init)
    cw = cond_writes(I, v, own, hn)
    if cw:
        f = every_time(I, cw, b, i, n, init)
        if f is not None:
            return f
    if cw is not None:
        f = cond_write_form(I, cw, b, i, n, init)
        if f is not None:
            return f
    if not b and L.kind in ("var", "attr") and not L.cx and v.sort == own.sort:
        # primitive recursion: the value before iteration k
        x = init(())
        w = T.subst(T.map_fn(v, lambda nm, args, s: T.fn(hn + "@", (), s) if nm == hn else None), {i: T.sub(i, 1)})
        w = T.map_fn(w, lambda nm, args, s: T.fn(hn, (T.sub(i, 1),), s) if nm == hn + "@" else None)
        R = recursive(I, T.ite(T.eq(i, 0), x, w), hn, i)
        return lambda at, args: R(at)
    return None


def bmap(b, args):
    return {x: a for x, a in zip(b, args) if x.op == "var"}


def align(v, own, hn, b, eqs=frozenset()):
    """below a condition b_k == e rewrite applications of the own symbol at e to b"""
    if hn not in T.fv(v):
        return v
    if v.op == "ite":
        c, x, y = v.args
        c = align(c, own, hn, b, eqs)
        pos = eqs | frozenset([c] if c.op == "eq" else (a for a in c.args if a.op == "eq") if c.op == "and" else ())
        return T.ite(c, align(x, own, hn, b, pos), align(y, own, hn, b, eqs))
    if not eqs:
        if v.op in ("add", "mul"):
            ch = T.children(v)
            nch = [align(x, own, hn, b, eqs) for x in ch]
            return v if all(p is q for p, q in zip(ch, nch)) else T.rebuild(v, nch)
        return v

    def f(name, args, sort):
        if name != hn:
            return None
        new = tuple(bk if a is not bk and T.eq(a, bk) in eqs else a for a, bk in zip(args, b))
        return T.fn(hn, new, sort)
    w = T.map_fn(v, f)
    if w.op == "add":
        ch = T.children(w)
        nch = [align(x, own, hn, b, eqs) if x.op == "ite" else x for x in ch]
        return w if all(p is q for p, q in zip(ch, nch)) else T.rebuild(w, nch)
    return w


def delta(v, own, hn):
    """v - own when that is free of own; None otherwise"""
    if v is own:
        return T.num(0, v.sort)
    if hn not in T.fv(v):
        return None
    if v.op == "ite" and hn not in T.fv(v.args[0]):
        a, c = delta(v.args[1], own, hn), delta(v.args[2], own, hn)
        if a is None or c is None:
            return None
        return T.ite(v.args[0], a, c)
    d = T.sub(v, own)
    if hn not in T.fv(d):
        return d
    if v.op == "add":
        # one summand is an ite carrying own
        for k, (c, x) in enumerate(v.args[0]):
            if hn in T.fv(x) and c == 1 and x.op == "ite":
                dx = delta(x, own, hn)
                rest = T.sub(v, x)
                if dx is not None and hn not in T.fv(rest):
                    return T.add(dx, rest)
    return None


def accum(I, d, b, i, init):
    kr = solve_eq(d, b, i)
    if kr is not None:
        sol, rest, val = kr

        def F(at, args):
            m = bmap(b, args)
            j = T.subst(sol, m)
            c = T.and_(T.le(0, j), T.lt(j, T.lift(at)), T.subst(T.subst(rest, {i: sol}), m))
            w = T.subst(T.subst(val, {i: sol}), m)
            if c is T.FALSE:
                return init(args)
            return T.add(init(args), T.ite(c, w, T.num(0, w.sort)))
        return F

    def F(at, args):
        j = T.fresh("j", "I")
        m = {i: j}
        m.update(bmap(b, args))
        return T.add(init(args), T.summ(j, 0, T.lift(at), T.subst(d, m)))
    return F


def affine(e, i):
    """e = c*i + r with c = +-1 and r free of i -> (c, r)"""
    if i not in T.fv(e):
        return None
    d = T.sub(e, i)
    if i not in T.fv(d):
        return 1, d
    d = T.add(e, i)
    if i not in T.fv(d):
        return -1, d
    return None


def eqs_of(c):
    if c.op == "eq":
        return [(c, T.TRUE)]
    if c.op == "and":
        out = []
        for x in c.args:
            if x.op == "eq":
                out.append((x, T.and_(*[y for y in c.args if y is not x])))
        return out
    return []


def solve_cond(c, b, i):
    """c implies i == sol(b): (sol, rest)"""
    for e, rest in eqs_of(c):
        a = affine(e.args[0], i)
        if a is None:
            # scaled equality such as  2*i + 1 - b == 0 is left alone
            continue
        k, r = a                # k*i + r == 0
        sol = T.neg(r) if k == 1 else r
        if sol.sort == "I":
            return sol, rest
    return None


def solve_eq(d, b, i):
    if d.op == "ite" and d.args[2].op == "num" and d.args[2].args[0] == 0:
        s = solve_cond(d.args[0], b, i)
        if s is not None:
            return s[0], s[1], d.args[1]
    return None


def cond_writes(I, v, own, hn):
    """v = ite(c1, w1, ite(c2, w2, ... own)) -> [(c, w)]"""
    out = []

    def go(t, conds):
        if t is own:
            return True
        if hn not in T.fv(t):
            out.append((T.and_(*conds), t))
            return True
        if t.op == "ite" and hn not in T.fv(t.args[0]):
            return go(t.args[1], conds + [t.args[0]]) and go(t.args[2], conds + [T.not_(t.args[0])])
        return False
    if not go(v, []):
        return None
    return out


def every_time(I, cw, b, i, n, init):
    """the same places are written in every iteration: what the last one leaves"""
    k = T.fresh("k", "I")
    c = T.or_(*[x for x, w in cw])
    there = [T.le(0, i), T.lt(i, T.lift(n)), T.le(0, k), T.lt(k, T.lift(n))]
    if not S.entails(list(I.pc) + there + [c], T.subst(c, {i: k})):
        return None

    def F(at, args):
        at = T.lift(at)
        m = {i: T.sub(at, 1)}
        m.update(bmap(b, args))
        r = init(args)
        if at.op == "num" and at.args[0] == 0:
            return r
        w = r
        for x, y in reversed(cw):
            w = T.ite(T.subst(x, m), T.subst(y, m), w)
        c = T.eq(at, 0)
        return w if I.entails(T.not_(c)) else T.ite(c, r, w)
    return F


def walk(t):
    """subterms outside binders"""
    seen, st = set(), [t]
    while st:
        x = st.pop(0)
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op not in ("sum", "forall"):
            st += T.children(x)


def assume_deep(t, c, v):
    from .prover import assume_deep as f
    return f(t, c, v)


def cond_write_form(I, cw, b, i, n, init):
    forms = []
    todo = list(cw)
    while todo:
        c, w = todo.pop(0)
        s = solve_cond(c, b, i)
        if s is None:
            # a write to a place chosen by a condition: one case each
            d = next((x.args[0] for x in walk(c) if x.op == "ite" and i in T.fv(x.args[0]) and x.args[0].sort == "B"), None)
            if d is None or len(forms) + len(todo) > 6:
                return None
            for v in (True, False):
                cc = T.and_(d if v else T.not_(d), assume_deep(c, d, v))
                if cc is not T.FALSE:
                    todo.append((cc, assume_deep(w, d, v)))
            continue
        forms.append((s[0], s[1], w))
    if len(forms) > 1:
        # for every index at most one iteration may write
        k = T.fresh("k", "I")
        any_i = T.or_(*[c for c, w in cw])
        any_k = T.subst(any_i, {i: k})
        there = T.and_(T.le(0, i), T.lt(i, T.lift(n)), T.le(0, k), T.lt(k, T.lift(n)))
        if not I.entails(T.or_(T.not_(there), T.not_(any_i), T.not_(any_k), T.eq(i, k))):
            return None

    def F(at, args):
        m = bmap(b, args)
        r = init(args)
        for sol, rest, w in reversed(forms):
            j = T.subst(sol, m)
            c = T.and_(T.le(0, j), T.lt(j, T.lift(at)), T.subst(T.subst(rest, {i: sol}), m))
            if c is T.FALSE:
                continue
            v = T.subst(T.subst(w, {i: sol}), m)
            if I.entails(c):
                r = v
            elif I.entails(T.not_(c)):
                continue
            else:
                r = T.ite(c, v, r)
        return r
    return F
