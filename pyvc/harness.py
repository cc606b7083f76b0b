"""Obligation registry, execution contexts and structural comparison."""
import os
import sys
import time
import traceback
import signal
import multiprocessing as mp
from . import terms as T
from . import solver as S
from . import prover as P
from .values import *
from .interp import Interp
from .arrays import *

REPO = os.environ.get("VERIF_REPO", "/repo")
OBS = []


class Ob(object):
    def __init__(self, name, fn, funcs, timeout, bounded):
        self.name, self.fn, self.funcs, self.timeout, self.bounded = name, fn, funcs, timeout, bounded


def ob(name, funcs=(), timeout=150, bounded=None):
    """register an obligation group; funcs: the functions of the repository it puts under contract"""
    def dec(fn):
        OBS.append(Ob(name, fn, tuple(funcs), timeout, bounded))
        return fn
    return dec


class Stop(Exception):
    pass


class Path(object):
    def __init__(self, kind, value, cond, heap):
        self.kind, self.value, self.cond, self.heap = kind, value, cond, heap


class Ctx(object):
    def __init__(self, obname, seed):
        self.obname, self.seed = obname, seed
        self.items = []
        self.I = None
        self.interps = []
        self.notes = []
        self.limit = 4000000

    def interp(self, **kw):
        I = Interp(REPO, **kw)
        self.I = I
        self.interps.append(I)
        return I

    # -- recording ---------------------------------------------------------
    def record(self, label, res, extra=""):
        self.items.append((label, res.status, res.backend, res.note + extra, res.cex))
        return res.status == "proved"

    def fail(self, label, note, cex=None, status="refuted"):
        self.record(label, P.Res(status, "execution", note, cex))

    def ok(self, label, backend="execution"):
        self.record(label, P.Res("proved", backend))

    # -- comparison ----------------------------------------------------------
    def eq(self, label, a, b, pc=None, **kw):
        """the values a and b are equal (structurally; arrays entry by entry for all indices)"""
        I = self.I
        pc = list(I.pc if I is not None else ()) + list(pc or ())
        try:
            return self._eq(label, a, b, pc, kw)
        except Unsupported as e:
            self.fail(label, "outside the verified subset: %s" % e, status="undecided")
            return False

    def _eq(self, label, a, b, pc, kw):
        I = self.I
        if isinstance(a, (bool, int, float)) and not isinstance(b, (Arr, List, tuple, Cx)) or isinstance(a, Term) or \
                isinstance(b, Term):
            if isinstance(a, (Cx,)) or isinstance(b, Cx):
                pass
            elif isinstance(a, (Arr, List, tuple, Obj)) or isinstance(b, (Arr, List, tuple, Obj)) or a is None or b is None:
                if isinstance(a, Arr) and a.ndim == 0:
                    return self._eq(label, I.elem(a, ()), b, pc, kw)
                if isinstance(b, Arr) and b.ndim == 0:
                    return self._eq(label, a, I.elem(b, ()), pc, kw)
                if not (a is None and isinstance(b, Term) and b.sort == "S" or b is None and isinstance(a, Term) and a.sort == "S"):
                    return self.record(label, P.Res("refuted", "shape", "%r is not %r" % (a, b)))
            return self.record(label, P.eq_term(T.lift(a), T.lift(b), pc, self.seed, self.limit, **kw))
        if isinstance(a, Cx) or isinstance(b, Cx):
            a = a if isinstance(a, Cx) else Cx(a, 0)
            b = b if isinstance(b, Cx) else Cx(b, 0)
            return self._eq(label + ".re", a.re, b.re, pc, kw) and self._eq(label + ".im", a.im, b.im, pc, kw)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, (SymObj, Obj, Func)) or \
                isinstance(b, (SymObj, Obj, Func)) or callable(a):
            if isinstance(a, SymObj) and isinstance(b, SymObj):
                if a.fam != b.fam:
                    return self.record(label, P.Res("refuted", "identity", "%r is not %r" % (a, b)))
                return self._eq(label, T.lift(a.idx), T.lift(b.idx), pc, kw)
            ok = a == b
            return self.record(label, P.Res("proved" if ok else "refuted", "identity", "" if ok else "%r is not %r" % (a, b)))
        if hasattr(a, "eq_key") and hasattr(b, "eq_key"):
            a, b = a.eq_key(I), b.eq_key(I)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return self.record(label, P.Res("refuted", "shape", "%d components instead of %d" % (len(a), len(b))))
            return all([self._eq("%s[%d]" % (label, i), x, y, pc, kw) for i, (x, y) in enumerate(zip(a, b))])
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self._eqarr(label, I.as_arr(a), I.as_arr(b), pc, kw)
        if isinstance(a, (List, Seq, tuple)) and isinstance(b, (List, Seq, tuple)):
            return self._eqseq(label, a, b, pc, kw)
        if a == b:
            return self.record(label, P.Res("proved", "identity"))
        return self.record(label, P.Res("undecided", "shape", "cannot compare %r and %r" % (a, b)))

    def _eqarr(self, label, a, b, pc, kw):
        I = self.I
        if a.ndim != b.ndim:
            return self.record(label, P.Res("refuted", "shape", "shape %s instead of %s" % (a.shape, b.shape)))
        ok = True
        for k, (x, y) in enumerate(zip(a.shape, b.shape)):
            if isinstance(x, int) and isinstance(y, int) and x == y:
                continue
            ok &= self._eq("%s.shape[%d]" % (label, k), T.lift(x), T.lift(y), pc, {})
        if not ok:
            return False
        idx = []
        cond = []
        for x, y in zip(a.shape, b.shape):
            x = y if isinstance(y, int) else x
            if isinstance(x, int):
                idx.append(None)
            else:
                v = T.fresh("ix", "I")
                # index variables of the statement are inputs, not engine symbols
                v = T.var("ix%d" % len(idx), "I")
                cond += [T.le(0, v), T.lt(v, x)]
                idx.append(v)
        import itertools
        ranges = [range(x if isinstance(x, int) else y) if i is None else [i] for i, x, y in zip(idx, a.shape, b.shape)]
        old = I.pc
        I.pc = pc + cond
        try:
            n = 0
            for t in itertools.product(*ranges):
                n += 1
                x, y = I.elem(a, t), I.elem(b, t)
                if not self._eq("%s%s" % (label, list(i if isinstance(i, int) else i.args[0] for i in t)), x, y, I.pc, kw):
                    ok = False
                    break
            if n == 0:
                self.ok(label + " (empty)")
        finally:
            I.pc = old
        return ok

    def _eqseq(self, label, a, b, pc, kw):
        I = self.I
        pa, pb = self.norm_parts(I.parts(a)), self.norm_parts(I.parts(b))
        if len(pa) != len(pb):
            la, lb = I.length_parts(pa), I.length_parts(pb)
            if all(p[0] == "one" for p in pa + pb):
                return self.record(label, P.Res("refuted", "shape", "%s elements instead of %s" % (la, lb)))
            fa, fb = self.flat_parts(pa), self.flat_parts(pb)
            if fa is not None and fb is not None:
                return self._eqpos(label, fa, fb, pc, kw)
            r = self._eq(label + ".len", T.lift(la), T.lift(lb), pc, {})
            return self.record(label, P.Res("undecided" if r else "refuted", "shape", "differently built sequences"))
        ok = True
        for j, (p, q) in enumerate(zip(pa, pb)):
            if p[0] != q[0]:
                fa, fb = self.flat_parts(pa), self.flat_parts(pb)
                if fa is not None and fb is not None:
                    return self._eqpos(label, fa, fb, pc, kw)
                return self.record(label, P.Res("undecided", "shape", "differently built sequences"))
            if p[0] == "one":
                ok &= self._eq("%s[%d]" % (label, j), p[1], q[1], pc, kw)
                continue
            ok &= self._eq("%s.n%d" % (label, j), T.lift(p[1]), T.lift(q[1]), pc, {})
            k = T.var("el%d_%d" % (j, len(label)), "I")
            cond = [T.le(0, k), T.lt(k, p[1])]
            old = I.pc
            I.pc = pc + cond
            try:
                ca, cb = p[2](k), q[2](k)
                if ca is not cb:
                    ok &= self._eq(label + ".filter", ca, cb, I.pc, {})
                I.pc = I.pc + [cb]
                ok &= self._eqseq("%s{%d}" % (label, j), Seq(p[3](k)), Seq(q[3](k)), I.pc, kw)
            finally:
                I.pc = old
        return ok

    def flat_parts(self, ps):
        """(length, value at a position) of a sequence of elements and unfiltered runs of one element each; None otherwise"""
        k = T.fresh("at", "I")
        runs = []
        for p in ps:
            if p[0] == "one":
                runs.append((T.num(1), lambda j, p=p: p[1]))
            elif p[0] == "comp":
                if p[2](k) is not T.TRUE:
                    return None
                b = p[3](k)
                if len(b) != 1 or b[0][0] != "one":
                    return None
                runs.append((T.lift(p[1]), lambda j, p=p: p[3](j)[0][1]))
            else:
                return None
        if not runs:
            return None
        return runs

    def _eqpos(self, label, ra, rb, pc, kw):
        """two sequences built from runs: equal lengths and equal elements at every position"""
        I = self.I
        total = lambda rs: T.add(*[n for n, _ in rs])
        if not self._eq(label + ".len", total(ra), total(rb), pc, {}):
            return False
        k = T.var("at%d" % len(label), "I")
        ok = True
        sa = T.num(0)
        for i, (n, f) in enumerate(ra):
            sb = T.num(0)
            for j, (m, g) in enumerate(rb):
                cond = [T.le(sa, k), T.lt(k, T.add(sa, n)), T.le(sb, k), T.lt(k, T.add(sb, m))]
                old = I.pc
                I.pc = pc + cond
                try:
                    if P.S.check(I.pc) != "unsat":
                        ok &= self._eq("%s{%d/%d}" % (label, i, j), f(T.sub(k, sa)), g(T.sub(k, sb)), I.pc, kw)
                finally:
                    I.pc = old
                sb = T.add(sb, m)
            sa = T.add(sa, n)
        return ok

    def norm_parts(self, ps):
        out = []
        for p in ps:
            if p[0] == "comp" and isinstance(self.I.const_int(p[1]), int):
                n = self.I.const_int(p[1])
                for i in range(n):
                    c = p[2](T.num(i))
                    if c is T.TRUE:
                        out += self.norm_parts(p[3](T.num(i)))
                    elif c is not T.FALSE:
                        out.append(("comp", T.num(1), lambda k, c=c: c, lambda k, p=p, i=i: p[3](T.num(i))))
            else:
                out.append(p)
        return tuple(out)

    def true(self, label, c, pc=None):
        I = self.I
        pc = list(I.pc if I is not None else ()) + list(pc or ())
        if isinstance(c, bool):
            return self.record(label, P.Res("proved" if c else "refuted", "execution"))
        return self.record(label, P.holds(c, pc, self.seed))

    def split(self, label, goal, pc=None, limit=6):
        """as true(), after a case split on the conditions of all conditional terms and after bringing both sides of
        every comparison to normal form with the same atoms"""
        I = self.I
        pc = list(I.pc if I is not None else ()) + list(pc or ())
        if isinstance(goal, bool) or T.lift(goal) is T.TRUE:
            return self.true(label, goal, pc)
        return self.record(label, P.holds_split(T.lift(goal), pc, self.seed, limit))

    # -- execution --------------------------------------------------------------
    def paths(self, thunk, assume=()):
        """run thunk on all paths; yields Path with the interpreter placed in its final state"""
        I = self.I
        assume = [T.lift(a) for a in assume]
        res = I.explore(thunk, assume)
        heap, pc = I.heap, I.pc
        base = list(pc) + [a for a in assume if a is not T.TRUE]
        if not res:
            self.fail("some path", "no feasible path", status="undecided")
        for cond, out, h in res:
            I.heap = dict(h)
            I.pc = base + list(cond)
            try:
                yield Path(out[0], out[1], list(cond), h)
            finally:
                I.heap, I.pc = heap, pc

    def run(self, label, thunk, assume=()):
        """like paths, for code that must return normally: yields the result of every path"""
        for p in self.paths(thunk, assume):
            if p.kind == "raise":
                st = "refuted" if S.check(list(self.I.pc), 4000) == "sat" else "undecided"
                self.fail(label + ".no exception", "raises %s" % (p.value,), status=st)
                continue
            yield p.value

    def one(self, label, thunk, assume=()):
        """the single path result; the state stays that of the path"""
        I = self.I
        assume = [T.lift(a) for a in assume]
        res = I.explore(thunk, assume)
        good = []
        for cond, out, h in res:
            if out[0] == "raise":
                pcs = list(I.pc) + list(assume) + list(cond)
                st = "refuted" if S.check(pcs, 4000) == "sat" else "undecided"
                self.fail(label + ".no exception", "raises %s" % (out[1],), status=st)
                continue
            good.append((cond, out[1], h))
        if len(good) != 1:
            self.fail(label, "%d paths" % len(good), status="undecided")
            raise Stop()
        cond, v, h = good[0]
        I.heap = dict(h)
        I.pc = list(I.pc) + [a for a in assume if a is not T.TRUE] + list(cond)
        return v


def run_one(o, seed, conn):
    sys.setrecursionlimit(100000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    c = Ctx(o.name, seed)
    out = {}

    def body():
        try:
            o.fn(c)
        except Stop:
            pass
        except Unsupported as e:
            c.fail("execution", "outside the verified subset: %s" % (e,), status="undecided")
        except PyExc as e:
            c.fail("execution", "raises %s" % (e,), status="undecided")
        except Infeasible:
            c.fail("execution", "contradictory assumptions", status="undecided")
        except MemoryError:
            c.fail("execution", "out of memory", status="undecided")
        except Exception:
            c.fail("execution", "engine error: " + traceback.format_exc()[-1500:], status="undecided")
    t0 = time.time()
    th = threading.Thread(target=body)
    th.start()
    th.join()
    if not c.items:
        c.fail("coverage", "no obligation was generated", status="undecided")
    for I in c.interps:
        for k, v in I.executed.items():
            out.setdefault("executed", {})[str(k)] = v if isinstance(v, (int, str)) else 1
        out.setdefault("assumed", set()).update(I.assumed)
        out.setdefault("external", set()).update(str(x) for x in I.external)
        out.setdefault("by_contract", set()).update(str(x) for x in I.by_contract)
        out.setdefault("loops", []).extend(str(x) for x in I.loops)
    out["assumed"] = sorted(out.get("assumed", ()))
    out["items"] = c.items
    out["notes"] = c.notes
    out["time"] = time.time() - t0
    out["stat"] = P.STAT
    out["solver"] = dict(S.STATS)
    conn.send(out)
    conn.close()


def run_all(obs, seed, jobs=8, budget=600, verbose=False):
    ctx = mp.get_context("fork")
    todo = list(obs)
    todo.sort(key=lambda o: -o.timeout)
    running = []
    results = {}
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            o = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=run_one, args=(o, seed, w))
            p.start()
            w.close()
            running.append((o, p, r, time.time()))
        nxt = []
        for o, p, r, st in running:
            done = False
            if r.poll(0.02):
                try:
                    results[o.name] = r.recv()
                except EOFError:
                    results[o.name] = dict(items=[("execution", "undecided", "process", "the prover process died", None)],
                                           time=time.time() - st, assumed=[], stat={}, solver={}, notes=[])
                p.join()
                done = True
            elif time.time() - st > o.timeout or time.time() - t0 > budget:
                p.kill()
                p.join()
                results[o.name] = dict(items=[("execution", "undecided", "timeout", "no answer within %d s" % (time.time() - st), None)],
                                       time=time.time() - st, assumed=[], stat={}, solver={}, notes=[])
                done = True
            if done:
                if verbose:
                    show(o, results[o.name])
            else:
                nxt.append((o, p, r, st))
        running = nxt
    return results


def show(o, r):
    n = len(r["items"])
    bad = [i for i in r["items"] if i[1] != "proved"]
    print("%-60s %3d obligations %s  %.1fs" % (o.name, n, "ok" if not bad else "FAILED", r["time"]))
    for i in bad[:int(os.environ.get("VERIF_SHOW", "6"))]:
        print("     ", i[0], i[1], i[2], str(i[3])[:1500], str(i[4])[:300] if i[4] else "")
    sys.stdout.flush()
