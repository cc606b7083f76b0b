"""Loops that append to one list: each element x of the collection adds g(x), whatever the list holds already.

The loop is cut: (a) the body is executed for an arbitrary element, with every list that grows holding an arbitrary
prefix and the variables assigned in the body unusable; what it appended is handed to a check; nothing else that
existed before may have changed; (b) behind the loop the list holds what it held before followed by g(x) for every x
in order."""
import ast
from . import terms as T
from .values import *
from .loops import writes
from .interp import Poison


class Again(Exception):
    pass


def again(f):
    """run the obligations of f again whenever something about a loop was found out"""
    def g(c):
        while True:
            n = len(c.items)
            try:
                return f(c)
            except Again:
                del c.items[n:]
    return g


class AppendLoop(object):
    def __init__(self, c, label, n, elem, check, after):
        """elem(j): element j; check(parts, j): obligations on what was appended for element j;
        after: parts that stand for what the whole loop appended"""
        self.c, self.label, self.n, self.elem, self.check, self.after = c, label, n, elem, check, after
        # what is found out about a loop while its body is explored is needed again behind it (other instances of it)
        self.known = c.__dict__.setdefault("append_loops", {}).setdefault(label, {})

    @property
    def where(self):
        return self.known.get("where")

    @where.setter
    def where(self, v):
        self.known["where"] = v

    def np_parts(self, I):
        return (("comp", self.n, lambda k: T.TRUE, lambda k: (("one", self.elem(k)),)),)

    def np_len(self, I):
        return self.n

    def comp_hook(self, I, e, fr):
        """comprehension over the collection: the list it makes"""
        if not I.decide(T.eq(T.fresh("in.loop", "I"), 1)):
            return I.alloc(ListRec(tuple(self.after)), List)
        j = T.fresh(self.label.replace(" ", ".") + ".j", "I")
        I.assume(T.le(0, j))
        I.assume(T.lt(j, T.lift(self.n)))
        h = dict(I.heap)
        from .interp import Frame, EnvRec
        f2 = Frame(I.alloc(EnvRec({}, fr.env)), fr.func, fr.module, fr.hook)
        g = e.generators[0]
        I.assign(g.target, self.elem(j), f2)
        ps = ()
        if all([I.truth(I.ev(x, f2)) for x in g.ifs]):
            ps = (("one", I.ev(e.elt, f2)),)
        for w in writes(h, I.heap):
            raise Unsupported("the comprehension changes %s (%s)" % (w, self.label))
        self.check(ps, j)
        raise Infeasible()

    def path_of(self, I, fr, lid, heap):
        e, depth = fr.env, 0
        while e is not None:
            r = heap[e]
            for k, v in r.vars.items():
                if isinstance(v, List) and v.id == lid:
                    return (depth, k, None)
                if isinstance(v, Obj):
                    for a, w in heap[v.id].attrs.items():
                        if isinstance(w, List) and w.id == lid:
                            return (depth, k, a)
            e, depth = r.parent, depth + 1
        raise Unsupported("the list that grows in the loop is not reachable")

    def for_hook(self, I, s, fr):
        c = self.c
        names = {x.id for b in s.body + [s.target] for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if I.decide(T.eq(T.fresh("in.loop", "I"), 1)):      # this branch is explored first
            j = T.fresh(self.label.replace(" ", ".") + ".j", "I")
            I.assume(T.le(0, j))
            I.assume(T.lt(j, T.lift(self.n)))
            r = I.heap[fr.env].copy()
            for k in names:
                if k in r.vars:
                    r.vars[k] = Poison("assigned in the loop (%s)" % self.label)
            I.heap[fr.env] = r
            h0 = dict(I.heap)

            def body():
                I.assign(s.target, self.elem(j), fr)
                try:
                    I.exec_block(s.body, fr)
                except ContinueSig:
                    pass
                except (BreakSig, ReturnSig):
                    raise Unsupported("a loop is left early (%s)" % self.label)
            if self.where is None:
                # find the list that grows
                body()
                grown = [w for w in writes(h0, I.heap) if w[0] == "list"]
                if len(grown) > 1:
                    raise Unsupported("several lists grow (%s)" % self.label)
                if grown:
                    self.where = self.path_of(I, fr, grown[0][1], h0)
                    raise Again()        # the exploration starts over, knowing the list
                I.heap.clear()
                I.heap.update(h0)
            lid = None
            if self.where is not None:
                lid = self.locate(I, fr)
                nm = T.fresh("prefix", "S").args[0]
                k = T.var(nm + ".n", "I")
                I.assume(T.le(0, k))
                prefix = ("comp", k, lambda i: T.TRUE, lambda i: (("one", T.fn(nm, (T.lift(i),), "S")),))
                I.heap[lid] = ListRec((prefix,))
            h1 = dict(I.heap)
            body()
            for w in writes(h1, I.heap):
                if w[0] == "var" and w[1] == fr.env or w == ("list", lid):
                    continue
                raise Unsupported("the loop changes %s (%s)" % (w, self.label))
            ps = ()
            if lid is not None:
                ps = I.heap[lid].parts
                c.true(self.label + ": earlier items kept", len(ps) >= 1 and ps[0] is prefix)
                ps = ps[1:]
            self.check(ps, j)
            raise Infeasible()
        # behind the loop
        r = I.heap[fr.env].copy()
        for k in names:
            r.vars[k] = Poison("assigned in a loop (%s)" % self.label)
        I.heap[fr.env] = r
        if self.where is not None:
            lid = self.locate(I, fr)
            I.heap[lid] = ListRec(tuple(I.heap[lid].parts) + tuple(self.after))
        else:
            c.true(self.label + ": items appended", False)
        return True

    def locate(self, I, fr):
        depth, k, a = self.where
        e = fr.env
        for _ in range(depth):
            e = I.heap[e].parent
        v = I.heap[e].vars[k]
        if a is not None:
            v = I.heap[v.id].attrs[a]
        return v.id
