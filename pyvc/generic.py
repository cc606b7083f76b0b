"""Loops over collections of any number of keyed things (names, electrodes, dictionary items), by a frame rule.

One key is arbitrary but fixed (the probe); every other key is represented by a stand-in.  A loop over a collection
that holds stand-ins is executed once for each of its elements, in any order and any number of times as far as the
rule is concerned, because each execution of the body for a stand-in must leave everything the body can see for the
probe unchanged: it may only change what belongs to that stand-in (its electrode, its dictionary entries, the lists
found there), which is checked by comparing the heap before and after.  Local variables assigned in the body are
unusable before they are assigned again: nothing is carried from one element to the next.  Leaving the loop early is
not covered."""
from .values import *
from .loops import writes, same
from .interp import Poison
from . import terms as T


class Generic(object):
    def __init__(self, I, probe, others):
        """probe: a key; others: keys of the stand-ins"""
        self.I, self.probe, self.others = I, probe, set(others)
        self.owner = {}                 # id of an object -> key
        self.loops = 0
        I.iter_hook = self.hook

    def kind(self, v, depth=0):
        """the keys a value mentions"""
        I = self.I
        if isinstance(v, str):
            return {v} if v == self.probe or v in self.others else set()
        if isinstance(v, tuple):
            r = set()
            for x in v:
                r |= self.kind(x, depth + 1)
            return r
        if isinstance(v, (Obj, List)):
            if v.id in self.owner:
                return {self.owner[v.id]}
            if isinstance(v, List) and depth < 4:
                r = set()
                for p in I.rec(v).parts:
                    if p[0] == "one":
                        r |= self.kind(p[1], depth + 1)
                return r
        return set()

    def owned(self, h, key):
        """ids of the objects that belong to a stand-in"""
        ids = {i for i, k in self.owner.items() if k == key}
        for i, r in h.items():
            if isinstance(r, DictRec) and key in r.items and isinstance(r.items[key], Ref):
                ids.add(r.items[key].id)
        return ids

    def hook(self, it, cb, where):
        I = self.I
        if not isinstance(it, (Dict, List, tuple, Seq, Obj, Set)):
            return False
        try:
            parts = I.parts(it)
        except Unsupported:
            return False
        if not parts or any(p[0] != "one" for p in parts):
            return False
        keys = [self.kind(p[1]) for p in parts]
        if not any(k & self.others for k in keys):
            return False
        self.loops += 1
        for (_, v), ks in zip(parts, keys):
            h0 = dict(I.heap)
            try:
                cb(v)
            except ContinueSig:
                pass
            except (BreakSig, ReturnSig):
                raise Unsupported("a loop over all keys is left early (%s)" % where)
            self.after(h0, ks, where)
        return True

    def after(self, h0, ks, where):
        I = self.I
        own = set()
        for k in ks:
            own |= self.owned(h0, k) | self.owned(I.heap, k)
        for w in writes(h0, I.heap):
            if w[0] == "var":
                # nothing is carried over
                r = I.heap[w[1]].copy()
                r.vars[w[2]] = Poison("assigned in a loop over all keys")
                I.heap[w[1]] = r
                continue
            if w[1] in own:
                continue
            if w[0] == "dict":
                a, b = h0[w[1]], I.heap[w[1]]
                ch = [k for k in set(a.items) | set(b.items) if k not in a.items or k not in b.items or not same(a.items[k], b.items[k])]
                if a.sym is b.sym and all(self.kind(k) and self.kind(k) <= ks for k in ch):
                    continue
            if w[0] == "list" and w[1] not in h0:
                continue
            raise Unsupported("one element of a loop over all keys changes what others see: %s (%s)" % (w, where))
