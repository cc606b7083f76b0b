"""C31: voltage histories of Adjust."""
from checks.systems import *
from pyvc.generic import Generic

INFO = {"build": True}
ADJ = "electrode.adjust"
A = ADJ + ".Adjust."
NOTE = ("an arbitrary electrode X; the others are represented by stand-ins (configured / not configured), loops over them by a frame rule "
        "(pyvc/generic.py); names are opaque; histories of any length")
X = "\x00X"
Y = "\x00Y"     # another electrode of the configuration
Z = "\x00Z"     # another electrode outside


def mklist(I, vals):
    return I.alloc(ListRec(tuple(("one", v) for v in vals)), List)


class World(object):
    def __init__(self, c, order=(Y, X, Z), first=None):
        self.c = c
        self.I = I = c.interp()
        pyx.install(I)
        self.m = I.load(ADJ)
        self.G = Generic(I, X, (Y, Z))
        sysm = I.load(SYS)
        ecls = I.modget(I.load(ELE), "Electrode")
        self.ele = {}
        for k in order:
            o = I.alloc(ObjRec(ecls, {"name": k, "dc": T.var("dc" + k[1:], "R"), "rf": T.var("rf" + k[1:], "R")}), Obj)
            self.ele[k] = o
            self.G.owner[o.id] = k
        self.system = I.call(I.modget(sysm, "System"), [])
        lst = I.rec(self.system).attrs["__list__"]
        I.rec(lst).parts = tuple(("one", self.ele[k]) for k in order)
        I.contracts[SYS + ":System.__getitem__"] = self.getitem

        def arbitrary(name, shape):
            def f(I, f, args, kw):
                nm = T.fresh(name, "R").args[0]
                if callable(shape):
                    return shape(I, nm)
                return I.new_arr(shape, lambda i: T.fn(nm, i), "R")
            return f
        I.contracts[SYS + ":System.minimum"] = arbitrary("minimum", (3,))
        I.contracts[SYS + ":System.modes"] = arbitrary("modes", lambda I, nm: (
            I.new_arr((3,), lambda i: T.fn(nm + ".w", i), "R"), I.new_arr((3, 3), lambda i: T.fn(nm + ".v", i), "R")))
        self.adj = I.call(I.modget(self.m, "Adjust"), [self.system])

    def getitem(self, I, f, args, kw):
        """contract of System.__getitem__ (C16): the electrode of that name"""
        n = args[1]
        if isinstance(n, str):
            if n not in self.ele:
                raise PyExc(I.builtins["KeyError"], (n,))
            return self.ele[n]
        raise Unsupported("an electrode by %r" % (n,))

    def history(self, keys=(X, Y, Z)):
        """histories of any positive length"""
        I = self.I
        items = {}
        self.L = {}
        for k in keys:
            n = T.var("L" + k[1:], "I")
            I.assume(T.le(1, n))
            self.L[k] = n
            l = I.alloc(ListRec((("comp", n, lambda i: T.TRUE, lambda i, k=k: (("one", T.fn("hist" + k[1:], (i,))),)),)), List)
            items[k] = l
        I.rec(self.adj).attrs["volts"] = I.alloc(DictRec(items), Dict)

    def config(self, keys):
        return self.I.alloc(DictRec({k: T.var("new" + k[1:], "R") for k in keys}), Dict)

    def hist(self, k):
        I = self.I
        return I.rec(I.rec(I.getattr(self.adj, "volts")).items[k]).parts

    def attr(self, k, a):
        return self.I.getattr(self.ele[k], a)

    def last(self, k):
        return T.fn("hist" + k[1:], (T.sub(self.L[k], 1),))

    def expect_hist(self, label, new):
        """X's history is the old one followed by new"""
        c, I = self.c, self.I
        l = I.getitem(I.getattr(self.adj, "volts"), X)
        want = I.alloc(ListRec((("comp", self.L[X], lambda i: T.TRUE, lambda i: (("one", T.fn("histX", (i,))),)),) + tuple(("one", v) for v in new)), List)
        c.eq(label, l, want)
        c.true(label + " (same electrodes)", set(I.rec(I.getattr(self.adj, "volts")).items) == {X, Y, Z})


ORDERS = [(Y, X, Z), (X, Z, Y), (Z, Y, X)]


@ob("new Adjust has an empty history for every electrode", [A + "__init__"])
def init(c):
    for order in ORDERS:
        w = World(c, order)
        it = w.I.rec(w.I.getattr(w.adj, "volts")).items
        c.true("one per electrode", set(it) == {X, Y, Z})
        c.true("empty", all(w.I.rec(it[k]).parts == () for k in it))
        c.true("own lists", len({it[k].id for k in it}) == 3)
        c.true("system kept", w.I.getattr(w.adj, "system") == w.system)


def mk_set(keys, save, order):
    @ob("set_volts(%s%s) in order %s" % ("+".join(k[1:] for k in keys) or "nothing", ", save" if save else "", "".join(k[1:] for k in order)), [A + "set_volts"])
    def g(c):
        w = World(c, order)
        I = w.I
        w.history([k for k in order])
        cfg = w.config(keys)
        args = {"save": save} if save else {}
        for r in c.run("set_volts", lambda: I.call(I.getattr(w.adj, "set_volts"), [cfg], args)):
            inX = X in keys
            c.eq("dc of the electrode", w.attr(X, "dc"), T.var("newX" if inX else "dcX", "R"))
            c.eq("rf of the electrode", w.attr(X, "rf"), T.var("rfX", "R"))
            w.expect_hist("history", ([T.var("newX", "R")] if inX else [w.last(X)]) if save else [])
            it = I.rec(cfg).items
            c.true("configuration kept", set(it) == set(keys))
            if inX:
                c.eq("configured value kept", it[X], T.var("newX", "R"))
            c.true("returns nothing", r is None)


for _k in ((X, Y), (Y,), (Y, X), (X,), ()):
    for _s in (False, True):
        for _o in ORDERS[:2]:
            mk_set(_k, _s, _o)


@ob("the first saved configuration starts all histories", [A + "set_volts"])
def firstsave(c):
    w = World(c)
    I = w.I
    cfg = w.config((Z, X, Y))
    for r in c.run("set_volts", lambda: I.call(I.getattr(w.adj, "set_volts"), [cfg], {"save": True})):
        c.eq("history", I.getitem(I.getattr(w.adj, "volts"), X), mklist(I, [T.var("newX", "R")]))
        c.eq("dc", w.attr(X, "dc"), T.var("newX", "R"))


GROUPS = {"in a group of several": ([[Y, X], [Z]], 0), "alone": ([[Y], [X], [Z]], 1), "first of its group": ([[Z], [X, Y]], 1), "outside": ([[Y], [Z]], None)}


def groups(I, w, g):
    E = mklist(I, [mklist(I, list(k)) for k in g])
    I.rec(w.adj).attrs["E_config"] = E
    return E


def dV(I, n, kind):
    v = [T.var("dV%d" % j, "R") for j in range(n)]
    if kind == "array":
        return I.new_arr((n,), lambda i: pick(i[0], v), "R")
    return mklist(I, v)


def pick(i, v):
    r = v[-1]
    for j in range(len(v) - 2, -1, -1):
        r = T.ite(T.eq(i, j), v[j], r)
    return r


def mk_config(name, kind):
    g, pos = GROUPS[name]

    @ob("construct_config: %s, %s of changes" % (name, kind), [A + "construct_config"])
    def f(c):
        w = World(c)
        I = w.I
        w.history()
        groups(I, w, g)
        d = dV(I, len(g), kind)
        for r in c.run("construct_config", lambda: I.call(I.getattr(w.adj, "construct_config"), [d])):
            it = I.rec(r).items
            c.true("exactly the electrodes of the groups", set(it) == {k for x in g for k in x})
            if pos is not None:
                c.eq("last value plus the change of the group", it[X], T.add(w.last(X), T.var("dV%d" % pos, "R")))
            w.expect_hist("history unchanged", [])
            c.eq("dc unchanged", w.attr(X, "dc"), T.var("dcX", "R"))


for _n in GROUPS:
    for _k in ("list", "array"):
        mk_config(_n, _k)


def moved(w, init=True):
    I = w.I
    a = I.rec(w.adj).attrs
    a["xms"] = mklist(I, [I.new_arr((3,), lambda i: T.fn("xm0", i), "R")])
    a["curves"] = mklist(I, [I.new_arr((3,), lambda i: T.fn("curve0", i), "R")])
    a["basis"] = I.new_arr((3, 3), lambda i: T.fn("basis0", i), "R")


def length(I, l):
    n = I.py(I.length(l))
    return n


def mk_step(name, own, accept):
    g, pos = GROUPS[name]

    @ob("%s of %s, electrode %s" % ("acceptance" if accept else "rejection", "own changes" if own else "a proposal", name),
        [A + "next_step", A + "propose_move", A + "xm_freq_change", A + "construct_config", A + "set_volts"])
    def f(c):
        w = World(c)
        I = w.I
        w.history()
        groups(I, w, g)
        moved(w)
        # volt_change: any change per group; only reads (separate obligation)
        I.contracts[ADJ + ":Adjust.volt_change"] = lambda I, f, args, kw: dV(I, len(g), "array")

        def thunk():
            if not own:
                r = I.call(I.getattr(w.adj, "propose_move"), [])
                # the proposal is applied but not recorded
                w.expect_hist("proposal: history unchanged", [])
                c.eq("proposal: applied", w.attr(X, "dc"), T.add(w.last(X), T.var("dV%d" % pos, "R")) if pos is not None else T.var("dcX", "R"))
                args = []
            else:
                args = [dV(I, len(g), "list")]
            return I.call(I.getattr(w.adj, "next_step"), args, {} if accept else {"accept": False})
        for r in c.run("next_step", thunk):
            old = w.last(X)
            if accept:
                new = T.add(old, T.var("dV%d" % pos, "R")) if pos is not None else old
                w.expect_hist("history", [new])
                c.eq("dc", w.attr(X, "dc"), new if pos is not None else T.var("dcX", "R"))
            else:
                w.expect_hist("history unchanged", [])
                c.eq("dc restored", w.attr(X, "dc"), old)
            a = I.rec(w.adj).attrs
            c.true("positions recorded", length(I, a["xms"]) == (2 if accept else 1))
            c.true("curvatures recorded", length(I, a["curves"]) == (2 if accept else 1))
            c.true("proposal dropped", "_propose" not in a)
            c.eq("rf", w.attr(X, "rf"), T.var("rfX", "R"))


for _n in GROUPS:
    for _own in (False, True):
        for _acc in (True, False):
            mk_step(_n, _own, _acc)


def mk_vc(method, same_scale):
    @ob("volt_change(%s%s) changes no voltage and no history" % (method, ", same scale" if same_scale else ""), [A + "volt_change"], bounded="three groups")
    def f(c):
        w = World(c)
        I = w.I
        w.history()
        groups(I, w, [[Y, X], [X], [Z]])
        moved(w)
        I.iter_hook = None
        I.contracts[SYS + ":System.potential"] = lambda I, f, args, kw: I.new_arr((1, 3), lambda i: T.fn("field", i), "R")
        I.contracts[ELE + ":Electrode.potential"] = lambda I, f, args, kw: I.new_arr((1, 3), lambda i: T.fn("efield", i), "R")
        for r in c.run("volt_change", lambda: I.call(I.getattr(w.adj, "volt_change"), [], {"method": method, "same_scale": same_scale})):
            w.expect_hist("history unchanged", [])
            c.eq("dc unchanged", w.attr(X, "dc"), T.var("dcX", "R"))
            c.true("one change per group", I.same_dim(I.as_arr(r).shape[0], 3) and I.as_arr(r).ndim == 1)


for _m, _s in (("force", False), ("force", True), ("position", False)):
    mk_vc(_m, _s)
