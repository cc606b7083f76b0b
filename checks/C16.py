"""C16: accessors of System."""
from checks.systems import *

INFO = {"build": True}
F = ["electrode.system.System." + n for n in ("names", "dcs", "rfs", "__getitem__", "__init__")]
KIND = {"names": ("name", "S"), "dcs": ("dc", "R"), "rfs": ("rf", "R")}


def world(c):
    I, m = load(c)
    return (I, m) + system(c, I, m)


def comp(I, N, f):
    return I.alloc(ListRec((("comp", N, lambda i: T.TRUE, lambda i: (("one", f(i)),)),)), List)


def want(I, N, prop, fname):
    sort = KIND[prop][1]
    f = lambda i: T.fn(fname, (i,), sort)
    return comp(I, N, f) if sort == "S" else I.new_arr((N,), lambda i: f(i[0]), "R")


def mk(prop):
    @ob("%s reads the electrodes in order" % prop, F)
    def g(c):
        I, m, s, N, fid = world(c)
        r = c.one("get", lambda: I.getattr(s, prop))
        c.eq("value", r, want(I, N, prop, KIND[prop][0]))

    @ob("%s assignment" % prop, F)
    def h(c):
        for form in ("list", "array", "tuple"):
            I, m, s, N, fid = world(c)
            fld, sort = KIND[prop]
            if form == "array" and sort == "S":
                continue
            if form == "tuple":
                k = [T.var("t%d" % q, sort) for q in range(3)]
                I.assume(T.eq(N, 3))
                val = tuple(k)
                new = lambda i: k[int(i)]
            else:
                val = comp(I, N, lambda i: T.fn("new", (i,), sort)) if form == "list" else I.new_arr((N,), lambda i: T.fn("new", i), "R")
            c.one("set from a " + form, lambda: I.setattr(s, prop, val))
            i = T.var("ie", "I")
            fam = I.heap[fid].fields
            for p2, (f2, s2) in KIND.items():
                if form == "tuple":
                    for q in range(3):
                        c.eq("%s: %s[%d]" % (form, f2, q), fam[f2](T.num(q)), k[q] if p2 == prop else T.fn(f2, (T.num(q),), s2))
                else:
                    c.eq("%s: %s" % (form, f2), fam[f2](i), T.fn("new" if p2 == prop else f2, (i,), s2), pc=[T.le(0, i), T.lt(i, N)])
            if form != "tuple":
                r = c.one("read back", lambda: I.getattr(s, prop))
                c.eq(form + ": read back", r, want(I, N, prop, "new"))


for _p in KIND:
    mk(_p)


@ob("shorter and longer sequences", F)
def lengths(c):
    """only the first min(len) electrodes are assigned"""
    for prop, (fld, sort) in KIND.items():
        I, m, s, N, fid = world(c)
        M = T.var("M", "I")
        I.assume(T.le(0, M))
        for _ in c.run("set", lambda: I.setattr(s, prop, comp(I, M, lambda i: T.fn("new", (i,), sort)))):
            i = T.var("ie", "I")
            got = I.heap[fid].fields[fld](i)
            c.eq(prop + " assigned", got, T.fn("new", (i,), sort), pc=[T.le(0, i), T.lt(i, N), T.lt(i, M)])
            c.eq(prop + " kept", got, T.fn(fld, (i,), sort), pc=[T.le(0, i), T.lt(i, N), T.le(M, i)])


@ob("indexing by integer", F)
def integer(c):
    I, m, s, N, fid = world(c)
    k = T.var("k", "I")
    for meth in ("__getitem__", "electrode"):
        n = 0
        for p in c.paths(lambda: I.call(I.getattr(s, meth), [k])):
            n += 1
            if p.kind == "raise":
                c.true(meth + ": IndexError", p.value.cls is I.builtins["IndexError"])
                c.true(meth + ": only out of range", T.or_(T.lt(k, T.neg(N)), T.le(N, k)))
            else:
                c.true(meth + ": in range", T.and_(T.le(T.neg(N), k), T.lt(k, N)))
                c.eq(meth + ": that electrode", p.value, SymObj(fid, T.ite(T.lt(k, 0), T.add(k, N), k)))
        c.true(meth + ": both cases occur", n >= 2)


@ob("indexing by name", F)
def byname(c):
    I, m, s, N, fid = world(c)
    key = T.var("key", "S")
    i = T.var("ie", "I")
    nm = lambda e: T.fn("name", (e,), "S")
    for meth in ("__getitem__", "electrode"):
        n = 0
        for p in c.paths(lambda: I.call(I.getattr(s, meth), [key])):
            n += 1
            if p.kind == "raise":
                c.fail(meth, "raises %s" % (p.value,))
            elif p.value is None:
                c.true(meth + ": None only when no electrode has the name", T.not_(T.eq(nm(i), key)), pc=[T.le(0, i), T.lt(i, N)])
            else:
                j = T.lift(p.value.idx)
                c.true(meth + ": an electrode of the system", T.and_(p.value.fam == fid, T.le(0, j), T.lt(j, N)))
                c.true(meth + ": it has the name", T.eq(nm(j), key))
                c.true(meth + ": it is the first", T.not_(T.eq(nm(i), key)), pc=[T.le(0, i), T.lt(i, j)])
        c.true(meth + ": both cases occur", n >= 2)
