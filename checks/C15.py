"""C15: with_voltages."""
from checks.systems import *

INFO = {"build": True}
F = ["electrode.system.System.with_voltages", "electrode.system.System.dcs", "electrode.system.System.rfs"]


def volts(c, I, label, s, fid, N, dc, rf):
    i = T.var("ie", "I")
    rng = [T.le(0, i), T.lt(i, N)]
    fam = I.heap[fid].fields
    c.eq(label + " dc", fam["dc"](i), dc(i), pc=rng)
    c.eq(label + " rf", fam["rf"](i), rf(i), pc=rng)
    c.eq(label + " name", fam["name"](i), T.fn("name", (i,), "S"), pc=rng)


def fld(n):
    return lambda i: T.fn(n, (i,))


def enter(I, s, args, kw, body):
    I.with_cm(I.call(I.getattr(s, "with_voltages"), args, kw), body)


def havoc(I, fid, a, b):
    """an arbitrary block: leaves any voltages behind"""
    r = I.rec(SymFam(fid)) if False else I.heap[fid].copy()
    r.fields["dc"], r.fields["rf"] = fld(a), fld(b)
    I.heap[fid] = r


EXC = ("normal", "KeyError", "KeyboardInterrupt", "return")


def world(c):
    I, m = load(c)
    s, N, fid = system(c, I, m)
    return I, s, N, fid


def arr(I, name, N, kind):
    a = I.new_arr((N,), lambda i: T.fn(name, i), "R")
    if kind == "list":
        return I.alloc(ListRec((("comp", N, lambda i: T.TRUE, lambda i: (("one", T.fn(name, (i,))),)),)), List)
    return a


def mk(has_dc, has_rf, end, kind):
    @ob("with_voltages(%s, %s) as %s, block ends by %s" % ("dcs" if has_dc else "None", "rfs" if has_rf else "None", kind, end), F)
    def g(c):
        I, s, N, fid = world(c)
        kw = {}
        if has_dc:
            kw["dcs"] = arr(I, "gd", N, kind)
        if has_rf:
            kw["rfs"] = arr(I, "gr", N, kind)
        seen = []

        def body(v):
            seen.append(1)
            volts(c, I, "inside", s, fid, N, fld("gd" if has_dc else "dc"), fld("gr" if has_rf else "rf"))
            # None leaves that kind of voltage to the caller: the block may set what it was given
            r = I.heap[fid].copy()
            if has_dc:
                r.fields["dc"] = fld("hd")
            if has_rf:
                r.fields["rf"] = fld("hr")
            I.heap[fid] = r
            if end == "return":
                from pyvc.values import ReturnSig
                raise ReturnSig(T.num(7))
            if end != "normal":
                raise PyExc(I.builtins[end], ("block",))

        def thunk():
            from pyvc.values import ReturnSig
            try:
                enter(I, s, [], kw, body)
            except ReturnSig:
                return "return"
        n = 0
        for p in c.paths(thunk):
            n += 1
            if end in ("normal", "return"):
                c.true("ends normally", p.kind != "raise")
            else:
                c.true("exception propagates", p.kind == "raise" and p.value.cls is I.builtins[end])
            volts(c, I, "after", s, fid, N, fld("dc"), fld("rf"))
            for k, nm in (("dcs", "gd"), ("rfs", "gr")):
                if k in kw:
                    c.eq("given %s unchanged" % k, I.as_arr(kw[k]), I.new_arr((N,), lambda i: T.fn(nm, i), "R"))
        c.true("block runs once on every path", len(seen) == n)


@ob("nested blocks", F)
def nested(c):
    """unwind in order; the inner block raises"""
    for exc in (None, "ValueError"):
        I, s, N, fid = world(c)

        def inner(v):
            volts(c, I, "innermost", s, fid, N, fld("g2"), fld("r1"))
            havoc(I, fid, "hd", "r1")
            if exc:
                raise PyExc(I.builtins[exc], ("inner",))

        def outer(v):
            try:
                enter(I, s, [arr(I, "g2", N, "array")], {}, inner)
            except PyExc as e:
                c.true("propagates to the outer block", e.cls is I.builtins[exc])
            volts(c, I, "outer block after the inner", s, fid, N, fld("g1"), fld("r1"))
        for p in c.paths(lambda: enter(I, s, [arr(I, "g1", N, "array"), arr(I, "r1", N, "list")], {}, outer)):
            c.true("ends normally", p.kind != "raise")
            volts(c, I, "after", s, fid, N, fld("dc"), fld("rf"))


for _d in (True, False):
    for _r in (True, False):
        for _e in EXC:
            for _k in ("array", "list"):
                if _d or _r or _k == "array":
                    mk(_d, _r, _e, _k)


for _bad in ("dcs", "rfs"):
    for _other in (True, False):
        def mkbad(bad, other):
            @ob("entry fails: %s not iterable, the other %s" % (bad, "given" if other else "None"), F)
            def g(c):
                I, s, N, fid = world(c)
                kw = {bad: T.num(5)}
                if other:
                    kw["rfs" if bad == "dcs" else "dcs"] = arr(I, "g2", N, "array")

                def body(v):
                    c.true("block not entered", False)
                for p in c.paths(lambda: enter(I, s, [], kw, body)):
                    c.true("TypeError", p.kind == "raise" and p.value.cls is I.builtins["TypeError"])
                    volts(c, I, "after", s, fid, N, fld("dc"), fld("rf"))
        mkbad(_bad, _other)
