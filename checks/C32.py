"""C32: polygons of XIC files."""
from pyvc.harness import *
from pyvc.sstr import SStr, mk, WS, WS0, OTHER, rest
from pyvc.interp import Poison, UNBOUND

INFO = {"build": True}
MOD = "electrode.xic"
F = [MOD + ".xic_to_list"]
NOTE = "loop invariant over the lines of a file of any length; lines as strings with arbitrary number tokens, white space and unknown text"


def tok(*a):
    return T.fn("token", [T.lift(x) for x in a], "S")


def num(*a):
    return T.fn("float", (tok(*a),), "R")


# number of the tokens of a line: the line's tag and 0 / 1
def two(tag):
    return [("tok", tok(tag, 0)), WS, ("tok", tok(tag, 1))]


TAGP, TAGC, TAGE = 1000001, 1000002, 1000003
P_LINES = [mk(["P", WS] + two(TAGP) + [WS0]), mk(["P"] + [" "] + two(TAGP) + ["\n"])]
CONT = [mk([" ", WS0] + two(TAGC) + [WS0]), mk(["  "] + two(TAGC) + ["\n"])]
LAST = [mk([" ", WS0] + two(TAGE) + [";", WS0]), mk([" "] + two(TAGE) + [" ;\n"]), mk([" "] + two(TAGE) + [WS, ";"])]
IDLE = ["", "\n", "  \n", "\t\r\n", mk([OTHER, rest(False)]), mk([OTHER, rest(True)]), mk([OTHER, rest(True), WS0]), mk([OTHER])]


class File(object):
    """the lines of a file: records and unrelated lines in any number"""
    def __init__(self, c, I):
        self.c, self.I = c, I
        self.uses = 0

    def np_getattr(self, I, name):
        if name in ("read", "readlines", "readline", "name", "close"):
            raise Unsupported("file.%s" % name)
        raise PyExc(I.builtins["AttributeError"], (name,))

    def for_hook(self, I, s, fr):
        c = self.c
        self.uses += 1
        env = fr.env
        n, m = T.var("records", "I"), T.var("rows", "I")
        I.assume(T.le(0, n))
        I.assume(T.le(1, m))
        start = dict(I.heap[env].vars)
        heap0 = dict(I.heap)
        lists = [k for k, v in start.items() if isinstance(v, List) and I.rec(v).parts == ()]
        if not lists:
            raise Unsupported("no empty list to collect the polygons in")

        def install(v):
            I.heap = dict(v[2])
            r = I.heap[env].copy()
            r.vars = dict(v[0])
            I.heap[env] = r
            for i, parts in v[1].items():
                I.heap[i] = ListRec(parts)

        def step(state, line, what):
            """state after one line"""
            install(state)
            I.assign(s.target, line, fr)
            try:
                I.exec_block(s.body, fr)
            except ContinueSig:
                pass
            except BreakSig:
                c.true(what + ": the loop goes on", False)
                raise Infeasible()
            vs = dict(I.heap[env].vars)
            return vs, {v.id: I.rec(v).parts for v in vs.values() if isinstance(v, List)}, dict(I.heap)

        def poly(k):
            return T.fn("polygon", (k,), "S")
        done = (("comp", n, lambda i: T.TRUE, lambda i: (("one", poly(i)),)),)

        def comparable(a):
            return a is None or isinstance(a, (bool, int, str, Func, Module, Builtin, BuiltinClass, ClassVal))

        # the collecting list: the one that grows when a record ends
        st0 = (start, {start[k].id: () for k in lists}, heap0)
        trial = st0
        for l in (P_LINES[0], CONT[0], LAST[0]):
            trial = step(trial, l, "a record")
        grown = [k for k in lists if isinstance(trial[0].get(k), List) and trial[0][k] == start[k] and len(trial[1][start[k].id]) == 1]
        if len(grown) != 1:
            c.true("a record yields one polygon", False)
            raise Infeasible()
        es = grown[0]
        eid = start[es].id

        def closed(extra_poison=()):
            v = dict(start)
            for k in extra_poison:
                v[k] = Poison("left over from an earlier line")
            return v, {eid: done}, heap0

        def open_(pois, after, rows):
            v = dict(after[0])
            ls = {eid: done}
            for k in pois:
                v[k] = Poison("left over from an earlier line")
            for k, (lid, gen) in rows.items():
                ls[lid] = gen(m)
            return v, ls, after[2]

        firsts = {}

        def generalise(after):
            """lists with one element made from the first vertex: any number of such elements"""
            rows = {}
            for k, v in after[0].items():
                if isinstance(v, List) and k != es and not (isinstance(start.get(k), List) and start[k].id == v.id):
                    ps = after[1][v.id]
                    if len(ps) == 1 and ps[0][0] == "one" and mentions(I, ps[0][1]):
                        firsts[k] = inst(I, ps[0][1], TAGP)
                        rows[k] = (v.id, lambda m, e=firsts[k]: (("comp", m, lambda i: T.TRUE, lambda i, e=e: (("one", inst(I, e, i)),)),))
            return rows

        # closed states: variables that any line may leave behind are not usable
        tgt = {x.id for x in __import__("ast").walk(s.target) if hasattr(x, "id")}
        after_p = step(closed(), P_LINES[0], "first line of a record")
        rows = generalise(after_p)
        for _round in range(4):
            pc, po = set(tgt), set(tgt)
            bad = False
            # what each line leaves behind, compared with what the state says
            base_c, base_o = start, after_p[0]
            for st, base, pois, lines in ((("closed"), base_c, pc, IDLE), ("open", base_o, po, IDLE + CONT + P_LINES[:0])):
                for l in lines:
                    state = closed(pc) if st == "closed" else open_(po, after_p, rows)
                    vs = step(state, l, "unrelated line")
                    diff(I, vs[0], base, pois, es, rows)
            for l in LAST:
                vs = step(open_(po, after_p, rows), l, "last line")
                diff(I, vs[0], base_c, pc, es, {})
            for l in P_LINES:
                vs = step(closed(pc), l, "first line of a record")
                diff(I, vs[0], base_o, po, es, rows)
            break
        C, O = closed(pc), open_(po, after_p, rows)

        def same_rows(label, st, extra):
            vs = st[0]
            for k, (lid, gen) in rows.items():
                v = vs.get(k)
                c.true("%s: %s kept" % (label, k), isinstance(v, List))
                if isinstance(v, List):
                    want = gen(m) + tuple(("one", x) for x in extra.get(k, ()))
                    c.eq("%s: vertices so far" % label, v, I.alloc(ListRec(want), List))

        def collected(label, st, new):
            v = st[0].get(es)
            c.true(label + ": polygons kept", isinstance(v, List) and v.id == eid)
            want = done + tuple(("one", x) for x in new)
            c.eq(label + ": polygons so far", v, I.alloc(ListRec(want), List))

        for j, l in enumerate(IDLE):
            st = step(C, l, "unrelated line")
            collected("unrelated line %d between records" % j, st, [])
            st = step(O, l, "unrelated line")
            collected("unrelated line %d in a record" % j, st, [])
            same_rows("unrelated line %d in a record" % j, st, {})
        for j, l in enumerate(P_LINES):
            st = step(C, l, "first line of a record")
            collected("first line %d" % j, st, [])
            for k, (lid, gen) in rows.items():
                v = st[0].get(k)
                c.eq("first line %d: one vertex" % j, v, I.alloc(ListRec((("one", inst(I, firsts[k], TAGP)),)), List))
        for j, l in enumerate(CONT):
            st = step(O, l, "continuation line")
            collected("continuation %d" % j, st, [])
            same_rows("continuation %d" % j, st, {k: [inst(I, firsts[k], TAGC)] for k in rows})
        for j, l in enumerate(LAST):
            st = step(O, l, "last line")
            sc = T.num(Fraction(1, 10 ** 8), "R")
            want = I.new_arr((T.add(m, 1), 2), lambda i: T.mul(sc, T.ite(T.lt(i[0], m), T.fn("float", (T.fn("token", (i[0], i[1]), "S"),), "R"), T.fn("float", (T.fn("token", (T.num(TAGE), i[1]), "S"),), "R"))), "R")
            v = st[0].get(es)
            ps = I.rec(v).parts if isinstance(v, List) else ()
            c.true("last line %d: one more polygon" % j, isinstance(v, List) and v.id == eid and len(ps) == 2 and ps[1][0] == "one" and isinstance(ps[1][1], Arr))
            if len(ps) == 2:
                c.eq("last line %d: all vertices in metres" % j, ps[1][1], want)
                c.eq("last line %d: earlier polygons" % j, I.alloc(ListRec(ps[:1]), List), I.alloc(ListRec(done), List))
        # the file ends between two records
        install(C)
        return True


def diff(I, vs, base, pois, es, rows):
    for k in set(vs) | set(base):
        if k == es or k in rows:
            continue
        a, b = vs.get(k, UNBOUND), base.get(k, UNBOUND)
        if isinstance(a, Poison) and a is not UNBOUND and k in pois:
            continue
        if a is b or type(a) is type(b) and isinstance(a, (bool, int, str)) and a == b:
            continue
        pois.add(k)


def mentions(I, v):
    if isinstance(v, Term):
        return any(x.op == "fn" and x.args[0] == "token" and x.args[1] is T.num(TAGP) for x in walk(v))
    if isinstance(v, (List, tuple)):
        return any(p[0] == "one" and mentions(I, p[1]) for p in I.parts(v))
    return False


def walk(t):
    yield t
    for x in T.children(t):
        for y in walk(x):
            yield y


def inst(I, e, k):
    """the element with the tokens of row k instead of those of the first line"""
    if isinstance(e, Term):
        return T.subst(e, {x: tok(k, x.args[2]) for x in walk(e) if x.op == "fn" and x.args[0] == "token" and x.args[1] is T.num(TAGP)})
    if isinstance(e, (List, tuple)):
        return tuple(inst(I, p[1], k) for p in I.parts(e))
    return e


@ob("lines of a file of any length", F)
def lines(c):
    I = c.interp()
    m = I.load(MOD)
    f = File(c, I)
    for r in c.run("xic_to_list", lambda: I.call(I.modget(m, "xic_to_list"), [f])):
        n = T.var("records", "I")
        c.eq("all polygons in order", r, I.alloc(ListRec((("comp", n, lambda i: T.TRUE, lambda i: (("one", T.fn("polygon", (i,), "S")),)),)), List))
        c.true("the lines are read once", f.uses == 1)


@ob("empty file", F)
def empty(c):
    I = c.interp()
    m = I.load(MOD)
    for r in c.run("xic_to_list", lambda: I.call(I.modget(m, "xic_to_list"), [I.alloc(ListRec(()), List)])):
        c.true("no polygons", isinstance(r, List) and I.rec(r).parts == ())
