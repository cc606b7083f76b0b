"""z3 / cvc5 back ends for path conditions and arithmetic side conditions."""
import time
import z3
from fractions import Fraction
from . import terms as T

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0}


class Z3Ctx(object):
    def __init__(self):
        self.memo = {}
        self.side = []
        self.funs = {}
        self.lits = []
        self.opaque = z3.DeclareSort("Opaque")

    def sort(self, s):
        return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "S": self.opaque}[s]

    def fun(self, name, dom, rng):
        k = (name, tuple(d.name() for d in dom), rng.name())
        if k not in self.funs:
            self.funs[k] = z3.Function(name, *(list(dom) + [rng]))
        return self.funs[k]

    def r(self, t):
        e = self.tr(t)
        if z3.is_int(e):
            return z3.ToReal(e)
        return e

    def tr(self, t):
        if t.op in ("sum", "forall"):
            t = T.alpha(t)
        e = self.memo.get(t)
        if e is None:
            e = self._tr(t)
            self.memo[t] = e
        return e

    def _tr(self, t):
        op = t.op
        if op == "num":
            v = t.args[0]
            if t.sort == "I" and v.denominator == 1:
                return z3.IntVal(int(v))
            return z3.RealVal(str(v))
        if op == "var":
            return z3.Const(t.args[0], self.sort(t.sort))
        if op in ("str", "none", "pi", "inf", "ninf"):
            if op == "pi":
                c = z3.Real("__pi")
                self.side.append(z3.And(c > z3.RealVal("3.14159"), c < z3.RealVal("3.1416")))
                return c
            c = z3.Const("__%s_%s" % (op, t.args[0] if t.args else ""), self.sort(t.sort))
            if t.sort == "S":
                self.side += [c != d for d in self.lits if d is not c]
                self.lits.append(c)
            return c
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "add":
            isint = t.sort == "I" and all(c.denominator == 1 for c, _ in t.args[0]) and t.args[1].denominator == 1
            out = []
            for c, x in t.args[0]:
                e = self.tr(x) if isint else self.r(x)
                out.append(e if c == 1 else (z3.IntVal(int(c)) if isint and z3.is_int(e) else z3.RealVal(str(c))) * e)
            if t.args[1] != 0:
                out.append(z3.IntVal(int(t.args[1])) if isint else z3.RealVal(str(t.args[1])))
            return z3.Sum(out) if len(out) > 1 else out[0]
        if op == "mul":
            c, facs = t.args
            isint = t.sort == "I" and c.denominator == 1
            e = None
            if c != 1:
                e = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
            for x, k in facs:
                b = self.tr(x) if isint else self.r(x)
                if k < 0:
                    b = self.r(x)
                    inv = z3.FreshReal("inv")
                    self.side.append(z3.Implies(b != 0, inv * b == 1))
                    b, k = inv, -k
                if k > 6:
                    b = self.fun("__pow", [z3.RealSort(), z3.IntSort()], z3.RealSort())(self.r(x), z3.IntVal(k))
                    k = 1
                for _ in range(k):
                    e = b if e is None else e * b
            return e
        if op == "ite":
            a, b = t.args[1], t.args[2]
            ea, eb = self.tr(a), self.tr(b)
            if ea.sort() != eb.sort() and t.sort == "R":
                ea, eb = self.r(a), self.r(b)
            return z3.If(self.tr(t.args[0]), ea, eb)
        if op == "lt":
            return self.tr(t.args[0]) < 0
        if op == "eq":
            return self.tr(t.args[0]) == 0
        if op == "eqs":
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "and":
            return z3.And(*[self.tr(x) for x in t.args])
        if op == "fn":
            es = [self.tr(x) for x in t.args[1:]]
            if not es:
                return z3.Const(t.args[0], self.sort(t.sort))
            return self.fun(t.args[0], [e.sort() for e in es], self.sort(t.sort))(*es)
        if op == "sqrt":
            x = self.r(t.args[0])
            s = z3.FreshReal("sqrt")
            self.side.append(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
            self.side.append(z3.Implies(x > 0, s > 0))
            return s
        if op == "abs":
            x = self.tr(t.args[0])
            return z3.If(x >= 0, x, -x)
        if op == "floordiv" and t.sort == "I":
            return self.tr(t.args[0]) / self.tr(t.args[1])
        if op == "mod" and t.sort == "I":
            return self.tr(t.args[0]) % self.tr(t.args[1])
        if op == "forall":
            k, lo, hi, b = t.args
            kk = self.tr(k)
            return z3.ForAll([kk], z3.Implies(z3.And(self.tr(lo) <= kk, kk < self.tr(hi)), self.tr(b)))
        if op == "sum":
            e = z3.Const("__t%d" % t.id, self.sort(t.sort))
            if nonneg(t.args[3]):
                self.side.append(e >= 0)
            return e
        # everything else: opaque constant per term (congruence by hash-consing)
        return z3.Const("__t%d" % t.id, self.sort(t.sort))


def nonneg(t):
    """syntactically not negative"""
    op = t.op
    if op == "num":
        return t.args[0] >= 0
    if op in ("sqrt", "abs"):
        return True
    if op == "mul":
        return t.args[0] >= 0 and all(e % 2 == 0 or nonneg(x) for x, e in t.args[1])
    if op == "add":
        return t.args[1] >= 0 and all(c >= 0 and nonneg(x) for c, x in t.args[0])
    if op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if op == "sum":
        return nonneg(t.args[3])
    return False


def limits(s, timeout):
    """the deciding limit counts solver steps, so that the answer does not depend on the load of the machine"""
    s.set("rlimit", timeout * 3000)
    s.set("timeout", timeout * 4)


_cache = {}


def check(assertions, timeout=1500):
    """'sat' | 'unsat' | 'unknown' for a list of boolean terms"""
    key = frozenset(assertions)
    r = _cache.get(key)
    if r is not None:
        return r
    if T.FALSE in key:
        return "unsat"
    for a in key:
        if T.not_(a) in key:
            return "unsat"
    t0 = time.time()
    c = Z3Ctx()
    s = z3.Solver()
    limits(s, timeout)
    for a in assertions:
        s.add(c.tr(a))
    for a in c.side:
        s.add(a)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    _cache[key] = r
    return r


def _relevant(pc, cond):
    """assumptions sharing symbols (transitively) with cond"""
    syms = set(T.fv(cond))
    rest = list(pc)
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for a in rest:
            if T.fv(a) & syms:
                out.append(a)
                syms |= T.fv(a)
                changed = True
            else:
                nr.append(a)
        rest = nr
    return out


def entails(pc, cond, timeout=1500):
    if cond is T.TRUE:
        return True
    if cond in pc:
        return True
    cond = T.alpha(cond)
    if cond is T.TRUE:
        return True
    if cond is T.FALSE:
        return check(list(pc), timeout) == "unsat"
    rel = _relevant(pc, cond)
    return check(rel + [T.not_(cond)], timeout) == "unsat"


def model(assertions, timeout=3000):
    c = Z3Ctx()
    s = z3.Solver()
    limits(s, timeout)
    for a in assertions:
        s.add(c.tr(a))
    for a in c.side:
        s.add(a)
    if s.check() == z3.sat:
        return s.model(), c
    return None


def cvc5_check(assertions, timeout=5000):
    """second opinion: the same query as SMT-LIB text through cvc5"""
    import cvc5
    t0 = time.time()
    c = Z3Ctx()
    s = z3.Solver()
    for a in assertions:
        s.add(c.tr(a))
    for a in c.side:
        s.add(a)
    txt = s.to_smt2()
    slv = cvc5.Solver()
    slv.setOption("tlimit-per", str(timeout))
    sm = cvc5.SymbolManager(slv.getTermManager()) if hasattr(slv, "getTermManager") else cvc5.SymbolManager(slv)
    p = cvc5.InputParser(slv, sm)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
    res = "unknown"
    try:
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if out and out.strip() in ("sat", "unsat", "unknown"):
                res = out.strip()
    except Exception:
        res = "unknown"
    STATS["cvc5_calls"] += 1
    STATS["cvc5_time"] += time.time() - t0
    return res
