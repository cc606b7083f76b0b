"""Algebraic normal form: the exact decision back end for equalities.

A term becomes a Laurent polynomial with rational coefficients over atoms.  A
monomial is one Python int, sum(e_i << (W*i)); multiplication of monomials is
integer addition.  Atoms are variables, applications, square roots (s^2 = P),
sines/cosines (c^2 = 1 - s^2), absolute values (|t|^2 = t^2), indicators of
conditions ([c]^2 = [c]), denominators ('poly' atoms: stand for a polynomial,
only ever with negative exponents until denominators are cleared) and finite
sums over symbolic ranges.  A term is proved equal to zero by clearing
denominators, expanding and reducing by the relations until nothing is left."""
from fractions import Fraction
from . import terms as T

W = 20
HALF = 1 << (W - 1)
MASK = (1 << W) - 1


def int_exp(t):
    return t.sort == "I" or t.op == "toreal" and t.args[0].sort == "I"


class TooBig(Exception):
    pass


def decode(m):
    out = []
    i = 0
    while m:
        e = m & MASK
        if e >= HALF:
            e -= 1 << W
        if e:
            out.append((i, e))
        m = (m - e) >> W
        i += 1
    return out


def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class NF(object):
    def __init__(self, nonneg=(), limit=4000000, entails=None):
        self.atoms = []          # list of dict(kind, term, rel, deps)
        self.index = {}
        self.memo = {}
        self.limit = limit
        self.indmask = 0         # fields of indicator atoms
        self.entails = entails or (lambda c: False)
        self.ops = 0
        self.expand_trig = False

    # -- polynomials -----------------------------------------------------
    def const(self, c):
        c = _n(Fraction(c))
        return {0: c} if c else {}

    def padd(self, p, q, c=1):
        if len(p) < len(q) and c == 1:
            p, q = q, p
        r = dict(p)
        for m, a in q.items():
            v = r.get(m, 0) + (a if c == 1 else a * c)
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pscale(self, p, c):
        c = _n(Fraction(c))
        if c == 1:
            return p
        if not c:
            return {}
        return {m: _n(a * c) for m, a in p.items()}

    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        self.ops += len(p) * len(q)
        if self.ops > self.limit * 50:
            raise TooBig("polynomial work limit")
        r = {}
        get = r.get
        for m1, a1 in p.items():
            for m2, a2 in q.items():
                m = m1 + m2
                r[m] = get(m, 0) + a1 * a2
        r = {m: _n(a) for m, a in r.items() if a}
        if self.inds:
            r = self.red_ind(r)
        if len(r) > self.limit:
            raise TooBig("polynomial with %d monomials" % len(r))
        return r

    inds = ()

    def red_ind(self, p):
        """idempotence of indicator atoms"""
        out = None
        for m, a in p.items():
            m2 = m
            for i in self.inds:
                e = self.expo(m, i)
                if e > 1:
                    m2 -= (e - 1) << (W * i)
            if m2 != m:
                if out is None:
                    out = {}
                    for mm, aa in p.items():
                        if mm == m:
                            break
                        out[mm] = out.get(mm, 0) + aa
            if out is not None:
                out[m2] = out.get(m2, 0) + a
        if out is None:
            return p
        return {m: a for m, a in out.items() if a}

    def expo(self, m, i):
        # signed digit i of m
        if m >= 0:
            # borrow-free unless lower digits negative; handle generally
            pass
        low = m & ((1 << (W * i)) - 1)
        # carry from negative lower digits
        if i and low >= 1 << (W * i - 1):
            carry = 1
        else:
            carry = 0
        e = ((m >> (W * i)) + carry) & MASK
        if e >= HALF:
            e -= 1 << W
        return e

    def ppow(self, p, n):
        r = {0: 1}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def key(self, p):
        return frozenset(p.items())

    # -- atoms -------------------------------------------------------------
    def atom(self, key, kind, term, rel=None, deps=None):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.index[key] = i
            self.atoms.append(dict(kind=kind, term=term, rel=rel, deps=T.fv(term) if deps is None else deps))
            if kind == "ind":
                self.inds = tuple(self.inds) + (i,)
        return i

    def mono(self, i, e=1):
        return {e << (W * i): 1}

    def inverse(self, p, n):
        """p^-n"""
        if not p:
            raise ZeroDivisionError("division by an expression that is identically zero")
        if len(p) == 1:
            (m, c), = p.items()
            return {-m * n: _n(Fraction(1) / Fraction(c) ** n)}
        # pull out the monomial gcd and normalise the leading coefficient
        c, g, q = self.primitive(p)
        t = self.to_term(q)
        i = self.atom(("poly", self.key(q)), "poly", t, rel=q)
        return {-g * n - (n << (W * i)): _n(Fraction(1) / Fraction(c) ** n)}

    def primitive(self, p):
        ms = [dict(decode(m)) for m in p]
        g = None
        for d in ms:
            if g is None:
                g = dict(d)
            else:
                for k in list(g):
                    e = d.get(k, 0)
                    if e < g[k]:
                        g[k] = e
                for k, e in d.items():
                    if k not in g and e < 0:
                        g[k] = e
        gm = 0
        for k, e in (g or {}).items():
            if any(k not in d for d in ms) and e > 0:
                e = 0
            if self.atoms[k]["kind"] == "ind" :
                e = 0
            gm += e << (W * k)
        q = {m - gm: a for m, a in p.items()}
        lead = min(q)
        c = q[lead]
        q = {m: _n(Fraction(a) / Fraction(c)) for m, a in q.items()}
        return c, gm, q

    def to_term(self, p):
        out = []
        for m, a in p.items():
            fs = [T.num(Fraction(a), "R")]
            for i, e in decode(m):
                fs.append(T.power(self.atoms[i]["term"], e))
            out.append(T.mul(*fs))
        return T.add(*out) if out else T.num(0, "R")

    # -- conversion ----------------------------------------------------------
    def poly(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self._poly(t)
        self.memo[t] = r
        return r

    def _poly(self, t):
        op = t.op
        if op == "num":
            return self.const(t.args[0])
        if op == "add":
            r = self.const(t.args[1])
            for c, x in t.args[0]:
                r = self.padd(r, self.poly(x), _n(c)) if c != 1 else self.padd(self.poly(x), r)
            return {m: _n(a) for m, a in r.items() if a}
        if op == "mul":
            r = self.const(t.args[0])
            parts = []
            for x, e in t.args[1]:
                parts.append(self.ppow_t(x, e))
            parts.sort(key=len)
            for q in parts:
                r = self.pmul(r, q)
            return r
        if op == "ite":
            c = self.ind(t.args[0])
            a, b = self.poly(t.args[1]), self.poly(t.args[2])
            return self.padd(b, self.pmul(c, self.padd(a, b, -1)))
        if op == "sum":
            return self.sum_poly(t)
        if op == "sqrt":
            p = self.poly(t.args[0])
            if len(p) > 1:
                # (sqrt q)^2 = q and cos^2 = 1 - sin^2 inside the radicand, denominators untouched
                if not any(e < 0 for m in p for i, e in decode(m)):
                    p = self.expand_atoms(p, lambda i, e: e >= 2 and self.atoms[i]["kind"] in ("sqrt", "cos"),
                                          lambda i: (2, self.atoms[i]["rel"]))
            return self.mono(self.atom(("sqrt", self.key(p)), "sqrt", t, rel=p))
        if op == "abs":
            p = self.poly(t.args[0])
            if not p:
                return p
            c, g, q = self.primitive(p) if len(p) > 1 else (1, 0, p)
            k1, k2 = self.key(p), self.key(self.pscale(p, -1))
            i = self.index.get(("abs", k2))
            if i is not None:
                return self.mono(i)
            return self.mono(self.atom(("abs", k1), "abs", t, rel=self.pmul(p, p)))
        if op == "cos":
            p = self.poly(t.args[0])
            k = self.key(p)
            s = self.atom(("sin", k), "sin", T.unary("sin", t.args[0]))
            rel = {0: 1, 2 << (W * s): -1}
            return self.mono(self.atom(("cos", k), "cos", t, rel=rel))
        if op in ("sin", "exp", "atan", "asin", "acos", "sinh", "cosh", "tan", "log"):
            p = self.poly(t.args[0])
            return self.mono(self.atom((op, self.key(p)), op, t))
        if op == "pows" and T.isnum(t.args[0]) and T.numval(t.args[0]) == -1 and int_exp(t.args[1]):
            # (-1)^n: a sign, the same for n and -n
            p = self.poly(t.args[1])
            if p and p[min(p)] < 0:
                p = self.pscale(p, -1)
            return self.mono(self.atom(("sign", self.key(p)), "abs", t, rel={0: 1}))
        if op in ("atan2", "pows", "floordiv", "mod", "max", "min"):
            ks = tuple(self.key(self.poly(x)) for x in t.args)
            if op == "atan2":
                # scale invariance is not applied; arguments compared exactly
                pass
            return self.mono(self.atom((op,) + ks, op, t))
        if op == "fn":
            ks = tuple(self.key(self.poly(x)) if x.sort in "IRB" else x for x in t.args[1:])
            return self.mono(self.atom(("fn", t.args[0]) + ks, "fn", t))
        if t.sort == "B":
            return self.ind(t)
        return self.mono(self.atom(t, op, t))

    def ppow_t(self, x, e):
        if e == 1:
            return self.poly(x)
        if e > 0:
            return self.ppow(self.poly(x), e)
        p = self.poly(x)
        return self.inverse(p, -e)

    def ind(self, c):
        """indicator polynomial of a boolean term"""
        if c is T.TRUE:
            return {0: 1}
        if c is T.FALSE:
            return {}
        op = c.op
        if op == "not":
            return self.padd({0: 1}, self.ind(c.args[0]), -1)
        if op == "and":
            r = {0: 1}
            for x in c.args:
                r = self.pmul(r, self.ind(x))
            return r
        if op in ("lt", "eq"):
            p = self.poly(c.args[0])
            if not p:
                return {0: 1} if op == "eq" else {}
            if len(p) == 1 and 0 in p:
                v = p[0]
                return ({0: 1} if v < 0 else {}) if op == "lt" else {}
            if op == "eq":
                lead = Fraction(p[min(p)])
                q = {m: _n(Fraction(a) / lead) for m, a in p.items()}
                return self.mono(self.atom(("eq", self.key(q)), "ind", c))
            s = c.args[0].sort
            lead = abs(Fraction(p[min(p)]))
            q = {m: _n(Fraction(a) / lead) for m, a in p.items()}
            if s == "I":
                # p < 0 over the integers: negation of -p-1 < 0; keep the one with positive lead
                if p[min(m for m in p if m)] < 0:
                    np_ = self.padd(self.pscale(p, -1), {0: -1})
                    i = self.atom(("lti", self.key(np_)), "ind", T.lt(self.iterm(np_), T.num(0)))
                    return {0: 1, 1 << (W * i): -1}
                return self.mono(self.atom(("lti", self.key(p)), "ind", c))
            if self.index.get(("lt", self.key(q))) is None:
                # p<0 vs p>0 are different conditions (p==0); keep both
                pass
            return self.mono(self.atom(("lt", self.key(q)), "ind", c))
        if op == "forall":
            k, lo, hi, b = c.args
            kd = T.var("_b", "I")
            b = T.subst(b, {k: kd})
            ks = (self.key(self.poly(lo)), self.key(self.poly(hi)), self.key(self.ind(b)))
            return self.mono(self.atom(("forall",) + ks, "ind", c))
        return self.mono(self.atom(("bool", c), "ind", c))

    def iterm(self, p):
        out = []
        for m, a in p.items():
            fs = [T.num(int(a), "I")] if Fraction(a).denominator == 1 else [T.num(a, "R")]
            for i, e in decode(m):
                fs.append(T.power(self.atoms[i]["term"], e))
            out.append(T.mul(*fs))
        return T.add(*out) if out else T.num(0)

    # -- sums -------------------------------------------------------------------
    def sum_poly(self, t):
        k, lo, hi, body = t.args
        if not (T.isnum(lo) and T.numval(lo) == 0):
            body = T.subst(body, {k: T.add(k, lo)})
            hi = T.sub(hi, lo)
            lo = T.num(0)
        # a private bound variable for this conversion
        k2 = T.fresh("_s", "I")
        body = T.subst(body, {k: k2})
        p = self.poly(body)
        res = {}
        groups = {}
        for m, a in p.items():
            indep = 0
            dep = 0
            for i, e in decode(m):
                if k2 in self.atoms[i]["deps"]:
                    dep += e << (W * i)
                else:
                    indep += e << (W * i)
            groups.setdefault(dep, {})[indep] = a
        for dep, coef in groups.items():
            s = self.sum_mono(k2, hi, dep)
            res = self.padd(res, self.pmul(coef, s))
        return res

    def sum_mono(self, k, hi, dep):
        if dep == 0:
            p = self.poly(hi)
            if self.entails(T.le(T.num(0), hi)):
                return p
            return self.poly(T.ite(T.lt(hi, T.num(0)), T.num(0), hi))
        # Kronecker delta
        for i, e in decode(dep):
            at = self.atoms[i]
            if at["kind"] == "ind" and at["term"].op == "eq":
                d = at["term"].args[0]
                if d.sort == "I":
                    items, const = T._linear(d)
                    ck = [c for c, x in items if x is k]
                    if ck and abs(ck[0]) == 1 and all(k not in T.fv(x) for c, x in items if x is not k):
                        rest = T.add(*([T.mul(T.num(int(-c / ck[0])), x) for c, x in items if x is not k]
                                       + [T.num(int(-const / ck[0]))])) if True else None
                        other = dep - (e << (W * i))
                        dead = False
                        for i2, e2 in decode(other):
                            if self.atoms[i2]["kind"] == "ind":
                                c2 = T.subst(self.atoms[i2]["term"], {k: rest})
                                if c2 is T.TRUE or self.entails(c2):
                                    other -= e2 << (W * i2)
                                elif c2 is T.FALSE or self.entails(T.not_(c2)):
                                    dead = True
                        if dead:
                            return {}
                        body = self.to_term({other: 1})
                        body = T.subst(body, {k: rest})
                        g = T.and_(T.le(T.num(0), rest), T.lt(rest, hi))
                        if g is not T.TRUE and self.entails(g):
                            g = T.TRUE
                        return self.pmul(self.ind(g), self.poly(body))
        return self.multi_sum([(k, hi)], {dep: 1})

    def multi_sum(self, binders, p, tries=0):
        """sum of the polynomial p over all binders (outermost first), in a form independent of the order of the binders:
        inner sums that depend on a binder are opened, the binders renamed in the order that gives the smallest key"""
        res = {}
        for m, a in p.items():
            bs, mono = list(binders), m
            opened = True
            while opened and len(bs) < 5:
                opened = False
                ks = {b for b, _ in bs}
                for i, e in decode(mono):
                    at = self.atoms[i]
                    if e >= 1 and at["kind"] == "sum" and ks & set(at["deps"]):
                        t = at["term"]
                        nb = []
                        while t.op == "sum":
                            f = T.fresh("_s", "I")
                            nb.append((f, t.args[2]))
                            t = T.subst(t.args[3], {t.args[0]: f})
                        q = self.poly(t)
                        if len(q) != 1 or len(bs) + len(nb) > 5:
                            continue
                        (mm, aa), = q.items()
                        mono = mono - (1 << (W * i)) + mm
                        if self.inds:
                            (mono, _), = self.red_ind({mono: 1}).items()
                        a = _n(a * aa)
                        bs += nb
                        opened = True
                        break
            res = self.padd(res, self.pscale(self.one_sum(bs, mono), a))
        return res

    def one_sum(self, bs, mono):
        import itertools
        # factors that depend on no binder of some connected component are pulled apart
        comps = []
        free = 0
        names = {b for b, _ in bs}
        bdeps = {b: T.fv(h) & names for b, h in bs}
        for i, e in decode(mono):
            d = set(self.atoms[i]["deps"]) & names
            if not d:
                free += e << (W * i)
                continue
            d = set(d)
            f = e << (W * i)
            rest = []
            for cd, cf in comps:
                if cd & d:
                    d |= cd
                    f += cf
                else:
                    rest.append((cd, cf))
            comps = rest + [(d, f)]
        if not any(bdeps.values()):
            done = set()
            if len(comps) > 1 or len(comps) == 1 and comps[0][0] != names:
                r = {free: 1}
                for cd, cf in comps:
                    done |= cd
                    r = self.pmul(r, self.conn_sum([x for x in bs if x[0] in cd], cf))
                for b, h in bs:
                    if b not in done:
                        r = self.pmul(r, self.sum_mono(b, h, 0))
                return r
        return self.pmul({free: 1}, self.conn_sum(bs, mono - free))

    def conn_sum(self, bs, mono):
        import itertools
        body = self.to_term({mono: 1})
        d = self.depth(body)
        his = [h for _, h in bs]
        d = max([d] + [self.depth(h) for h in his])
        names = [b for b, _ in bs]
        best = None
        n = len(bs)
        kd = [T.var("_k%d" % (d + n - q), "I") for q in range(n)]
        for perm in itertools.permutations(range(n)) if n > 1 else [(0,)]:
            # perm[q]: binder at position q (0 outermost)
            ok = True
            for q in range(n):
                dep = T.fv(his[perm[q]]) & set(names)
                if dep - {names[perm[w]] for w in range(q)}:
                    ok = False
                    break
            if not ok:
                continue
            m = {names[perm[q]]: kd[q] for q in range(n)}
            hs = [T.subst(his[perm[q]], m) for q in range(n)]
            cb = T.subst(body, m)
            pb = self.poly(cb)
            key = (tuple(self.key(self.poly(h)) for h in hs), self.key(pb))
            sk = repr([sorted(x.items() if isinstance(x, dict) else x, key=repr) for x in key[0] + (key[1],)])
            if best is None or sk < best[0]:
                best = (sk, key, hs, pb)
        sk, key, hs, pb = best
        term = self.to_term(pb)
        for q in reversed(range(n)):
            term = T.mk("sum", (kd[q], T.num(0), hs[q], term), "R")
        return self.mono(self.atom(("sum", key[0], d + n, key[1]), "sum", term))

    def depth(self, t):
        best = 0
        seen = set()
        stack = [t]
        import re
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "sum" and x.args[0].args[0].startswith("_k"):
                best = max(best, int(x.args[0].args[0][2:]))
            stack.extend(T.children(x))
        return best

    # -- zero test -------------------------------------------------------------
    def clear(self, p):
        """multiply by a common denominator (all negative exponents)"""
        mins = {}
        for m in p:
            for i, e in decode(m):
                if e < 0 and e < mins.get(i, 0):
                    mins[i] = e
        mult = 0
        for i, e in mins.items():
            mult += (-e) << (W * i)
        return {m + mult: a for m, a in p.items()}, bool(mins)

    def expand_atoms(self, p, pred, value):
        """replace positive powers of atoms selected by pred using value(i) -> (step, poly)"""
        while True:
            targets = {}
            for m in p:
                for i, e in decode(m):
                    if pred(i, e):
                        targets[i] = max(targets.get(i, 0), e)
            if not targets:
                return p
            i = max(targets)
            step, val = value(i)
            # Horner-like: group by exponent of atom i
            byexp = {}
            for m, a in p.items():
                e = self.expo(m, i)
                byexp.setdefault(e // step, {})[m - ((e // step * step) << (W * i))] = a
            kmax = max(byexp)
            assert min(byexp) >= 0
            acc = {}
            for kk in range(kmax, -1, -1):
                if acc:
                    acc = self.pmul(acc, val)
                if kk in byexp:
                    acc = self.padd(acc, byexp[kk])
            p = acc

    def reduce(self, p):
        # 1. clear denominators, expand 'poly' atoms (which may again contain denominators)
        for _ in range(12):
            p, neg = self.clear(p)
            p = self.expand_atoms(p, lambda i, e: e > 0 and self.atoms[i]["kind"] == "poly",
                                  lambda i: (1, self.atoms[i]["rel"]))
            # 2. square relations
            p = self.expand_atoms(p, lambda i, e: e >= 2 and self.atoms[i]["kind"] in ("sqrt", "abs", "cos"),
                                  lambda i: (2, self.atoms[i]["rel"]))
            if self.inds:
                p = self.red_ind(p)
            if not any(e < 0 for m in p for _, e in decode(m)) and \
               not any(self.atoms[i]["kind"] == "poly" for m in p for i, _ in decode(m)):
                break
        return p

    def is_zero(self, p):
        if not p:
            return True
        return not self.reduce(p)
