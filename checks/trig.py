"""Elimination of inverse trigonometric functions under proved side conditions.

Every rule is an identity of real analysis; its side conditions are obligations discharged where it is used:
  sqrt(P) = Q                          if P = Q^2 and Q >= 0
  atan2(rho sin a, rho cos a) = a      if rho > 0 and -pi < a <= pi
  arccos(cos a) = a                    if 0 <= a <= pi
  cos atan2(y, x) = x/h, sin = y/h     with h = sqrt(x^2+y^2) > 0
  cos arccos u = u, sin arccos u = sqrt(1-u^2), likewise arcsin    if |u| <= 1
"""
from pyvc.harness import *
from pyvc.nf import NF, TooBig, decode


def sin(a):
    return T.unary("sin", a)


def cos(a):
    return T.unary("cos", a)


def square(a):
    return T.mul(a, a)


class Trig(object):
    """roots: candidates Q for square roots; angles: terms a with the range facts in pc; moduli: candidates rho"""
    def __init__(self, pc, roots=(), angles=(), moduli=()):
        self.pc, self.roots, self.angles, self.moduli = list(pc), list(roots), list(angles), list(moduli)
        self.memo = {}

    def zero(self, t):
        try:
            n = NF(limit=60000, entails=lambda c: S.entails(self.pc, c))
            return bool(n.is_zero(n.poly(t)))
        except (TooBig, ZeroDivisionError, RecursionError):
            return False

    def known(self, c):
        """the condition c follows from the facts: syntactically, by z3, or by z3 after adding the instances sin^2+cos^2=1"""
        if c is T.TRUE or c in self.pc:
            return True
        ax, seen, st = [], set(), [c] + self.pc
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("sin", "cos"):
                ax.append(T.eq(T.add(square(sin(x.args[0])), square(cos(x.args[0]))), 1))
            st.extend(T.children(x))
        return S.check(self.pc + ax + [T.not_(c)], 8000) == "unsat"

    def __call__(self, t):
        t = T.lift(t)
        r = self.memo.get(t)
        if r is None:
            ch = T.children(t)
            if ch and t.op not in ("sum", "forall"):
                n = [self(x) for x in ch]
                if any(p is not q for p, q in zip(ch, n)):
                    t2 = T.rebuild(t, n)
                else:
                    t2 = t
                r = self.rule(t2)
            else:
                r = t
            self.memo[t] = r
        return r

    def root(self, p):
        for q in self.roots:
            if self.zero(T.sub(p, square(q))) and self.known(T.le(0, q)):
                return q
        return T.sqrt(p)

    def rule(self, t):
        op = t.op
        if op == "ite":
            if self.known(t.args[0]):
                return t.args[1]
            if self.known(T.not_(t.args[0])):
                return t.args[2]
        if op in ("lt", "le", "eq") and all(x.sort == "R" for x in t.args):
            n = [self.expanded(x) for x in t.args]
            if all(x.op == "num" for x in n):
                return T.rebuild(t, n)
        if op == "sqrt":
            return self.root(t.args[0])
        if op == "abs":
            if self.known(T.le(0, t.args[0])):
                return t.args[0]
            if self.known(T.le(t.args[0], 0)):
                return T.neg(t.args[0])
        if op == "atan2":
            y, x = t.args
            for a in self.angles:
                for r in self.moduli:
                    if self.zero(T.sub(y, T.mul(r, sin(a)))) and self.zero(T.sub(x, T.mul(r, cos(a)))) and \
                            self.known(T.lt(0, r)) and self.known(T.and_(T.lt(T.neg(T.PI), a), T.le(a, T.PI))):
                        return a
        if op == "acos":
            for a in self.angles:
                if self.zero(T.sub(t.args[0], cos(a))) and self.known(T.and_(T.le(0, a), T.le(a, T.PI))):
                    return a
        if op in ("sin", "cos"):
            u = t.args[0]
            if u.op == "add" or u.op == "mul":
                return self.expand(op, u) or t
            if u.op == "atan2":
                y, x = u.args
                h2 = T.add(square(x), square(y))
                h = self.root(h2)
                h2 = self.expanded(h2)
                if self.known(T.lt(0, h2)) or self.known(T.lt(0, h)):
                    return T.div(y if op == "sin" else x, h)
            if u.op in ("acos", "asin"):
                v = u.args[0]
                if self.known(T.le(square(v), 1)):
                    if (op == "cos") == (u.op == "acos"):
                        return v
                    return self.root(T.sub(1, square(v)))
        return t

    def expanded(self, t):
        try:
            n = NF(limit=60000, entails=lambda c: S.entails(self.pc, c))
            p = n.poly(t)
            if any(e < 0 for m in p for _, e in decode(m)):
                return t
            return n.to_term(n.reduce(p))
        except (TooBig, ZeroDivisionError, RecursionError):
            return t

    def expand(self, op, u):
        return None
