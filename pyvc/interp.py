"""Symbolic interpreter: executes the real source (AST) of /repo on symbolic
inputs and produces, per path, the path condition, outcome and final state.

Loops over ranges/sequences of symbolic length are cut: the body is executed
once, on an arbitrary iteration with all loop-carried state replaced by fresh
symbols; a closed form (invariant) for every loop-carried location is derived
and must satisfy initialisation and preservation, otherwise the loop is
rejected (Unsupported: undecided, never 'proved')."""
import warnings
warnings.simplefilter("ignore")
import ast
import os
import sys
import itertools
from fractions import Fraction
from . import terms as T
from .terms import Term
from .values import *
from . import solver as S
from .nf import NF, TooBig

sys.setrecursionlimit(60000)


class Poison(object):
    def __init__(self, why):
        self.why = why


UNBOUND = Poison("unbound")


class AttrDict(object):
    """obj.__dict__: a live view of the attributes of an object"""
    def __init__(self, o):
        self.o = o

    def attrs(self, I, write=False):
        if write:
            I.heap[self.o.id] = I.heap[self.o.id].copy()
        return I.heap[self.o.id].attrs

    def np_getitem(self, I, k):
        a = self.attrs(I)
        if not isinstance(k, str):
            raise Unsupported("symbolic attribute name")
        if k not in a:
            raise PyExc(I.builtins["KeyError"], (k,))
        return I._getattr(self.o, k)

    def np_setitem(self, I, k, v):
        if not isinstance(k, str):
            raise Unsupported("symbolic attribute name")
        self.attrs(I, True)[k] = v

    def np_contains(self, I, k):
        return k in self.attrs(I)

    def np_parts(self, I):
        return tuple(("one", k) for k in self.attrs(I) if k != "__list__")

    def np_getattr(self, I, name):
        def get(k, d=None):
            return self.np_getitem(I, k) if k in self.attrs(I) else d

        def pop(k, *d):
            if k not in self.attrs(I):
                if d:
                    return d[0]
                raise PyExc(I.builtins["KeyError"], (k,))
            v = self.np_getitem(I, k)
            del self.attrs(I, True)[k]
            return v

        def update(*a, **kw):
            for x in a:
                if not isinstance(x, Dict):
                    raise Unsupported("__dict__.update")
                for k, v in I.rec(x).items.items():
                    self.np_setitem(I, k, v)
            for k, v in kw.items():
                self.np_setitem(I, k, v)

        def items():
            return I.alloc(ListRec(tuple(("one", (k, v)) for k, v in self.attrs(I).items() if k != "__list__")), List)
        m = {"get": get, "pop": pop, "update": update, "items": items, "keys": lambda: self}
        if name not in m:
            raise Unsupported("__dict__.%s" % name)
        return Builtin(name, m[name])

MAXPATHS = 600


class Frame(object):
    __slots__ = ("env", "func", "hook", "globals", "module", "cls")

    def __init__(self, env, func, module, hook=None):
        self.env, self.func, self.module, self.hook = env, func, module, hook


def fold_str(parts):
    return "".join(parts)


from .arrays import ArrayOps


def roots(t):
    """t contains a square root"""
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "sqrt":
            return True
        todo += T.children(u)
    return False


class Interp(ArrayOps):
    def __init__(self, repo="/repo", overrides=None):
        self.repo = repo
        self.heap = {}
        self.nid = itertools.count(1)
        self.pc = []
        self.trail = []
        self.pos = 0
        self.modules = {}
        self.contracts = {}
        self.external = set()      # library functions used by contract
        self.by_contract = set()   # functions of /repo replaced by their contract at call sites
        self.executed = {}
        self.loops = []            # invariants established (for evidence)
        self.assumed = set()       # assumptions on externals actually used
        self.overrides = overrides or {}
        self.recdefs = {}
        self.obligations_inner = 0
        self.while_hooks = {}
        self.recs = {}
        self.iter_hook = None
        self.inline_depth = 0
        self.events = []           # trace of modelled external calls
        self.literals = set()
        PCKEY[0] = lambda: tuple([t.id for t in self.pc])
        self.npclasses = {}
        self.extmods = {}
        self.loopstack = []
        self.modpatch = {}
        self.overrides_ext = {}
        from . import builtins_model
        self.builtins = builtins_model.make(self)

    # ------------------------------------------------------------- heap
    def alloc(self, rec, cls=None):
        i = next(self.nid)
        self.heap[i] = rec
        return cls(i) if cls else i

    def rec(self, ref):
        return self.heap[ref.id]

    def snapshot(self):
        return {i: r.copy() for i, r in self.heap.items()}

    def restore(self, snap):
        self.heap = {i: r.copy() for i, r in snap.items()}

    # ------------------------------------------------------------- paths
    presimp = None      # rewriting of branch conditions by proved identities

    def entails(self, c):
        return S.entails(self.pc, c)

    def vanish(self, c):
        """the comparison c with the arguments of its absolute values that are identically zero (up to the algebra of roots and
        quotients) replaced by zero"""
        todo, reps = [c], {}
        while todo:
            t = todo.pop()
            if t.op == "abs" and roots(t):
                try:
                    n = NF(limit=20000, entails=self.entails)
                    if n.is_zero(n.poly(t.args[0])):
                        reps[t] = T.num(0, "R")
                        continue
                except (TooBig, ZeroDivisionError, RecursionError):
                    pass
            todo += T.children(t)
        return T.subst(c, reps) if reps else c

    def assume(self, c):
        c = T.lift(c)
        if c is T.TRUE:
            return
        if c is T.FALSE:
            raise Infeasible()
        self.pc.append(c)

    def decide(self, cond):
        if cond is T.TRUE or cond is True:
            return True
        if cond is T.FALSE or cond is False:
            return False
        if self.presimp is not None:
            cond = T.lift(self.presimp(cond))
            if cond is T.TRUE or cond is T.FALSE:
                return cond is T.TRUE
        if self.pos < len(self.trail):
            ch = self.trail[self.pos][0]
            self.pos += 1
        else:
            if self.entails(cond):
                ch, done = True, True
            elif self.entails(T.not_(cond)):
                ch, done = False, True
            else:
                c2 = self.vanish(cond)
                if c2 is T.TRUE or c2 is T.FALSE:
                    ch, done = c2 is T.TRUE, True
                else:
                    ch, done = True, False
            self.trail.append((ch, done))
            self.pos += 1
        self.pc.append(cond if ch else T.not_(cond))
        return ch

    def explore(self, thunk, assume=()):
        """all paths of thunk from the current state: [(cond, outcome, snapshot)]; state restored"""
        outer = (self.trail, self.pos, self.pc)
        snap = self.snapshot()
        trail = []
        res = []
        base_pc = list(self.pc) + [a for a in assume if a is not T.TRUE]
        n = 0
        try:
            while True:
                n += 1
                if n > MAXPATHS:
                    raise Unsupported("too many paths")
                self.restore(snap)
                self.trail, self.pos, self.pc = trail, 0, list(base_pc)
                b = len(base_pc)
                try:
                    try:
                        out = ("next", thunk())
                    except ContinueSig:
                        out = ("next", None)
                    except BreakSig:
                        out = ("break", None)
                    except ReturnSig as e:
                        out = ("return", e.v)
                    except PyExc as e:
                        out = ("raise", e)
                    res.append((self.pc[b:], out, self.heap))
                except Infeasible:
                    pass
                while trail and trail[-1][1]:
                    trail.pop()
                if not trail:
                    break
                trail[-1] = (not trail[-1][0], True)
        finally:
            self.trail, self.pos, self.pc = outer
            self.restore(snap)
        return res

    def truth(self, v):
        return self.decide(self.cond(v))

    def cond(self, v):
        """boolean term (or python bool lifted) for the truth value of v"""
        if isinstance(v, bool):
            return T.TRUE if v else T.FALSE
        if v is None:
            return T.FALSE
        if isinstance(v, int):
            return T.TRUE if v else T.FALSE
        if isinstance(v, str):
            return T.TRUE if v else T.FALSE
        if isinstance(v, Term):
            if v.sort == "B":
                return v
            if v.sort == "S":
                if v.op == "none":
                    return T.FALSE
                if v.op == "str":
                    return T.TRUE if v.args[0] else T.FALSE
                return T.not_(T.eq(v, T.lift("")))
            return T.not_(T.eq(v, T.num(0)))
        if isinstance(v, tuple):
            return T.TRUE if v else T.FALSE
        if isinstance(v, (List, Seq)):
            ps = self.parts(v)
            if any(p[0] == "comp" and p[2](T.var("_any", "I")) is not T.TRUE for p in ps):
                c = self.none_of(ps)
                if c is not None:
                    return T.not_(c)
            return T.lt(T.num(0), T.lift(self.length(v)))
        if isinstance(v, Dict):
            r = self.rec(v)
            if r.sym is None:
                return T.TRUE if r.items else T.FALSE
        if isinstance(v, Set):
            return T.TRUE if self.rec(v).items else T.FALSE
        if isinstance(v, Obj):
            r = self.rec(v)
            if "__list__" in r.attrs:
                return self.cond(r.attrs["__list__"])
            m = r.cls.lookup("__bool__") or r.cls.lookup("__len__")
            if m:
                return self.cond(self.call(Bound(m, v), [], {}))
            return T.TRUE
        if hasattr(v, "np_cond"):
            return v.np_cond(self)
        if isinstance(v, Cx):
            return T.not_(T.and_(T.eq(v.re, 0), T.eq(v.im, 0)))
        if isinstance(v, Arr):
            size = 1
            for s in v.shape:
                size = self.binop("*", size, s)
            if size == 1:
                return self.cond(self.elem(v, (0,) * v.ndim))
            if isinstance(size, int):
                raise PyExc(self.builtins["ValueError"], ("truth value of an array is ambiguous",))
            raise Unsupported("truth of an array of symbolic size")
        if isinstance(v, (Func, Bound, Builtin, ClassVal, BuiltinClass, SymObj, Module)):
            return T.TRUE
        raise Unsupported("truth of %r" % (v,))

    # ------------------------------------------------------------- modules
    def load(self, modname):
        """load a module of /repo by dotted name"""
        if modname in self.modules:
            return self.modules[modname]
        path = os.path.join(self.repo, *modname.split("."))
        if modname in self.overrides:
            src, path = self.overrides[modname]
            tree = src if isinstance(src, ast.AST) else ast.parse(src)
        else:
            if os.path.isdir(path):
                path = os.path.join(path, "__init__.py")
            else:
                path += ".py"
            if not os.path.exists(path):
                raise PyExc(self.builtins["ImportError"], (modname,))
            with open(path, encoding="utf8") as f:
                tree = ast.parse(f.read(), path)
        m = Module(modname)
        self.modules[modname] = m
        env = self.alloc(EnvRec())
        m.env = env
        m.path = path
        m.tree = tree
        self.heap[env].vars["__name__"] = modname
        self.heap[env].vars["__file__"] = path
        fr = Frame(env, None, m)
        if modname != "electrode" or True:
            self.exec_block(tree.body, fr)
        return m

    def modget(self, m, name):
        if hasattr(m, "env"):
            v = self.heap[m.env].vars.get(name)
            if v is None and name not in self.heap[m.env].vars:
                raise PyExc(self.builtins["AttributeError"], (name,))
            return v
        if name in m.attrs:
            return m.attrs[name]
        return Ext(m.name + "." + name)

    def import_(self, name, frame):
        from . import npmodel
        ext = npmodel.external_module(self, name)
        if ext is not None:
            return ext
        if name.split(".")[0] == "electrode":
            return self.load(name)
        return Module(name)

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            try:
                m = self.import_(a.name, fr)
            except PyExc:
                raise
            if a.asname:
                self.setvar(fr, a.asname, m)
            else:
                top = a.name.split(".")[0]
                if "." in a.name and not (top == "electrode"):
                    cur = self.heap[fr.env].vars.get(top)
                    m0 = cur if isinstance(cur, Module) else self.import_(top, fr)
                    sub = m0
                    parts = a.name.split(".")[1:]
                    for p in parts[:-1]:
                        sub = sub.attrs.setdefault(p, Module(top + "." + p))
                    if hasattr(sub, "attrs"):
                        sub.attrs[parts[-1]] = m
                    self.setvar(fr, top, m0)
                else:
                    self.setvar(fr, top, self.import_(top, fr))

    def s_ImportFrom(self, s, fr):
        mod = s.module or ""
        if s.level:
            base = fr.module.name.split(".")
            ispkg = fr.module.path.endswith("__init__.py") if hasattr(fr.module, "path") else False
            drop = s.level - (1 if ispkg else 0)
            base = base[:len(base) - drop] if drop else base
            full = ".".join(base + ([mod] if mod else []))
        else:
            full = mod
        if full == "__future__":
            return
        if full == "electrode" and fr.module.name != "electrode" and "electrode" not in self.modules:
            # 'from . import x' : import submodules only
            for a in s.names:
                try:
                    self.setvar(fr, a.asname or a.name, self.load("electrode." + a.name))
                except PyExc:
                    m = self.import_(full, fr)
                    self.setvar(fr, a.asname or a.name, self.modget(m, a.name))
            return
        m = self.import_(full, fr)
        for a in s.names:
            if a.name == "*":
                if hasattr(m, "env"):
                    for k, v in list(self.heap[m.env].vars.items()):
                        if not k.startswith("_"):
                            self.setvar(fr, k, v)
                continue
            if hasattr(m, "env") and a.name not in self.heap[m.env].vars:
                try:
                    v = self.load(full + "." + a.name)
                except PyExc:
                    raise PyExc(self.builtins["ImportError"], (a.name,))
            else:
                v = self.modget(m, a.name)
            self.setvar(fr, a.asname or a.name, v)

    def s_FunctionDef(self, s, fr):
        self.setvar(fr, s.name, self.mkfunc(s, fr))

    def mkfunc(self, s, fr, name=None):
        a = s.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [None if d is None else (self.ev(d, fr),) for d in a.kw_defaults]
        isgen = False
        if not isinstance(s, ast.Lambda):
            isgen = _has_yield(s)
        nm = name or getattr(s, "name", "<lambda>")
        cls = getattr(fr, "cls", None)
        qual = "%s:%s%s" % (fr.module.name, (cls + ".") if cls else (fr.func.qual.split(":")[1] + ".<locals>." if fr.func else ""), nm)
        f = Func(nm, s, fr.env, fr.module, defaults, kwd, qual, None, isgen)
        v = f
        if not isinstance(s, ast.Lambda):
            for d in reversed(s.decorator_list):
                # @x.setter handled here
                if isinstance(d, ast.Attribute) and d.attr == "setter":
                    old = self.ev(d.value, fr)
                    v = Prop(old.fget, v)
                    continue
                dec = self.ev(d, fr)
                v = self.decorate(dec, v)
        return v

    def decorate(self, dec, v):
        if isinstance(dec, (Builtin, BuiltinClass)):
            if dec.name == "property":
                return Prop(v)
            if dec.name == "classmethod":
                return ClassMethod(v)
            if dec.name == "staticmethod":
                return StaticMethod(v)
            if dec.name == "contextmanager":
                return CtxFactory(v)
        if isinstance(dec, Ext):
            if dec.name.split(".")[-1] in ("contextmanager",):
                return CtxFactory(v)
            return v
        return self.call(dec, [v], {})

    def s_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.ev(b, fr)
            if isinstance(v, Ext):
                v = BuiltinClass(v.name)
            bases.append(v)
        env = self.alloc(EnvRec({}, fr.env))
        f2 = Frame(env, None, fr.module)
        f2.cls = s.name
        for st in s.body:
            self.exec_stmt(st, f2)
        attrs = dict(self.heap[env].vars)
        c = ClassVal(s.name, bases, attrs, "%s:%s" % (fr.module.name, s.name))
        # methods must not see class scope
        for v in attrs.values():
            for g in _funcs_of(v):
                if g.env == env:
                    g.env = fr.env
                    g.cls = c
        self.setvar(fr, s.name, c)

    def s_Return(self, s, fr):
        raise ReturnSig(self.ev(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise BreakSig()

    def s_Continue(self, s, fr):
        raise ContinueSig()

    def s_Global(self, s, fr):
        pass

    def s_Nonlocal(self, s, fr):
        for n in s.names:
            self.heap[fr.env].vars.setdefault("__nonlocal__", set())
            self.heap[fr.env].vars["__nonlocal__"] = set(self.heap[fr.env].vars["__nonlocal__"]) | {n}

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.heap[fr.env].vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Obj):
                    if t.attr not in self.rec(o).attrs:
                        raise PyExc(self.builtins["AttributeError"], (t.attr,))
                    del self.rec(o).attrs[t.attr]
                else:
                    raise Unsupported("del attribute")
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                if isinstance(o, Dict) and self.rec(o).sym is None:
                    if self.dkey(k) not in self.rec(o).items:
                        raise PyExc(self.builtins["KeyError"], (k,))
                    del self.rec(o).items[self.dkey(k)]
                elif isinstance(o, List) and isinstance(k, int):
                    vals = self.concrete_list(o)
                    del vals[k]
                    self.heap[o.id] = ListRec([("one", v) for v in vals])
                else:
                    raise Unsupported("del subscript")

    def s_Assert(self, s, fr):
        v = self.ev(s.test, fr)
        if not self.truth(v):
            raise PyExc(self.builtins["AssertionError"], ())

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        v = self.ev(s.exc, fr)
        if isinstance(v, (BuiltinClass, ClassVal)):
            raise PyExc(v, ())
        if isinstance(v, PyExc):
            raise v
        if isinstance(v, Obj):
            raise PyExc(self.rec(v).cls, (v,))
        raise Unsupported("raise %r" % (v,))

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def s_While(self, s, fr):
        key = (fr.func.qual if fr.func else None)
        hook = self.while_hooks.get(key)
        if hook is not None:
            return hook(self, s, fr)
        n = 0
        while True:
            c = self.cond(self.ev(s.test, fr))
            if c not in (T.TRUE, T.FALSE):
                if self.entails(c):
                    c = T.TRUE
                elif self.entails(T.not_(c)):
                    c = T.FALSE
                else:
                    raise Unsupported("while loop with a symbolic condition in %s" % key)
            if c is T.FALSE:
                self.exec_block(s.orelse, fr)
                return
            try:
                self.exec_block(s.body, fr)
            except ContinueSig:
                pass
            except BreakSig:
                return
            n += 1
            if n > 2000:
                raise Unsupported("while loop too long")

    def s_For(self, s, fr):
        it = self.hooked(self.ev(s.iter, fr))
        if hasattr(it, "for_hook"):
            if it.for_hook(self, s, fr):
                self.exec_block(s.orelse, fr)
            return

        def cb(v):
            self.assign(s.target, v, fr)
            self.exec_block(s.body, fr)
        try:
            self.iterate(it, cb, where="%s:%d" % (fr.func.qual if fr.func else fr.module.name, s.lineno))
        except BreakSig:
            return
        self.exec_block(s.orelse, fr)

    def s_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e, self.ev(h.type, fr)):
                        if h.name:
                            self.setvar(fr, h.name, e)
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = e
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (Unsupported, Infeasible):
            raise
        except (PyExc, ReturnSig, BreakSig, ContinueSig, _Carrier):
            self.exec_block(s.finalbody, fr)
            raise
        else:
            self.exec_block(s.finalbody, fr)

    def exc_match(self, e, c):
        if isinstance(c, tuple):
            return any(self.exc_match(e, x) for x in c)
        cls = e.cls
        return c in getattr(cls, "mro", [cls])

    def s_With(self, s, fr):
        items = list(s.items)

        def go(k):
            if k == len(items):
                self.exec_block(s.body, fr)
                return
            it = items[k]
            cm = self.ev(it.context_expr, fr)
            self.with_cm(cm, lambda v: (self.assign(it.optional_vars, v, fr) if it.optional_vars is not None else None, go(k + 1)))
        go(0)

    def with_cm(self, cm, body):
        if isinstance(cm, Gen):
            state = {"n": 0}

            def hook(v):
                state["n"] += 1
                if state["n"] > 1:
                    raise PyExc(self.builtins["RuntimeError"], ("generator didn't stop",))
                try:
                    body(v)
                except (ReturnSig, BreakSig, ContinueSig) as e:
                    state["sig"] = e
            cm.run(hook)
            if "sig" in state:
                raise state["sig"]
            if state["n"] == 0:
                raise PyExc(self.builtins["RuntimeError"], ("generator didn't yield",))
            return
        if isinstance(cm, Obj) and self.rec(cm).cls.lookup("__enter__"):
            c = self.rec(cm).cls
            v = self.call(Bound(c.lookup("__enter__"), cm), [], {})
            ex = c.lookup("__exit__")
            try:
                body(v)
            except PyExc as e:
                if self.truth(self.call(Bound(ex, cm), [e.cls, e, None], {})):
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(Bound(ex, cm), [None, None, None], {})
                raise
            self.call(Bound(ex, cm), [None, None, None], {})
            return
        if cm is None or isinstance(cm, (Ext, tuple)):
            body(None)      # np.errstate and similar: no effect on values
            return
        raise Unsupported("with %r" % (cm,))

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getvar(fr, t.id)
            v = self.ev(s.value, fr)
            self.setvar(fr, t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value, fr)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.ev(s.value, fr)
            self.setitem(o, k, self.inplace(op, cur, v))
        else:
            raise Unsupported("augmented target")

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            if op == "@":
                return r
            if not isinstance(r, Arr) or r.ndim != cur.ndim:
                raise PyExc(self.builtins["ValueError"], ("non-broadcastable output operand",))
            if "BIRC".find(r.dtype) > "BIRC".find(cur.dtype) >= 0 and not (cur.dtype == "B" and r.dtype == "B"):
                raise PyExc(self.builtins["TypeError"], ("cannot cast the result of the in-place operation",))
            self.arr_assign(cur, r)
            return cur
        if isinstance(cur, List) and op == "+":
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, Obj):
            r = self.rec(cur)
            m = r.cls.lookup({"+": "__iadd__", "*": "__imul__", "-": "__isub__"}.get(op, "?"))
            if m:
                return self.call(Bound(m, cur), [v], {})
            if "__list__" in r.attrs and op == "+":
                self.list_extend(r.attrs["__list__"], v)
                return cur
        return self.binop(op, cur, v)

    # ------------------------------------------------------------- names
    def setvar(self, fr, name, v):
        r = self.heap[fr.env]
        nl = r.vars.get("__nonlocal__")
        if nl and name in nl:
            e = r.parent
            while e is not None:
                if name in self.heap[e].vars:
                    self.heap[e].vars[name] = v
                    return
                e = self.heap[e].parent
        r.vars[name] = v

    def getvar(self, fr, name):
        e = fr.env
        while e is not None:
            r = self.heap[e]
            if name in r.vars:
                v = r.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported("use of %s: %s" % (name, v.why))
                return v
            e = r.parent
        if name in self.builtins:
            return self.builtins[name]
        raise PyExc(self.builtins["NameError"], (name,))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star=None):
        vals = self.concrete_list(v, n if not (star and any(star)) else None)
        if star and any(star):
            k = star.index(True)
            m = len(vals) - (n - 1)
            if m < 0:
                raise PyExc(self.builtins["ValueError"], ("unpack",))
            return vals[:k] + [self.newlist(vals[k:k + m])] + vals[k + m:]
        if len(vals) != n:
            raise PyExc(self.builtins["ValueError"], ("unpack %d != %d" % (len(vals), n),))
        return vals

    # ------------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, (bool, int, str)) or v is None:
            if isinstance(v, int) and not isinstance(v, bool):
                self.literals.add(v)
            return v
        if isinstance(v, float):
            self.literals.add(v)
            if v == float("inf"):
                return T.INF
            return T.num(Fraction(repr(v)), "R")
        if isinstance(v, complex):
            return Cx(T.num(Fraction(repr(v.real)), "R"), T.num(Fraction(repr(v.imag)), "R"))
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, bytes):
            return v
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, e, fr):
        return self.getvar(fr, e.id)

    def e_Tuple(self, e, fr):
        return tuple(self.ev_starred(e.elts, fr))

    def ev_starred(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_list(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    parts.extend(self.parts(self.ev(x.value, fr)))
                else:
                    parts.append(("one", self.ev(x, fr)))
            return self.alloc(ListRec(parts), List)
        return self.newlist([self.ev(x, fr) for x in e.elts])

    def newlist(self, vals):
        return self.alloc(ListRec([("one", v) for v in vals]), List)

    def e_Set(self, e, fr):
        return self.alloc(SetRec([self.ev(x, fr) for x in e.elts]), Set)

    def e_Dict(self, e, fr):
        d = self.alloc(DictRec(), Dict)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                self.rec(d).items.update(self.rec(o).items)
            else:
                self.setitem(d, self.ev(k, fr), self.ev(v, fr))
        return d

    def dkey(self, k):
        """hashable dictionary key"""
        if isinstance(k, Term) and k.op == "num":
            return int(k.args[0]) if k.args[0].denominator == 1 else k.args[0]
        if isinstance(k, Term) and k.op == "str":
            return k.args[0]
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        if isinstance(k, Term):
            raise Unsupported("symbolic dictionary key")
        return k

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(OPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        return self.unop(type(e.op), v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, fr)
            if k == len(e.values) - 1:
                return v
            c = self.cond(v)
            if c is T.TRUE:
                if not isand:
                    return v
                continue
            if c is T.FALSE:
                if isand:
                    return v
                continue
            # symbolic: combine purely when everything is boolean
            if isinstance(v, Term) and v.sort == "B":
                rest = e.values[k + 1:]
                if all(_pure(r) for r in rest):
                    try:
                        w = self.e_BoolOp(ast.BoolOp(op=e.op, values=list(rest)), fr) if len(rest) > 1 else self.ev(rest[0], fr)
                        if isinstance(w, bool) or isinstance(w, Term) and w.sort == "B":
                            return T.and_(v, w) if isand else T.or_(v, w)
                    except PyExc:
                        pass
            if self.decide(c) != isand:
                return v
        return v

    def e_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, fr)
            c = self.compare(type(op), a, b)
            if res is None:
                res = c
            else:
                if isinstance(res, bool) and isinstance(c, bool):
                    res = res and c
                elif isinstance(res, Arr) or isinstance(c, Arr):
                    raise PyExc(self.builtins["ValueError"], ("ambiguous",))
                else:
                    res = T.and_(T.lift(res), T.lift(c))
            if res is False:
                return False
            a = b
        if isinstance(res, Term) and res in (T.TRUE, T.FALSE):
            return res is T.TRUE
        return res

    def e_IfExp(self, e, fr):
        c = self.cond(self.ev(e.test, fr))
        if c is T.TRUE:
            return self.ev(e.body, fr)
        if c is T.FALSE:
            return self.ev(e.orelse, fr)
        if self.decide(c):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def ev_index(self, e, fr):
        if isinstance(e, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, fr)
            return SliceV(g(e.lower), g(e.upper), g(e.step))
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in e.elts)
        return self.ev(e, fr)

    def e_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, (str, int)):
                    out.append(str(x))
                else:
                    return T.fresh("str", "S")
        return "".join(out)

    def hooked(self, it):
        if isinstance(it, Obj) and hasattr(self.rec(it).attrs.get("__list__"), "for_hook"):
            it = self.rec(it).attrs["__list__"]
        return it

    def e_ListComp(self, e, fr):
        if len(e.generators) == 1:
            it = self.hooked(self.ev(e.generators[0].iter, fr))
            if hasattr(it, "comp_hook"):
                return it.comp_hook(self, e, fr)
            acc = self.newlist([])
            self.comp(e, fr, lambda v: self.list_append(acc, v), first=it)
            return acc
        acc = self.newlist([])
        self.comp(e, fr, lambda v: self.list_append(acc, v))
        return acc

    def e_SetComp(self, e, fr):
        acc = []
        self.comp(e, fr, lambda v: acc.append(v))
        return self.alloc(SetRec(acc), Set)

    def e_DictComp(self, e, fr):
        d = self.alloc(DictRec(), Dict)
        e2 = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        ast.copy_location(e2, e)
        self.comp(e2, fr, lambda kv: self.setitem(d, kv[0], kv[1]))
        return d

    def e_GeneratorExp(self, e, fr):
        # the first iterable is evaluated immediately
        first = self.ev(e.generators[0].iter, fr)
        h = self.hooked(first)
        if len(e.generators) == 1 and hasattr(h, "comp_hook"):
            return h.comp_hook(self, e, fr)
        return Gen(lambda hook: self.comp(e, fr, hook, first=first))

    def comp(self, e, fr, emit, first=None):
        env = self.alloc(EnvRec({}, fr.env))
        f2 = Frame(env, fr.func, fr.module, fr.hook)

        def level(k):
            if k == len(e.generators):
                emit(self.ev(e.elt, f2))
                return
            g = e.generators[k]
            it = first if (k == 0 and first is not None) else self.ev(g.iter, f2)

            def cb(v):
                self.assign(g.target, v, f2)
                for c in g.ifs:
                    if not self.truth(self.ev(c, f2)):
                        return
                level(k + 1)
            self.iterate(it, cb, where="comprehension %s:%d" % (fr.func.qual if fr.func else fr.module.name, getattr(e, "lineno", 0)))
        level(0)

    def e_Yield(self, e, fr):
        if fr.hook is None:
            raise Unsupported("yield outside generator run")
        v = self.ev(e.value, fr) if e.value is not None else None
        return fr.hook(v)

    def e_YieldFrom(self, e, fr):
        self.iterate(self.ev(e.value, fr), fr.hook)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.mksuper(e, fr)
        f = self.ev(e.func, fr)
        if isinstance(f, Builtin) and f.name == "zip" and len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and not e.keywords:
            return self.unzip(self.ev(e.args[0].value, fr))
        args = self.ev_starred(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, Dict):
                    kw.update(self.rec(d).items)
                else:
                    raise Unsupported("** of %r" % (d,))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if isinstance(f, Builtin) and f.name in ("eval", "locals", "globals", "vars"):
            return f.f(fr, args, kw)
        return self.call(f, args, kw)

    def unzip(self, v):
        """zip(*v) of a sequence of symbolic length whose entries are tuples"""
        ps = self.parts(v)
        z = self.builtins["zip"]
        if all(p[0] == "one" or p[0] == "comp" and self.const_int(p[1]) is not None for p in ps):
            return self.call(z, self.concrete_list(v))
        n = T.lift(self.length(v))
        if self.decide(T.eq(n, 0)):
            return self.call(z, [])
        from .flat import probe
        w = probe(self, ps)
        if not isinstance(w, tuple):
            raise Unsupported("zip(*v) of %r" % (w,))

        def comp(ps, j):
            out = []
            for p in ps:
                if p[0] == "one":
                    if not isinstance(p[1], tuple) or len(p[1]) != len(w):
                        raise Unsupported("zip(*v) of tuples of different length")
                    out.append(("one", p[1][j]))
                elif p[0] == "comp":
                    out.append(("comp", p[1], p[2], lambda i, p=p: comp(p[3](i), j)))
                else:
                    raise Unsupported("loop-carried list")
            return tuple(out)
        return Seq([("one", Seq(comp(ps, j))) for j in range(len(w))])

    def mksuper(self, e, fr):
        if e.args:
            c = self.ev(e.args[0], fr)
            o = self.ev(e.args[1], fr)
        else:
            c = fr.func.cls
            node = fr.func.node
            o = self.getvar(fr, node.args.args[0].arg)
        return ("__super__", c, o)

    # ------------------------------------------------------------- calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            c = self.contracts.get(f.qual)
            if c is not None:
                self.by_contract.add(f.qual)
                return c(self, f, list(args), kw)
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            if "." in f.name:
                self.external.add(f.name)
            return f.f(*args, **kw)
        if isinstance(f, BuiltinClass):
            if f.f is None:
                raise Unsupported("call of %s" % f.name)
            return f.f(*args, **kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, CtxFactory):
            return self.call(f.f, args, kw)
        if isinstance(f, (ClassMethod, StaticMethod)):
            return self.call(f.f, args, kw)
        if isinstance(f, Obj):
            m = self.rec(f).cls.lookup("__call__")
            if m:
                return self.call(Bound(m, f), args, kw)
        if isinstance(f, Ext):
            raise Unsupported("call of unmodelled external %s" % f.name)
        if callable(f) and not isinstance(f, Term):
            return f(*args, **kw)
        raise PyExc(self.builtins["TypeError"], ("not callable",))

    def instantiate(self, c, args, kw):
        k = self.contracts.get(c.qual)
        if k is not None:
            self.by_contract.add(c.qual)
            return k(self, c, list(args), kw)
        attrs = {}
        bb = [b.name for b in c.builtin_bases()]
        if any(b in ("Exception", "BaseException", "ValueError", "RuntimeError") for b in bb):
            return PyExc(c, tuple(args))
        o = self.alloc(ObjRec(c, attrs), Obj)
        if "list" in bb:
            attrs["__list__"] = self.newlist([])
        init = c.lookup("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif "list" in bb:
            if args:
                self.list_extend(attrs["__list__"], args[0])
        elif args or kw:
            raise PyExc(self.builtins["TypeError"], ("no arguments expected",))
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        n = len(names)
        TE = self.builtins["TypeError"]
        for nm, v in zip(names, args):
            env[nm] = v
        if len(args) > n:
            if a.vararg is None:
                raise PyExc(TE, ("%s: too many arguments" % f.name,))
            env[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in env:
                    raise PyExc(TE, ("%s: multiple values for %s" % (f.name, k),))
                env[k] = v
            else:
                rest[k] = v
        if rest and a.kwarg is None:
            raise PyExc(TE, ("%s: unexpected keyword %s" % (f.name, sorted(rest)),))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(DictRec(rest), Dict)
        nd = len(f.defaults)
        for nm, d in zip(names[n - nd:], f.defaults):
            if nm not in env:
                env[nm] = d
        for x, d in zip(kwonly, f.kwdefaults):
            if x not in env and d is not None:
                env[x] = d[0]
        for nm in names + kwonly:
            if nm not in env:
                raise PyExc(TE, ("%s: missing argument %s" % (f.name, nm),))
        return env

    def call_func(self, f, args, kw):
        env = self.bind_args(f, args, kw)
        self.executed[f.qual] = self.executed.get(f.qual, 0) + 1
        if f.isgen:
            eid = self.alloc(EnvRec(env, f.env))

            def run(hook):
                fr = Frame(eid, f, f.module, hook)
                try:
                    self.exec_block(f.node.body, fr)
                except ReturnSig:
                    pass
            return Gen(_shield(run))
        eid = self.alloc(EnvRec(env, f.env))
        fr = Frame(eid, f, f.module)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, fr)
        try:
            self.exec_block(f.node.body, fr)
        except ReturnSig as r:
            return r.v
        return None

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name, default=UNBOUND):
        try:
            return self._getattr(o, name)
        except PyExc as e:
            if default is not UNBOUND and e.cls is self.builtins["AttributeError"]:
                return default
            raise

    def _getattr(self, o, name):
        AE = self.builtins["AttributeError"]
        if isinstance(o, Module):
            return self.modget(o, name)
        if isinstance(o, Ext):
            return Ext(o.name + "." + name)
        if isinstance(o, tuple) and len(o) == 3 and o[0] == "__super__":
            return self.super_attr(o[1], o[2], name)
        if isinstance(o, Obj):
            r = self.rec(o)
            if name == "__class__":
                return r.cls
            if name == "__dict__":
                return AttrDict(o)
            v = r.cls.lookup(name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            if name in r.attrs:
                x = r.attrs[name]
                if isinstance(x, Poison):
                    raise Unsupported("use of attribute %s: %s" % (name, x.why))
                return x
            if v is not None:
                return self.bind(v, o, r.cls)
            if "__list__" in r.attrs:
                from . import builtins_model
                return builtins_model.list_method(self, r.attrs["__list__"], name)
            raise PyExc(AE, (name,))
        if isinstance(o, SymObj):
            rec = self.heap[o.fam]
            if rec.cls is not None:
                v = rec.cls.lookup(name)
                if isinstance(v, Prop):
                    return self.call(v.fget, [o], {})
                if v is not None and name not in rec.fields and not isinstance(v, (str, int)):
                    return self.bind(v, o, rec.cls)
            if name in rec.fields:
                return rec.fields[name](T.lift(o.idx))
            if name in rec.methods:
                m = rec.methods[name]
                return Builtin(name, lambda *a, **k: m(self, o, *a, **k))
            raise PyExc(AE, (name,))
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            v = o.lookup(name)
            if v is None:
                raise PyExc(AE, (name,))
            if isinstance(v, ClassMethod):
                return Bound(v.f, o)
            if isinstance(v, StaticMethod):
                return v.f
            return v
        if isinstance(o, PyExc):
            if name == "args":
                return tuple(o.pargs)
            return T.fresh("excattr", "S")
        if isinstance(o, Func):
            if name in ("__name__",):
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            raise PyExc(AE, (name,))
        from . import builtins_model
        return builtins_model.attr(self, o, name)

    def bind(self, v, o, cls):
        if isinstance(v, (Func, Builtin)):
            return Bound(v, o)
        if isinstance(v, CtxFactory):
            return Bound(v.f, o)
        if isinstance(v, ClassMethod):
            return Bound(v.f, cls)
        if isinstance(v, StaticMethod):
            return v.f
        return v

    def super_attr(self, c, o, name):
        if isinstance(o, Obj):
            cls = self.rec(o).cls
        elif isinstance(o, ClassVal):
            cls = o
        else:
            raise Unsupported("super of %r" % (o,))
        mro = cls.mro
        k = mro.index(c)
        for b in mro[k + 1:]:
            if isinstance(b, ClassVal):
                if name in b.attrs:
                    return self.bind(b.attrs[name], o, cls)
            else:
                if name == "__init__":
                    if b.name == "list":
                        def init(it=None, o=o):
                            if it is not None:
                                self.list_extend(self.rec(o).attrs["__list__"], it)
                        return Builtin("list.__init__", init)
                    return Builtin("__init__", lambda *a, **k: None)
                if b.name == "list":
                    from . import builtins_model
                    return builtins_model.list_method(self, self.rec(o).attrs["__list__"], name)
        if name == "__init__":
            return Builtin("__init__", lambda *a, **k: None)
        raise PyExc(self.builtins["AttributeError"], (name,))

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            r = self.rec(o)
            p = r.cls.lookup(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    raise PyExc(self.builtins["AttributeError"], (name,))
                self.call(p.fset, [o, v], {})
                return
            r.attrs[name] = v
            return
        if isinstance(o, SymObj):
            rec = self.heap[o.fam]
            old = rec.fields.get(name)
            idx = T.lift(o.idx)
            if old is None:
                raise Unsupported("new attribute %s on symbolic object" % name)
            if isinstance(v, (tuple, List, Dict, Obj, Arr)):
                raise Unsupported("store of a container in a symbolic object field")
            vv = v if isinstance(v, Cx) else T.lift(v)
            rec.fields[name] = lambda i, old=old, idx=idx, vv=vv: self.vite(T.eq(i, idx), vv, old(i))
            return
        if isinstance(o, Arr):
            if name == "shape":
                raise Unsupported("shape assignment")
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, ClassVal):
            o.attrs[name] = v
            return
        if isinstance(o, Module):
            if hasattr(o, "env"):
                self.heap[o.env].vars[name] = v
            else:
                o.attrs[name] = v
            return
        if isinstance(o, Ext):
            return
        raise PyExc(self.builtins["AttributeError"], (name,))

    # ------------------------------------------------------------- sequences
    def parts(self, v):
        """the parts of an iterable value"""
        if isinstance(v, Seq):
            return v.parts
        if isinstance(v, List):
            return self.rec(v).parts
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "__super__":
                raise Unsupported("iteration over super")
            return tuple(("one", x) for x in v)
        if isinstance(v, str):
            return tuple(("one", c) for c in v)
        if isinstance(v, Set):
            return tuple(("one", x) for x in self.rec(v).items)
        if isinstance(v, Dict):
            r = self.rec(v)
            if r.sym is not None:
                raise Unsupported("iteration over symbolic dict")
            return tuple(("one", k) for k in r.items)
        if isinstance(v, Obj):
            r = self.rec(v)
            m = r.cls.lookup("__iter__")
            if m:
                return self.parts(self.call(Bound(m, v), [], {}))
            if "__list__" in r.attrs:
                return self.parts(r.attrs["__list__"])
            raise PyExc(self.builtins["TypeError"], ("not iterable",))
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyExc(self.builtins["TypeError"], ("iteration over a 0-d array",))
            n = v.shape[0]
            if isinstance(n, int):
                return tuple(("one", self.getitem(v, i)) for i in range(n))
            return (("comp", n, lambda i: T.TRUE, lambda i: (("one", self.getitem(v, i)),)),)
        if isinstance(v, Gen):
            acc = self.newlist([])
            v.run(lambda x: self.list_append(acc, x))
            return self.rec(acc).parts
        if hasattr(v, "np_parts"):
            return v.np_parts(self)
        if hasattr(v, "rest"):
            ps = tuple(v.rest)
            v.rest = []
            return ps
        raise PyExc(self.builtins["TypeError"], ("%r is not iterable" % (v,),))

    def npclass(self, name):
        from . import npmodel
        return npmodel.npc(self, name)

    def freeze(self, v):
        return self.copy_arr(v) if isinstance(v, Arr) else v

    def parts2arr(self, v):
        if isinstance(v, Gen):
            return self.alloc(ListRec(self.parts(v)), List)
        return v

    def concrete_list(self, v, want=None):
        """python list of the elements; symbolic lengths are only accepted when the path condition fixes them"""
        if isinstance(v, Term):
            raise PyExc(self.builtins["TypeError"], ("not iterable",))
        out = []
        for p in self.parts(v):
            if p[0] == "one":
                out.append(p[1])
            elif p[0] == "comp":
                n = p[1]
                k = self.const_int(n)
                if k is None and want is not None:
                    k2 = want - len(out)
                    if self.decide(T.eq(n, k2)):
                        k = k2
                    else:
                        raise PyExc(self.builtins["ValueError"], ("unpack",))
                if k is None:
                    raise Unsupported("sequence of symbolic length where a concrete one is needed")
                for i in range(k):
                    c = p[2](T.num(i))
                    if self.decide(c):
                        out.extend(self.concrete_list(Seq(p[3](T.num(i)))))
            else:
                raise Unsupported("loop-carried list read inside the loop")
        return out

    def const_int(self, n):
        if isinstance(n, int):
            return n
        if isinstance(n, Term):
            if n.op == "num":
                return int(n.args[0])
        return None

    def length_parts(self, parts):
        tot = 0
        for p in parts:
            if p[0] == "one":
                tot = self.binop("+", tot, 1)
            elif p[0] == "hav":
                tot = self.binop("+", tot, p[2])
            else:
                _, n, c, ps = p
                k = T.fresh("k", "I")
                body = T.lift(self.length_parts(ps(k)))
                body = T.ite(c(k), body, T.num(0))
                if body.op == "num":
                    t = T.mul(body, n)
                else:
                    t = T.summ(k, 0, T.lift(n), body)
                tot = self.binop("+", tot, self.py(t))
        return tot

    def length(self, v):
        if isinstance(v, str):
            return len(v)
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyExc(self.builtins["TypeError"], ("len() of unsized object",))
            return v.shape[0]
        if isinstance(v, Dict):
            r = self.rec(v)
            if r.sym is not None:
                raise Unsupported("len of symbolic dict")
            return len(r.items)
        if isinstance(v, Obj):
            m = self.rec(v).cls.lookup("__len__")
            if m:
                return self.call(Bound(m, v), [], {})
        if isinstance(v, (List, Seq, Obj, Set)):
            return self.length_parts(self.parts(v))
        if hasattr(v, "np_len"):
            return v.np_len(self)
        raise PyExc(self.builtins["TypeError"], ("no len()",))

    def list_append(self, l, v):
        r = self.heap[l.id]
        self.heap[l.id] = ListRec(r.parts + (("one", v),))

    def list_extend(self, l, it):
        ps = self.parts(it)
        r = self.heap[l.id]
        self.heap[l.id] = ListRec(r.parts + tuple(ps))

    def py(self, t):
        """python int for constant integer terms"""
        if isinstance(t, Term) and t.op == "num" and t.sort == "I":
            return int(t.args[0])
        return t

    # ------------------------------------------------------------- iteration
    def iterate(self, it, cb, where=""):
        if isinstance(it, Gen):
            def hook(v):
                try:
                    cb(v)
                except ContinueSig:
                    pass
                except (BreakSig, ReturnSig, PyExc) as e:
                    raise _Carrier(e)
            try:
                it.run(hook)
            except _Carrier as c:
                raise c.e
            return
        if self.iter_hook is not None and self.iter_hook(it, cb, where):
            return
        if isinstance(it, List):
            # live iteration over a list (appends during iteration are not supported symbolically)
            pass
        self.iter_parts(self.parts(it), cb, where)

    def iter_parts(self, parts, cb, where):
        for p in parts:
            if p[0] == "one":
                try:
                    cb(p[1])
                except ContinueSig:
                    pass
            elif p[0] == "comp":
                n = p[1]
                k = self.const_int(n)
                if k is not None and k <= 64:
                    for i in range(k):
                        c = p[2](T.num(i))
                        if c is T.FALSE:
                            continue
                        if c is not T.TRUE and not self.decide(c):
                            continue
                        self.iter_parts(p[3](T.num(i)), cb, where)
                else:
                    from .loops import cut_loop
                    cut_loop(self, p, cb, where)
            else:
                raise Unsupported("iteration over a loop-carried list")

    # ------------------------------------------------------------- values
    def vite(self, c, a, b):
        if c is T.TRUE:
            return a
        if c is T.FALSE:
            return b
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = self.tocx(a), self.tocx(b)
            return Cx(T.ite(c, a.re, b.re), T.ite(c, a.im, b.im))
        if a is b:
            return a
        try:
            return T.ite(c, T.lift(a), T.lift(b))
        except TypeError:
            pass
        r = self.vmerge(c, a, b)
        return r

    def vmerge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (bool, int, str, Term, Cx)) or a is None:
            if isinstance(b, (bool, int, str, Term, Cx)) or b is None:
                if type(a) is type(b) and a == b and not isinstance(a, Term):
                    return a
                return self.vite(c, a, b)
        if type(a) is type(b) and not isinstance(a, Term):
            if isinstance(a, tuple) and len(a) == len(b):
                return tuple(self.vmerge(c, x, y) for x, y in zip(a, b))
            if isinstance(a, Ref) and a == b:
                return a
            if isinstance(a, SymObj) and a.fam == b.fam:
                return SymObj(a.fam, T.ite(c, T.lift(a.idx), T.lift(b.idx)))
            if isinstance(a, (Func, Bound, Builtin, ClassVal)) and a is b:
                return a
        raise Unsupported("merge of %r and %r" % (a, b))

    def tocx(self, v):
        if isinstance(v, Cx):
            return v
        return Cx(v, T.num(0, "R"))

    # arrays, operators: mixed in from arrays.py
    def elem(self, a, idx):
        if not isinstance(a, Arr):
            return a
        return self.heap[a.bid].fn(a.vmap(tuple(idx)))


class _Carrier(Exception):
    def __init__(self, e):
        self.e = e


def _shield(run):
    return run


def _funcs_of(v):
    if isinstance(v, Func):
        return [v]
    if isinstance(v, Prop):
        return [f for x in (v.fget, v.fset) if x is not None for f in _funcs_of(x)]
    if isinstance(v, (ClassMethod, StaticMethod, CtxFactory)):
        return _funcs_of(v.f)
    return []


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _pure(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.Yield, ast.NamedExpr)):
            return False
    return True


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
       ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@",
       ast.LShift: "<<", ast.RShift: ">>"}
