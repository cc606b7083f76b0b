"""Front end for the C extension: the functions of a C file, mechanically translated on every run into the
statement language the symbolic executor runs.

What is translated: the complete bodies of the functions asked for, and of every function of the same file they
call.  What the extraction drops: comments, storage classes and casts between pointer types, reference counting
(Py_INCREF, Py_DECREF, Py_XDECREF), and the cleanup code behind a `_fail:` label.  Raising with PyErr_Format is
raising at once; `goto _fail` fails the call.  A local whose address is taken becomes a one-element list and so does
`*p` of a pointer parameter read p[0].  double is treated as the real numbers, int as the integers; the value of an int
assigned from a double is truncated towards zero.  Constructs outside the subset make the obligation undecided."""
import ast
import re
import os
from fractions import Fraction
from . import terms as T
from .values import *

TYPES = {"double", "int", "long", "char", "short", "unsigned", "static", "const", "Py_ssize_t", "npy_intp", "PyObject",
         "PyArrayObject", "PyArray_Descr", "PyThreadState", "PyArrayIterObject", "float", "size_t", "void", "register", "signed"}
TOK = re.compile(r"""\s+|(?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?[fFlLuU]*)|(?P<id>[A-Za-z_]\w*)|(?P<str>"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.|[^'\\])')"""
                 r"""|(?P<op><<=|>>=|\+\+|--|->|\+=|-=|\*=|/=|%=|&=|\|=|\^=|==|!=|<=|>=|&&|\|\||<<|>>|[-+*/%<>=!&|^~?:;,.(){}\[\]])""")
DROP = {"Py_INCREF", "Py_DECREF", "Py_XDECREF", "Py_XINCREF"}


class CError(Exception):
    pass


def preprocess(text, defined):
    """comments out, #if resolved for Python 3 on this machine, object- and function-like macros collected"""
    text = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), text, flags=re.S)
    text = re.sub(r"//[^\n]*", "", text)
    text = text.replace("\\\n", " ")
    out, stack, macros = [], [], {}
    for line in text.split("\n"):
        s = line.strip()
        if s.startswith("#"):
            m = re.match(r"#\s*(\w+)\s*(.*)", s)
            d, rest = m.group(1), m.group(2)
            live = all(x == 1 for x in stack)
            if d in ("if", "ifdef", "ifndef"):
                if d == "if":
                    e = rest
                    e = re.sub(r"defined\s*\(?\s*(\w+)\s*\)?", lambda m: str(int(m.group(1) in defined or m.group(1) in macros)), e)
                    e = re.sub(r"\b[A-Za-z_]\w*", lambda m: str(defined.get(m.group(0), 0)), e)
                    e = e.replace("&&", " and ").replace("||", " or ").replace("!", " not ").replace(" not =", "!=")
                    v = bool(eval(e, {"__builtins__": {}}))
                else:
                    v = (rest.split()[0] in defined or rest.split()[0] in macros) == (d == "ifdef")
                stack.append(1 if v else 0)
            elif d == "else":
                stack[-1] = 1 if stack[-1] == 0 else 2
            elif d == "elif":
                stack[-1] = 2 if stack[-1] == 1 else stack[-1]
            elif d == "endif":
                stack.pop()
            elif d == "define" and live:
                m = re.match(r"(\w+)(\(([^)]*)\))?\s*(.*)", rest)
                macros[m.group(1)] = ([a.strip() for a in m.group(3).split(",")] if m.group(2) else None, m.group(4))
            out.append("")
            continue
        out.append(line if all(x == 1 for x in stack) else "")
    return "\n".join(out), macros


def tokens(text):
    out = []
    i = 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise CError("character %r" % text[i])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


def expand(toks, macros, depth=0):
    if depth > 20:
        raise CError("macro recursion")
    out = []
    i = 0
    hit = False
    while i < len(toks):
        k, v = toks[i]
        if k == "id" and v in macros and v not in ("goto",):
            args, body = macros[v]
            if args is None:
                bt = tokens(body)
                out += bt
                hit = hit or bool(bt)
                i += 1
                continue
            if i + 1 < len(toks) and toks[i + 1] == ("op", "("):
                depth_, j, cur, parts = 1, i + 2, [], []
                while depth_:
                    t = toks[j]
                    if t == ("op", "("):
                        depth_ += 1
                    if t == ("op", ")"):
                        depth_ -= 1
                    if t == ("op", ",") and depth_ == 1:
                        parts.append(cur)
                        cur = []
                    elif depth_:
                        cur.append(t)
                    j += 1
                parts.append(cur)
                env = dict(zip(args, parts))
                for t in tokens(body):
                    out += env[t[1]] if t[0] == "id" and t[1] in env else [t]
                i = j
                hit = True
                continue
        out.append((k, v))
        i += 1
    return expand(out, macros, depth + 1) if hit else out


class PyNone(object):
    """Py_None, as opposed to the null pointer"""


PYNONE = PyNone()


class CPtr(object):
    """double pointer into the contiguous buffer of an array"""
    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off

    def index(self, I, k):
        if not isinstance(k, int) or isinstance(k, bool):
            raise Unsupported("symbolic index of a C pointer")
        k += self.off
        n = 1
        for d in self.arr.shape:
            if not isinstance(d, int):
                raise Unsupported("C pointer into an array of symbolic shape")
            n *= d
        if not 0 <= k < n:
            raise PyExc(I.builtins["MemoryError"], ("access outside of the C buffer",))
        idx = []
        for d in reversed(self.arr.shape):
            idx.append(k % d)
            k //= d
        return tuple(reversed(idx))

    def np_getitem(self, I, k):
        return I.getitem(self.arr, self.index(I, k))

    def np_setitem(self, I, k, v):
        I.setitem(self.arr, self.index(I, k), v)


PI_TEXT = "3.14159265358979323846264338327950288419716939937510582"


def cnum(s):
    """the real number a C literal stands for; a literal that agrees with a small rational multiple of pi in all its digits is that"""
    v = Fraction(s)
    digits = len(re.sub(r"[eE].*|\.|^0+", "", s).lstrip("0"))
    if digits >= 16:
        for den in (1, 2, 3, 4, 6, 180):
            for num in (1, 2, 3, 4):
                x = Fraction(PI_TEXT) * num / den
                if abs(v - x) < x * Fraction(10) ** (1 - min(digits, 40)):
                    return T.mul(T.num(Fraction(num, den), "R"), T.PI)
    return T.num(v, "R")


def cdouble(I, v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, Fraction)):
        return T.num(Fraction(v), "R")
    if isinstance(v, Arr) and v.ndim == 0:
        v = I.elem(v, ())
    if isinstance(v, Term) and v.sort in ("R", "I"):
        return T.toreal(v)
    if isinstance(v, Term) and v.sort == "B":
        return T.ite(v, T.num(1, "R"), T.num(0, "R"))
    raise Unsupported("conversion to double of %r" % (v,))


def cint(I, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Arr) and v.ndim == 0:
        v = I.elem(v, ())
    if isinstance(v, Term) and v.op == "num":
        q = v.args[0]
        return int(q)
    if isinstance(v, Term) and v.sort == "I":
        return v
    if isinstance(v, Term) and v.sort == "B":
        return int(I.decide(v))
    raise Unsupported("conversion to int of %r" % (v,))


def runtime(I):
    """what the C code calls: the C library and the Python and numpy C interfaces"""
    from . import npmodel
    np = npmodel.numpy(I).attrs
    E = I.builtins

    def exc(cls, *a):
        return PyExc(E[cls], a)
    R = {}

    def D(n):
        def dec(f):
            R[n] = Builtin("C." + n, f)
            return f
        return dec
    for n in "ArithmeticError IndexError MemoryError RuntimeError TypeError ValueError KeyError OverflowError".split():
        if n not in E:
            E[n] = BuiltinClass(n, None, [E["Exception"]])
        R["PyExc_" + n] = E[n]
    R.update(Py_None=PYNONE, Py_True=True, Py_False=False, NPY_DOUBLE="double", NPY_SUCCEED=1, NPY_FAIL=0, NPY_ARRAY_IN_ARRAY=1, NPY_ARRAY_ALIGNED=1, NPY_ARRAY_ENSURECOPY=0x20)
    for c, p in dict(sin="sin", cos="cos", tan="tan", sqrt="sqrt", atan2="arctan2", acos="arccos", asin="arcsin", atan="arctan", exp="exp",
                     log="log", fabs="fabs").items():
        R[c] = Builtin("C." + c, (lambda f: lambda *a: I.scalar(I.call(f, [cdouble(I, x) for x in a], {})))(np[p]))
    R["__c_double"] = Builtin("C.double", lambda v: cdouble(I, v))
    R["__c_int"] = Builtin("C.int", lambda v: cint(I, v))
    R["__c_num"] = Builtin("C.literal", cnum)
    R["M_PI"] = T.PI

    @D("__c_unsupported")
    def unsupported(msg):
        raise Unsupported("C front end: " + msg)

    @D("__c_member")
    def member(o, name):
        raise Unsupported("C front end: structure member " + name)

    @D("__c_ix")
    def ix(k):
        if isinstance(k, int) and k >= 0:
            return k
        if isinstance(k, int):
            raise exc("MemoryError", "access before the C buffer")
        raise Unsupported("symbolic index in C")

    @D("__c_intptr")
    def intptr(s):
        if not isinstance(s, str) or len(s) < 4:
            raise Unsupported("int pointer")
        return I.newlist([int.from_bytes(s[:4].encode("ascii"), "little", signed=True)])

    @D("__c_same")
    def same(a, b):
        if (a is None or isinstance(a, (Arr, List, tuple))) and (b is None or isinstance(b, (Arr, List, tuple))):
            return a is b
        raise Unsupported("pointer comparison")

    @D("__c_div")
    def div(a, b):
        if isinstance(a, int) and isinstance(b, int):
            if b == 0:
                raise exc("ZeroDivisionError")
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        if all(isinstance(x, int) or isinstance(x, Term) and x.sort == "I" for x in (a, b)):
            raise Unsupported("symbolic integer division in C")
        return T.div(cdouble(I, a), cdouble(I, b))

    @D("__c_mod")
    def mod(a, b):
        if isinstance(a, int) and isinstance(b, int) and b:
            return a - b * div(a, b)
        raise Unsupported("symbolic % in C")

    def uninit(shape):
        nm = T.fresh_name("uninit") if hasattr(T, "fresh_name") else "uninit%d" % I.alloc(ListRec([]), List).id
        return I.new_arr(shape, lambda i: T.fn(nm, i) if i else T.var(nm, "R"), "R")

    @D("__c_array")
    def carray(n, isdouble):
        return CPtr(uninit((n,))) if isdouble else I.newlist([None] * n)

    @D("__c_array2")
    def carray2(n, m, isdouble):
        return I.newlist([carray(m, isdouble) for k in range(n)])

    @D("__c_init")
    def cinit(items, dims, isdouble):
        items = I.concrete_list(items)
        n = len(items) if dims[0] is None else dims[0]
        if len(items) > n:
            raise Unsupported("too many initialisers")
        if len(dims) > 1:
            return I.newlist([cinit(items[k] if k < len(items) else I.newlist([]), dims[1:], isdouble) for k in range(n)])
        if not isdouble:
            return I.newlist(items + [0] * (n - len(items)))
        a = uninit((n,))
        for k in range(n):
            I.setitem(a, k, T.toreal(T.lift(I.scalar(items[k]))) if k < len(items) else T.num(0, "R"))
        return CPtr(a)

    @D("PyMem_Malloc")
    def malloc(n):
        return CPtr(uninit((n,)))
    for n in ("PyMem_Free", "PyEval_RestoreThread"):
        R[n] = Builtin("C." + n, lambda *a: None)
    R["PyEval_SaveThread"] = Builtin("C.PyEval_SaveThread", lambda: None)

    @D("__c_addr")
    def addr(p, k):
        if not isinstance(p, CPtr) or not isinstance(k, int):
            raise Unsupported("pointer arithmetic")
        return CPtr(p.arr, p.off + k)

    @D("__c_fail")
    def cfail():
        raise exc("RuntimeError", "SystemError: error return without exception set")

    @D("PyErr_Format")
    def err(cls, *a):
        raise PyExc(cls, a)

    @D("PyErr_Occurred")
    def occurred():
        return None

    @D("memset")
    def memset(p, v, n):
        if v != 0:
            raise Unsupported("memset")
        for k in range(n):
            p.np_setitem(I, k, T.num(0, "R"))

    @D("memcpy")
    def memcpy(p, q, n):
        for k in range(n):
            p.np_setitem(I, k, q.np_getitem(I, k))

    # -------------------------------------------------------------- arguments
    def incoming(v):
        return PYNONE if v is None else v

    @D("PyArg_ParseTupleAndKeywords")
    def parse(args, kwds, fmt, kwlist, *dest):
        names = [x for x in I.concrete_list(kwlist) if x is not None]
        given = dict(zip(names, args))
        if len(args) > len(names):
            raise exc("TypeError", "too many arguments")
        for k, v in kwds:
            if k not in names or k in given:
                raise exc("TypeError", "keyword argument " + k)
            given[k] = v
        fmt = fmt.split(":")[0].split(";")[0]
        dest = list(dest)
        opt = False
        i = 0
        for nm in names:
            while fmt[i] in "|$":
                opt = opt or fmt[i] == "|"
                i += 1
            ch = fmt[i]
            i += 1
            if i < len(fmt) and fmt[i] == "&":
                i += 1
                conv, box = dest.pop(0), dest.pop(0)
                if nm in given:
                    if I.call(conv, [incoming(given[nm]), box], {}) != 1:
                        raise exc("TypeError", "converter failed")
            else:
                box = dest.pop(0)
                if nm in given:
                    v = given[nm]
                    if ch == "O":
                        v = incoming(v)
                    elif ch in "dfD":
                        v = cdouble(I, v)
                    elif ch in "ilnLhI":
                        if not (isinstance(v, (int, bool)) or isinstance(v, Term) and v.sort == "I"):
                            raise exc("TypeError", "an integer is required")
                        v = cint(I, v)
                    elif ch == "p":
                        v = 1 if I.truth(v) else 0
                    elif ch in "sU":
                        if not isinstance(v, str):
                            raise exc("TypeError", "a string is required")
                    else:
                        raise Unsupported("argument format %s" % ch)
                    I.setitem(box, 0, v)
            if nm not in given and not opt:
                raise exc("TypeError", "missing argument " + nm)
        return 1

    # ------------------------------------------------------------------ numpy
    @D("PyArray_FROM_OTF")
    def from_otf(o, typ, flags):
        if o is PYNONE or typ != "double":
            raise exc("TypeError", "float() argument")
        a = I.as_arr(o)
        if a.dtype == "C":
            raise exc("TypeError", "cannot convert complex to float")
        if a.dtype not in ("R", "I", "B"):
            raise exc("ValueError", "could not convert")
        if flags & 0x20:
            return I.as_arr(a, "R", True)
        return I.as_arr(a, "R")
    R["PyArray_NDIM"] = Builtin("C.PyArray_NDIM", lambda a: a.ndim)

    @D("PyArray_DIM")
    def dim(a, k):
        if k >= a.ndim:
            raise Unsupported("PyArray_DIM beyond the dimensions")
        return a.shape[k]
    R["PyArray_ISCOMPLEX"] = Builtin("C.PyArray_ISCOMPLEX", lambda a: int(a.dtype == "C"))
    R["PyArray_Check"] = Builtin("C.PyArray_Check", lambda a: int(isinstance(a, Arr)))
    R["PyArray_TYPE"] = Builtin("C.PyArray_TYPE", lambda a: "double" if a.dtype == "R" else a.dtype)
    R["PyArray_DATA"] = Builtin("C.PyArray_DATA", CPtr)
    R["PyArray_Return"] = Builtin("C.PyArray_Return", lambda a: a)

    @D("PyArray_SimpleNew")
    def simplenew(nd, dims, typ):
        if typ != "double":
            raise Unsupported("array type")
        return uninit(tuple(cint(I, x) for x in I.concrete_list(dims)[:nd]))

    R["PyArray_DescrFromType"] = Builtin("C.PyArray_DescrFromType", lambda typ: typ)

    @D("PyArray_Zeros")
    def zeros(nd, dims, typ, fortran):
        if typ != "double" or fortran != 0:
            raise Unsupported("array type")
        return I.new_arr(tuple(cint(I, x) for x in I.concrete_list(dims)[:nd]), lambda i: T.num(0, "R"), "R")

    # ---------------------------------------------------------------- objects
    @D("Py_BuildValue")
    def build(fmt, *a):
        m = re.match(r"^\(([di,]*)\)$", fmt)
        if not m:
            raise Unsupported("Py_BuildValue " + fmt)
        return tuple(a)
    R["PyFloat_FromDouble"] = Builtin("C.PyFloat_FromDouble", lambda v: cdouble(I, v))
    R["PyUnicode_Check"] = Builtin("C.PyUnicode_Check", lambda o: int(isinstance(o, str)))
    for n in ("PyUnicode_GetSize", "PyUnicode_GetLength", "PyUnicode_GET_LENGTH"):
        R[n] = Builtin("C." + n, len)

    @D("PyUnicode_AsASCIIString")
    def asascii(s):
        if any(ord(x) > 127 for x in s):
            raise exc("UnicodeEncodeError" if "UnicodeEncodeError" in E else "ValueError")
        return s
    R["PyBytes_AsString"] = Builtin("C.PyBytes_AsString", lambda s: s)
    R["PySequence_Check"] = Builtin("C.PySequence_Check", lambda o: int(isinstance(o, (tuple, List, str, Arr)) and not (isinstance(o, Arr) and o.ndim == 0)))

    @D("PySequence_Size")
    def size(o):
        return I.call(E["len"], [o], {})

    @D("PySequence_GetItem")
    def item(o, k):
        return incoming(I.getitem(o, k))
    R["PyFloat_AsDouble"] = Builtin("C.PyFloat_AsDouble", lambda o: T.lift(I.call(E["float"], [o], {})))
    R["PyLong_Check"] = Builtin("C.PyLong_Check", lambda o: int(isinstance(o, (int, bool)) or isinstance(o, Term) and o.sort == "I"))
    R["PyLong_AsLong"] = Builtin("C.PyLong_AsLong", lambda o: cint(I, o))
    R["PyObject_IsTrue"] = Builtin("C.PyObject_IsTrue", lambda o: 0 if o is PYNONE else int(bool(I.truth(o))))
    return R


_files = {}


def cfile(path):
    if path not in _files:
        _files[path] = CFile(path)
    return _files[path]


def install(I, modname, path, names=None):
    """make the methods of the C extension importable as the module modname of the interpreter I"""
    cf = cfile(path)
    table = cf.methods()
    names = [n for n in (names or table) if n in table]
    R = runtime(I)
    import sys
    sys.setrecursionlimit(max(10000, sys.getrecursionlimit()))
    try:
        fs = cf.closure([table[n][0] for n in names])
    except CError as e:
        raise Unsupported("C front end: %s" % e)
    tree = ast.fix_missing_locations(ast.Module(list(fs.values()), []))
    I.overrides[modname + ".__c__"] = (tree, path)
    cm = I.load(modname + ".__c__")
    vars_ = I.heap[cm.env].vars
    for k, v in R.items():
        vars_.setdefault(k, v)
    out = {}
    for n in names:
        cn, flags = table[n]
        f = vars_[cn]

        def call_(*a, _f=f, _fl=flags, **kw):
            if "METH_KEYWORDS" in _fl:
                r = I.call(_f, [None, tuple(a), tuple(kw.items())], {})
            elif _fl == "METH_NOARGS":
                r = I.call(_f, [None, None], {})
            else:
                r = I.call(_f, [None, tuple(a)], {})
            return None if r is PYNONE else r
        out[n] = Builtin(modname + "." + n, call_)
    return Module(modname, out)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def call(f, *a):
    return ast.Call(name(f) if isinstance(f, str) else f, list(a), [])


def const(v):
    return ast.Constant(v)


class Parser(object):
    def __init__(self, toks, params, ptrs):
        self.t, self.i = toks, 0
        self.boxed = set()
        self.types = dict(params)        # name -> declared scalar type
        self.post = []
        self.ptrs = set(ptrs)
        # locals and parameters whose address is taken
        for j in range(len(toks) - 1):
            if toks[j] == ("op", "&") and toks[j + 1][0] == "id" and toks[j + 2] != ("op", "["):
                p = toks[j - 1] if j else ("op", ";")
                if p[0] == "op" and p[1] not in (")", "]") or p[0] == "id" and p[1] == "return":
                    self.boxed.add(toks[j + 1][1])
        self.scopes = [set(params) | set(ptrs)]

    def peek(self, v=None, k=0):
        t = self.t[self.i + k] if self.i + k < len(self.t) else ("eof", "")
        return t if v is None else t == ("op", v)

    def eat(self, v=None):
        t = self.peek()
        if v is not None and t != ("op", v):
            raise CError("expected %s, found %s" % (v, t[1]))
        self.i += 1
        return t

    # ------------------------------------------------------------ statements
    def block(self):
        self.eat("{")
        out = []
        self.scopes.append(set())
        while not self.peek("}"):
            out += self.stmt()
        self.scopes.pop()
        self.eat("}")
        return out

    def body(self):
        return self.stmt() or [ast.Pass()]

    def stmt(self):
        if self.peek("{"):
            return self.block()
        if self.peek(";"):
            self.eat()
            return []
        k, v = self.peek()
        if k == "id":
            if v == "if":
                self.i += 1
                self.eat("(")
                c = self.expr()
                self.eat(")")
                self.nopost()
                a = self.body()
                b = []
                if self.peek() == ("id", "else"):
                    self.i += 1
                    b = self.body()
                return [ast.If(self.cond(c), a, b)]
            if v == "for":
                self.i += 1
                self.eat("(")
                init = [] if self.peek(";") else self.simple()
                self.eat(";")
                c = const(True) if self.peek(";") else self.cond(self.expr())
                self.nopost()
                self.eat(";")
                step = [] if self.peek(")") else self.simple()
                self.eat(")")
                b = self.body()
                return init + [ast.While(c, stepped(b, step) + step, [])]
            if v == "while":
                self.i += 1
                self.eat("(")
                c = self.cond(self.expr())
                self.eat(")")
                self.nopost()
                return [ast.While(c, self.body(), [])]
            if v == "do":
                self.i += 1
                b = self.body()
                if continues(b):
                    raise CError("continue in do")
                if self.eat() != ("id", "while"):
                    raise CError("do without while")
                self.eat("(")
                c = self.cond(self.expr())
                self.eat(")")
                self.eat(";")
                self.nopost()
                return [ast.While(const(True), b + [ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], [])], [])]
            if v == "switch":
                return self.switch()
            if v == "return":
                self.i += 1
                e = None if self.peek(";") else self.expr()
                self.eat(";")
                self.nopost()
                return [ast.Return(e or const(None))]
            if v in ("break", "continue"):
                self.i += 1
                self.eat(";")
                return [ast.Break() if v == "break" else ast.Continue()]
            if v == "goto":
                self.i += 2
                self.eat(";")
                return [ast.Return(call("__c_fail"))]
            if self.peek(":", 1) and v not in ("default", "case"):
                # a label: only the cleanup behind a return is accepted; it is dropped
                raise CLabel(v)
            if v in TYPES:
                return self.decl()
        r = self.simple()
        self.eat(";")
        return r

    def is_ptr(self, e):
        n = e.value if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id in self.boxed else e
        return isinstance(n, ast.Name) and n.id in self.ptrs

    def cond(self, e):
        """a pointer used as a truth value is compared with NULL"""
        if self.is_ptr(e):
            return ast.Compare(e, [ast.IsNot()], [ast.Constant(None)])
        return e

    def switch(self):
        self.i += 1
        self.eat("(")
        e = self.expr()
        self.nopost()
        self.eat(")")
        self.eat("{")
        sel = "__sw%d" % self.i
        groups, cur, body, default = [], [], None, None
        pend = []
        isdef = False
        while not self.peek("}"):
            if self.peek()[1] == "case" or self.peek()[1] == "default":
                if self.peek()[1] == "default":
                    isdef = True
                    self.i += 1
                else:
                    self.i += 1
                    pend.append(self.expr())
                self.eat(":")
                continue
            body = []
            done = False
            while not done:
                if self.peek("}"):
                    break
                if self.peek()[1] in ("case", "default"):
                    raise CError("fall-through in switch")
                s = self.stmt()
                for x in s:
                    if isinstance(x, ast.Break):
                        done = True
                    else:
                        body.append(x)
                        if isinstance(x, ast.Return):
                            done = True
            groups.append((pend, isdef, body or [ast.Pass()]))
            pend, isdef = [], False
        self.eat("}")
        els = []
        for p, d, b in reversed(groups):
            if d and els:
                raise CError("default before case")
            if d:
                els = b
            else:
                c = ast.Compare(name(sel), [ast.In()], [ast.Tuple(p, ast.Load())])
                els = [ast.If(c, b, els)]
        return [ast.Assign([name(sel, ast.Store())], e)] + els

    def decl(self):
        base = []
        while self.peek()[0] == "id" and self.peek()[1] in TYPES:
            base.append(self.eat()[1])
        out = []
        while True:
            stars = 0
            while self.peek("*"):
                self.eat()
                stars += 1
            k, n = self.eat()
            if k != "id":
                raise CError("declarator %s" % n)
            if any(n in x for x in self.scopes):
                raise CError("%s shadows a variable" % n)
            self.scopes[-1].add(n)
            if stars:
                self.ptrs.add(n)
            arr = None
            dims = []
            while self.peek("["):
                self.eat()
                dims.append(None if self.peek("]") else self.expr())
                self.eat("]")
            scal = None
            if not stars and not dims:
                scal = "double" if "double" in base or "float" in base else "int" if set(base) & {"int", "long", "Py_ssize_t", "npy_intp", "size_t", "short"} else None
                self.types[n] = scal
            if self.peek("="):
                self.eat()
                if self.peek("{"):
                    e = self.initialiser()
                    if dims and not stars and set(base) & {"double", "float", "int", "long", "Py_ssize_t", "npy_intp", "size_t"}:
                        e = call("__c_init", e, ast.Tuple([d or const(None) for d in dims], ast.Load()), const("double" in base or "float" in base))
                else:
                    e = self.convert(n, self.assign())
                    if n in self.boxed:
                        e = ast.List([e], ast.Load())
                out += self.flush([ast.Assign([name(n, ast.Store())], e)])
            elif dims:
                if len(dims) > 2 or None in dims:
                    raise CError("array of several dimensions")
                out.append(ast.Assign([name(n, ast.Store())], call("__c_array" if len(dims) == 1 else "__c_array2", *(dims + [const("double" in base)]))))
            elif n in self.boxed:
                out.append(ast.Assign([name(n, ast.Store())], ast.List([const(None)], ast.Load())))
            if self.peek(","):
                self.eat()
                continue
            self.eat(";")
            return out

    def initialiser(self):
        self.eat("{")
        items = []
        while not self.peek("}"):
            items.append(self.initialiser() if self.peek("{") else self.assign())
            if self.peek(","):
                self.eat()
        self.eat("}")
        return ast.List(items, ast.Load())

    def convert(self, n, e):
        t = self.types.get(n)
        return call("__c_double", e) if t == "double" else call("__c_int", e) if t == "int" else e

    def simple(self):
        """expression statement (with assignments), comma separated"""
        out = []
        while True:
            out += self.flush(self.one())
            if self.peek(","):
                self.eat()
                continue
            return out

    def nopost(self):
        if self.post:
            raise CError("increment inside a condition")

    def flush(self, out):
        """x++ inside an expression statement, x used once: incremented behind the statement"""
        post, self.post = self.post, []
        if not post:
            return out
        if any(isinstance(x, (ast.IfExp, ast.BoolOp)) for t in out for x in ast.walk(t)):
            raise CError("conditional increment")
        for e, op in post:
            n = e.id if isinstance(e, ast.Name) else e.value.id
            if sum(isinstance(x, ast.Name) and x.id == n for t in out for x in ast.walk(t)) != 1:
                raise CError("increment of a variable used twice")
        return [t for t in out if not (isinstance(t, ast.Expr) and isinstance(t.value, (ast.Name, ast.Subscript)))] + [self.incr(e, op) for e, op in post]

    def lhs(self, e):
        if isinstance(e, ast.Name):
            return ast.Name(e.id, ast.Store())
        if isinstance(e, ast.Subscript):
            return ast.Subscript(e.value, e.slice, ast.Store())
        raise CError("assignment to an expression")

    def one(self):
        if self.peek("++") or self.peek("--"):
            op = self.eat()[1]
            e = self.unary()
            return [self.incr(e, op)]
        start = self.i
        if self.peek()[0] == "id" and self.peek()[1] in DROP and self.peek("(", 1):
            self.expr()
            return []
        e = self.cond_expr()
        if self.peek("++") or self.peek("--"):
            return [self.incr(e, self.eat()[1])]
        k, v = self.peek()
        if k == "op" and v == "=":
            targets = [e]
            while self.peek("="):
                self.eat()
                e = self.cond_expr()
                targets.append(e)
            val = targets.pop()
            conv = val
            for t in targets:
                for nm in [x for x in (self.target_name(t),) if x]:
                    conv = self.convert(nm, conv)
            return [ast.Assign([self.lhs(t) for t in targets], conv)]
        if k == "op" and v in ("+=", "-=", "*=", "/=", "%="):
            self.eat()
            r = self.cond_expr()
            op = v[0]
            val = self.binary(op, self.load(e), r)
            nm = self.target_name(e)
            return [ast.Assign([self.lhs(e)], self.convert(nm, val) if nm else val)]
        return [ast.Expr(e)]

    def load(self, e):
        if isinstance(e, ast.Name):
            return ast.Name(e.id, ast.Load())
        return ast.Subscript(e.value, e.slice, ast.Load())

    def target_name(self, t):
        if isinstance(t, ast.Name):
            return t.id
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in self.boxed:
            return t.value.id
        return None

    def incr(self, e, op):
        return ast.Assign([self.lhs(e)], self.binary(op[0], self.load(e), const(1)))

    # ----------------------------------------------------------- expressions
    def expr(self):
        e = self.assign()
        if self.peek(","):
            raise CError("comma expression")
        return e

    def assign(self):
        e = self.cond_expr()
        if self.peek("=") :
            raise CError("assignment inside an expression")
        return e

    def cond_expr(self):
        c = self.binop(0)
        if self.peek("?"):
            self.eat()
            a = self.assign()
            self.eat(":")
            b = self.cond_expr()
            return ast.IfExp(self.cond(c), a, b)
        return c

    LEVELS = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", "<=", ">", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]

    def binop(self, l):
        if l == len(self.LEVELS):
            return self.unary()
        a = self.binop(l + 1)
        while self.peek()[0] == "op" and self.peek()[1] in self.LEVELS[l]:
            op = self.eat()[1]
            b = self.binop(l + 1)
            a = self.binary(op, a, b)
        return a

    def binary(self, op, a, b):
        if op == "||":
            return ast.BoolOp(ast.Or(), [self.cond(a), self.cond(b)])
        if op == "&&":
            return ast.BoolOp(ast.And(), [self.cond(a), self.cond(b)])
        cmp_ = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE}
        if op in cmp_:
            null = [isinstance(x, ast.Constant) and x.value is None or isinstance(x, ast.Name) and x.id == "Py_None" for x in (a, b)]
            if op in ("==", "!=") and any(null):
                return ast.Compare(a, [ast.Is() if op == "==" else ast.IsNot()], [b])
            if op in ("==", "!=") and self.is_ptr(a) and self.is_ptr(b):
                return call("__c_same", a, b) if op == "==" else ast.UnaryOp(ast.Not(), call("__c_same", a, b))
            return ast.Compare(a, [cmp_[op]()], [b])
        if op == "/":
            return call("__c_div", a, b)
        if op == "%":
            return call("__c_mod", a, b)
        if op in "+-" and (self.is_ptr(a) or isinstance(a, ast.Call) and getattr(a.func, "id", "") == "__c_addr"):
            return call("__c_addr", a, b if op == "+" else ast.UnaryOp(ast.USub(), b))
        ops = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "|": ast.BitOr, "&": ast.BitAnd, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift}
        return ast.BinOp(a, ops[op](), b)

    def unary(self):
        k, v = self.peek()
        if k == "op":
            if v == "-":
                self.eat()
                return ast.UnaryOp(ast.USub(), self.unary())
            if v == "+":
                self.eat()
                return self.unary()
            if v == "!":
                self.eat()
                return ast.UnaryOp(ast.Not(), self.cond(self.unary()))
            if v == "&":
                self.eat()
                k, n = self.eat()
                if k == "id" and self.peek("["):
                    self.eat()
                    x = self.expr()
                    self.eat("]")
                    if self.peek("[") or self.peek("->") or self.peek("."):
                        raise CError("address of an expression")
                    return call("__c_addr", name(n), x)
                if k != "id" or self.peek("[") or self.peek("->") or self.peek("."):
                    raise CError("address of an expression")
                return name(n)
            if v == "*":
                self.eat()
                e = self.unary()
                return ast.Subscript(e, const(0), ast.Load())
            if v in ("++", "--"):
                raise CError("increment inside an expression")
            if v == "(" and self.is_cast():
                self.eat()
                ty = []
                while not self.peek(")"):
                    ty.append(self.eat()[1])
                self.eat(")")
                e = self.unary()
                ty = " ".join(x for x in ty if x != "const")
                if ty == "void" and isinstance(e, ast.Name):
                    return const(None)
                if ty in ("double", "float"):
                    return call("__c_double", e)
                if ty in ("int", "long", "Py_ssize_t", "npy_intp", "size_t"):
                    return call("__c_int", e)
                if ty == "int *":
                    return call("__c_intptr", e)
                return e
        return self.postfix()

    def is_cast(self):
        j = self.i + 1
        n = 0
        while self.t[j][0] == "id" and self.t[j][1] in TYPES:
            j += 1
            n += 1
        while self.t[j] == ("op", "*"):
            j += 1
        return n > 0 and self.t[j] == ("op", ")")

    def postfix(self):
        k, v = self.eat()
        if k == "num":
            s = v.rstrip("fFlLuU") if not v.lower().startswith("0x") else v
            e = const(float(s)) if re.search(r"[.eE]", s) else const(int(s))
            if re.search(r"[.eE]", s):
                e = call("__c_num", const(s))
        elif k == "str":
            s = ast.literal_eval(v)
            while self.peek()[0] == "str":
                s += ast.literal_eval(self.eat()[1])
            e = const(s)
        elif k == "chr":
            e = const(ord(ast.literal_eval(v)))
        elif k == "op" and v == "(":
            e = self.expr()
            self.eat(")")
        elif k == "id":
            if v == "sizeof":
                self.eat("(")
                d = 1
                ty = []
                while d:
                    x = self.eat()
                    d += (x == ("op", "(")) - (x == ("op", ")"))
                    ty.append(x[1])
                return const(1)
            e = const(None) if v == "NULL" else name(v)
            if v in self.boxed:
                e = ast.Subscript(name(v), const(0), ast.Load())
        else:
            raise CError("unexpected %s" % v)
        while True:
            if self.peek("("):
                self.eat()
                a = []
                while not self.peek(")"):
                    a.append(self.assign())
                    if self.peek(","):
                        self.eat()
                self.eat(")")
                e = ast.Call(e, a, [])
            elif self.peek("["):
                self.eat()
                x = self.expr()
                self.eat("]")
                x = x if isinstance(x, ast.Constant) else call("__c_ix", x)
                e = ast.Subscript(e, x, ast.Load())
            elif self.peek("->") or self.peek("."):
                # NumPy iterators: reached at run time only through code that iterates over strided arrays
                self.eat()
                e = call("__c_member", e, ast.Constant(self.eat()[1]))
            elif (self.peek("++") or self.peek("--")) and (isinstance(e, ast.Name) or isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id in self.boxed):
                self.post.append((e, self.eat()[1]))
                return e
            else:
                return e


def continues(b):
    return any(isinstance(s, ast.Continue) or isinstance(s, ast.If) and (continues(s.body) or continues(s.orelse)) for s in b)


def stepped(b, step):
    """the body of a for loop: continue runs the step"""
    out = []
    for s in b:
        if isinstance(s, ast.Continue):
            out += step
        elif isinstance(s, ast.If):
            s = ast.If(s.test, stepped(s.body, step), stepped(s.orelse, step))
        out.append(s)
    return out


def returns(body):
    """control does not pass the end of the block"""
    s = body[-1] if body else None
    return isinstance(s, ast.Return) or isinstance(s, ast.If) and returns(s.body) and returns(s.orelse)


class CLabel(Exception):
    pass


class CFile(object):
    def __init__(self, path):
        self.text, self.macros = preprocess(open(path).read(), dict(PY_MAJOR_VERSION=3, PY_MINOR_VERSION=12, PY_VERSION_HEX=0x030c0000, __linux__=1))
        self.macros = {k: v for k, v in self.macros.items() if v[1] != ""}
        # the interpreter lock is released and taken again around pure computations
        self.macros["Py_RETURN_TRUE"] = (None, "return Py_True")
        self.macros["Py_RETURN_FALSE"] = (None, "return Py_False")
        self.macros["Py_RETURN_NONE"] = (None, "return Py_None")
        self.macros["Py_BEGIN_ALLOW_THREADS"] = self.macros["Py_END_ALLOW_THREADS"] = (None, "")
        self.cache = {}

    def source(self, fname):
        for m in re.finditer(r"^(?:[A-Za-z_][\w \t\*]*[\s\*])?%s\s*\(" % re.escape(fname), self.text, re.M):
            i = self.text.index("(", m.start() + len(m.group(0)) - 1)
            d, j = 0, i
            while True:
                d += (self.text[j] == "(") - (self.text[j] == ")")
                j += 1
                if not d:
                    break
            rest = self.text[j:].lstrip()
            if rest.startswith("{"):
                k = self.text.index("{", j)
                d, e = 0, k
                while True:
                    d += (self.text[e] == "{") - (self.text[e] == "}")
                    e += 1
                    if not d:
                        break
                return self.text[i + 1:j - 1], self.text[k:e]
        return None

    def methods(self):
        """python name -> C function, from the method table"""
        out = {}
        for m in re.finditer(r'\{\s*"(\w+)"\s*,\s*(?:\(PyCFunction\)\s*)?(\w+)\s*,\s*(METH_[A-Z|_ ]+?)\s*,', self.text):
            out[m.group(1)] = (m.group(2), m.group(3).replace(" ", ""))
        return out

    def pyast(self, fname):
        if fname in self.cache:
            return self.cache[fname]
        s = self.source(fname)
        if s is None:
            return None
        params, ptrs, names = {}, [], []
        if s[0].strip() not in ("", "void"):
            for p in s[0].split(","):
                w = re.findall(r"\w+|\*|\[\]", p)
                n = w[-1] if w[-1] != "[]" else w[-2]
                names.append(n)
                if "*" in w or "[]" in w:
                    ptrs.append(n)
                elif "double" in w:
                    params[n] = "double"
                elif set(w) & {"int", "long", "Py_ssize_t"}:
                    params[n] = "int"
        ps = Parser(expand(tokens(s[1]), self.macros), params, ptrs)
        body = []
        ps.eat("{")
        try:
            while not ps.peek("}"):
                body += ps.stmt()
        except CLabel:
            if not returns(body):
                raise CError("label in the middle of the code")
        pre = [ast.Assign([name(n, ast.Store())], ast.List([name(n)], ast.Load())) for n in names if n in ps.boxed]
        f = ast.FunctionDef(fname, ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), pre + body or [ast.Pass()], [], None)
        f.type_params = []
        self.cache[fname] = f
        return f

    def closure(self, fnames):
        """the functions and all functions of this file that they mention"""
        todo, out = list(fnames), {}
        while todo:
            n = todo.pop()
            if n in out:
                continue
            try:
                f = self.pyast(n)
            except CError as e:
                f = ast.FunctionDef(n, ast.arguments([], [], ast.arg("a"), [], [], None, []),
                                    [ast.Return(call("__c_unsupported", const("%s: %s" % (n, e))))], [], None)
                f.type_params = []
            if f is None:
                continue
            out[n] = f
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and x.id not in out and self.source(x.id) is not None:
                    todo.append(x.id)
        return out
