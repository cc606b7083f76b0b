"""cexpressions.pyx as it stands in /repo, extracted mechanically (tools/pyx2py.py) for the verifier."""
import os
import subprocess
from . import terms as T
from .values import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_cache = {}


def extract(repo):
    path = os.path.join(repo, "electrode", "cexpressions.pyx")
    if path not in _cache:
        r = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "tools", "pyx2py.py"), path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if r.returncode:
            raise Unsupported("extraction of cexpressions.pyx: " + r.stderr.decode(errors="replace")[-400:])
        _cache[path] = r.stdout.decode("utf8")
    return _cache[path], path


def install(I):
    """make electrode.cexpressions importable in the interpreter I"""
    I.overrides["electrode.cexpressions"] = extract(I.repo)
    support(I)
    return I


def support(I):
    from . import npmodel

    def libc(I):
        g = npmodel.numpy(I).attrs
        return Module("__libc_math", {"atan2": g["arctan2"], "sqrt": g["sqrt"], "fabs": g["fabs"], "M_PI": T.PI, "atan": g["arctan"],
                                      "sin": g["sin"], "cos": g["cos"], "exp": g["exp"], "log": g["log"], "pow": g["power"],
                                      "acos": g["arccos"], "asin": g["arcsin"], "tan": g["tan"], "hypot": g["hypot"]})
    I.modpatch["__libc_math"] = libc

    def cint(v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Term) and v.sort == "I":
            return v
        if isinstance(v, Term) and v.op == "num":
            return int(v.args[0])
        if isinstance(v, Arr) and v.ndim == 0:
            return cint(I.elem(v, ()))
        raise Unsupported("conversion of a floating point value to a C integer")

    def ctype(name, v):
        raise Unsupported("variable %s has a C type of reduced precision or range" % name)

    def addr(a, *idx):
        return I.getitem(a, tuple(idx[:-1]) + (SliceV(idx[-1], None, None),))

    def nn(i):
        """indices of C buffers must not be negative (wraparound is off)"""
        if isinstance(i, int):
            if i < 0:
                raise PyExc(I.builtins["IndexError"], ("negative index without wraparound",))
        elif isinstance(i, Term):
            if not I.entails(T.le(0, i)):
                if I.decide(T.lt(i, 0)):
                    raise PyExc(I.builtins["IndexError"], ("negative index without wraparound",))
        return i

    I.builtins["__cint"] = Builtin("__cint", cint)
    I.builtins["__ctype"] = Builtin("__ctype", ctype)
    I.builtins["__cast"] = Builtin("__cast", lambda t, v: v if t in ("double",) else ctype(t, v))
    I.builtins["__addr"] = Builtin("__addr", addr)
    I.builtins["__nn"] = Builtin("__nn", nn)
    I.assumed.add("cexpressions.pyx: C ints do not overflow; typed buffer arguments have the declared dtype and dimension")
