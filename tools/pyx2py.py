"""Mechanical extraction of cexpressions.pyx: Cython's own parser, every statement and expression printed
back as Python.  Runs under /opt/venv/bin/python.  What is dropped: C types that hold exact reals or
integers here (double, int; recorded), GIL handling, compiler directives.  Assignments to variables
of integer C type are wrapped in __cint(), any other C scalar type in __ctype('name', value), which the
verifier does not accept."""
import sys
import warnings
warnings.simplefilter("ignore")
from Cython.Compiler.TreeFragment import parse_from_strings
from Cython.Compiler import Nodes, ExprNodes

src = open(sys.argv[1], encoding="utf8").read()
tree = parse_from_strings("extracted", src)
ctypedefs = {}
DOUBLE = {"double", "np.double_t", "numpy.double_t", "np.float64_t", "numpy.float64_t"}
INT = {"int", "long", "short", "Py_ssize_t", "size_t", "np.intp_t", "np.int32_t", "np.int64_t", "bint", "char"}


def tname(b):
    if isinstance(b, Nodes.CSimpleBaseTypeNode):
        n = ".".join(list(getattr(b, "module_path", []) or []) + [b.name or "object"])
        if getattr(b, "longness", 0) and b.name == "int":
            n = "long"
        if getattr(b, "longness", 0) and b.name == "double":
            n = "long double"
        if getattr(b, "signed", 1) == 0:
            n = "unsigned " + n
        return ctypedefs.get(n, n)
    if isinstance(b, Nodes.TemplatedTypeNode):
        base = tname(b.base_type_node)
        dt = ex(b.positional_args[0]) if b.positional_args else "?"
        return "buffer[%s]" % ctypedefs.get(dt, dt)
    return type(b).__name__


def kind(t, ptr=False):
    if ptr:
        return "ptr" if t in DOUBLE else "other"
    if t in DOUBLE:
        return "double"
    if t in INT:
        return "int"
    if t.startswith("buffer["):
        return "buffer" if t[7:-1] in DOUBLE | INT else "other"
    if t == "object":
        return "object"
    return "other"


def decl(d):
    """(name, pointer?, default)"""
    ptr = False
    default = getattr(d, "default", None)
    while True:
        if isinstance(d, Nodes.CPtrDeclaratorNode):
            ptr = True
            d = d.base
            continue
        if isinstance(d, Nodes.CFuncDeclaratorNode):
            d = d.base
            continue
        break
    if default is None:
        default = getattr(d, "default", None)
    return d.name, ptr, default


OPS = {"+": "+", "-": "-", "*": "*", "/": "/", "**": "**", "%": "%", "//": "//", "|": "|", "&": "&", "^": "^", "<<": "<<", ">>": ">>", "@": "@"}


def ex(e):
    t = type(e).__name__
    if t == "NameNode":
        return str(e.name)
    if t == "IntNode":
        return str(e.value)
    if t == "FloatNode":
        return str(e.value)
    if t == "BoolNode":
        return "True" if e.value else "False"
    if t == "NoneNode":
        return "None"
    if t in ("UnicodeNode", "StringNode", "BytesNode", "IdentifierStringNode"):
        return repr(str(e.value))
    if t == "AttributeNode":
        return "%s.%s" % (ex(e.obj), e.attribute)
    if t in ("AddNode", "SubNode", "MulNode", "DivNode", "PowNode", "ModNode", "IntBinopNode", "NumBinopNode", "MatMultNode"):
        return "(%s %s %s)" % (ex(e.operand1), OPS[e.operator], ex(e.operand2))
    if t == "UnaryMinusNode":
        return "(-%s)" % ex(e.operand)
    if t == "UnaryPlusNode":
        return "(+%s)" % ex(e.operand)
    if t == "NotNode":
        return "(not %s)" % ex(e.operand)
    if t == "BoolBinopNode":
        return "(%s %s %s)" % (ex(e.operand1), e.operator, ex(e.operand2))
    if t == "PrimaryCmpNode":
        r = "(%s %s %s" % (ex(e.operand1), e.operator.replace("_", " "), ex(e.operand2))
        c = e.cascade
        while c is not None:
            r += " %s %s" % (c.operator.replace("_", " "), ex(c.operand2))
            c = c.cascade
        return r + ")"
    if t == "CondExprNode":
        return "(%s if %s else %s)" % (ex(e.true_val), ex(e.test), ex(e.false_val))
    if t == "SimpleCallNode":
        return "%s(%s)" % (ex(e.function), ", ".join(ex(a) for a in e.args))
    if t == "GeneralCallNode":
        a = [ex(x) for x in e.positional_args.args]
        if e.keyword_args is not None:
            a += ["%s=%s" % (i.key.value, ex(i.value)) for i in e.keyword_args.key_value_pairs]
        return "%s(%s)" % (ex(e.function), ", ".join(a))
    if t == "IndexNode":
        i = e.index
        if isinstance(e.base, ExprNodes.NameNode) and types[-1].get(e.base.name) in ("buffer", "ptr") and not wrap:
            ix = list(i.args) if type(i).__name__ == "TupleNode" else [i]
            return "%s[%s]" % (ex(e.base), ", ".join(ex(x) if type(x).__name__ == "IntNode" else "__nn(%s)" % ex(x) for x in ix))
        if type(i).__name__ == "TupleNode":
            return "%s[%s]" % (ex(e.base), ", ".join(ex(x) for x in i.args))
        return "%s[%s]" % (ex(e.base), ex(i))
    if t == "SliceIndexNode":
        return "%s[%s:%s]" % (ex(e.base), ex(e.start) if e.start else "", ex(e.stop) if e.stop else "")
    if t == "TupleNode":
        return "(%s,)" % ", ".join(ex(a) for a in e.args) if e.args else "()"
    if t == "ListNode":
        return "[%s]" % ", ".join(ex(a) for a in e.args)
    if t == "AmpersandNode":
        b = e.operand
        if type(b).__name__ == "IndexNode" and type(b.index).__name__ == "TupleNode":
            return "__addr(%s, %s)" % (ex(b.base), ", ".join(ex(x) for x in b.index.args))
        if type(b).__name__ == "IndexNode":
            return "__addr(%s, %s)" % (ex(b.base), ex(b.index))
        raise SystemExit("UNSUPPORTED address of %s" % type(b).__name__)
    if t == "TypecastNode":
        return "__cast(%r, %s)" % (tname(e.base_type), ex(e.operand))
    if t == "IteratorNode":
        return ex(e.sequence)
    if t == "ImportNode":
        return "__import__(%s)" % ex(e.module_name)
    raise SystemExit("UNSUPPORTED expression %s" % t)


wrap = (getattr(tree, "directive_comments", None) or {}).get("wraparound", True)
out = []
types = [{}]


def wr(d, s):
    out.append("    " * d + s)


def conv(name, val):
    k = types[-1].get(name)
    if k == "int":
        return "__cint(%s)" % val
    if k == "other":
        return "__ctype(%r, %s)" % (name, val)
    return val


def target(e):
    return ex(e)


def assign(d, lhs, rhs):
    if type(lhs).__name__ == "NameNode":
        wr(d, "%s = %s" % (lhs.name, conv(lhs.name, rhs)))
    elif type(lhs).__name__ in ("TupleNode", "ListNode"):
        wr(d, "(%s,) = %s" % (", ".join(target(a) for a in lhs.args), rhs))
        for a in lhs.args:
            if type(a).__name__ == "NameNode" and types[-1].get(a.name) in ("int", "other"):
                wr(d, "%s = %s" % (a.name, conv(a.name, a.name)))
    else:
        wr(d, "%s = %s" % (target(lhs), rhs))


def block(b, d):
    n = len(out)
    st(b, d)
    if len(out) == n:
        wr(d, "pass")


def arglist(args, d):
    names = []
    notes = []
    for a in args:
        nm, ptr, default = decl(a.declarator)
        if a.default is not None:
            default = a.default
        k = kind(tname(a.base_type), ptr)
        if not nm and type(a.base_type).__name__ == "CSimpleBaseTypeNode":
            nm, k = a.base_type.name, "object"
        types[-1][nm] = k
        names.append(nm + ("=" + ex(default) if default is not None else ""))
        if k in ("int", "other"):
            notes.append((nm, k))
    return names, notes


def st(s, d):
    t = type(s).__name__
    if t in ("StatListNode",):
        for x in s.stats:
            st(x, d)
    elif t in ("CImportStatNode", "PassStatNode"):
        if t == "PassStatNode":
            wr(d, "pass")
    elif t == "FromCImportStatNode":
        if str(s.module_name) == "libc.math":
            for x in s.imported_names:
                nm, al = x[1], x[2] or x[1]
                wr(d, "from __libc_math import %s as %s" % (nm, al))
    elif t == "FromImportStatNode":
        wr(d, "from %s import %s" % (s.module.module_name.value, ", ".join("%s as %s" % (n, x.name) for n, x in s.items)))
    elif t == "CTypeDefNode":
        nm, ptr, _ = decl(s.declarator)
        ctypedefs[nm] = tname(s.base_type)
    elif t == "ExprStatNode":
        if type(s.expr).__name__ == "SimpleCallNode" and ex(s.expr.function).endswith("import_array"):
            return
        wr(d, ex(s.expr))
    elif t == "SingleAssignmentNode":
        if type(s.rhs).__name__ == "ImportNode":
            if str(s.rhs.module_name.value) == "cython":
                return
            wr(d, "import %s as %s" % (s.rhs.module_name.value, s.lhs.name))
            return
        assign(d, s.lhs, ex(s.rhs))
    elif t == "CascadedAssignmentNode":
        wr(d, "__v = %s" % ex(s.rhs))
        for l in s.lhs_list:
            assign(d, l, "__v")
    elif t == "InPlaceAssignmentNode":
        if type(s.lhs).__name__ == "NameNode" and types[-1].get(s.lhs.name) in ("int", "other"):
            wr(d, "%s = %s" % (s.lhs.name, conv(s.lhs.name, "%s %s (%s)" % (s.lhs.name, OPS[s.operator], ex(s.rhs)))))
        else:
            wr(d, "%s %s= %s" % (target(s.lhs), OPS[s.operator], ex(s.rhs)))
    elif t == "CVarDefNode":
        tn = tname(s.base_type)
        for x in s.declarators:
            nm, ptr, default = decl(x)
            if isinstance(x, Nodes.CFuncDeclaratorNode):
                continue
            types[-1][nm] = kind(tn, ptr)
            if default is not None:
                wr(d, "%s = %s" % (nm, conv(nm, ex(default))))
    elif t == "CFuncDefNode":
        f = s.declarator
        while isinstance(f, Nodes.CPtrDeclaratorNode):
            f = f.base
        types.append({})
        names, notes = arglist(f.args, d)
        wr(d, "def %s(%s):" % (f.base.name, ", ".join(names)))
        for nm, k in notes:
            wr(d + 1, "%s = %s" % (nm, conv(nm, nm)))
        rt = kind(tname(s.base_type))
        block(s.body, d + 1)
        types.pop()
    elif t == "DefNode":
        types.append({})
        names, notes = arglist(s.args, d)
        wr(d, "def %s(%s):" % (s.name, ", ".join(names)))
        for nm, k in notes:
            wr(d + 1, "%s = %s" % (nm, conv(nm, nm)))
        block(s.body, d + 1)
        types.pop()
    elif t == "ReturnStatNode":
        wr(d, "return %s" % (ex(s.value) if s.value is not None else ""))
    elif t == "AssertStatNode":
        c = getattr(s, "condition", None) or getattr(s, "cond")
        wr(d, "assert %s" % ex(c))
    elif t == "IfStatNode":
        for i, c in enumerate(s.if_clauses):
            wr(d, "%s %s:" % ("if" if i == 0 else "elif", ex(c.condition)))
            block(c.body, d + 1)
        if s.else_clause is not None:
            wr(d, "else:")
            block(s.else_clause, d + 1)
    elif t == "ForInStatNode":
        wr(d, "for %s in %s:" % (target(s.target), ex(s.iterator)))
        if type(s.target).__name__ == "NameNode" and types[-1].get(s.target.name) in ("int", "other"):
            wr(d + 1, "%s = %s" % (s.target.name, conv(s.target.name, s.target.name)))
        block(s.body, d + 1)
        if s.else_clause is not None:
            wr(d, "else:")
            block(s.else_clause, d + 1)
    elif t == "WhileStatNode":
        wr(d, "while %s:" % ex(s.condition))
        block(s.body, d + 1)
    elif t == "BreakStatNode":
        wr(d, "break")
    elif t == "ContinueStatNode":
        wr(d, "continue")
    elif t == "GILStatNode":
        wr(d, "if True:")
        block(s.body, d + 1)
    elif t == "CompilerDirectivesNode":
        st(s.body, d)
    elif t == "RaiseStatNode":
        wr(d, "raise %s" % (ex(s.exc_type) if s.exc_type is not None else ""))
    else:
        raise SystemExit("UNSUPPORTED statement %s" % t)


st(tree.body if hasattr(tree, "body") else tree, 0)
dirs = getattr(tree, "directive_comments", {}) or {}
print("# directives: %r" % (dirs,))
print("\n".join(out))
