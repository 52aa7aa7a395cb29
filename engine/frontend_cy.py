"""Mechanical extraction of Cython sources into Python AST.

The file is parsed with Cython's own parser (the one that compiles it); every statement is carried over
one to one.  What the extraction changes or drops:
  * `with nogil:` / `with gil:` blocks become plain blocks, `prange` becomes `range` (the iterations are
    then verified in sequential order), decorators/directives are recorded, not executed;
  * C typing is kept as explicit markers: __coerce__('int', e) for an assignment to a typed C variable,
    __cast__('int', e) for <int>e, __cdiv__/__cmod__ for / and % of two C integers under cdivision,
    __cydiv__/__cymod__ (floor) without it;
  * cdef extern declarations and cimports only define names; conditional compilation is not used.
"""
import ast
from Cython.Compiler import Parsing, Errors, Symtab
from Cython.Compiler.Main import Context, CompilationOptions, default_options
from Cython.Compiler.Scanning import PyrexScanner, FileSourceDescriptor

INT_T = {"int", "long", "short", "char", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t",
         "int32_t", "int64_t", "Py_ssize_t", "size_t", "bint", "ssize_t", "uint8", "uint16",
         "int32", "int64"}
FLT_T = {"double", "float", "float64_t", "float32_t"}
LIBC_RET = {"rand": "int", "srand": "void", "log": "double", "exp": "double", "sqrt": "double", "fabs": "double",
            "malloc": "ptr"}


class Unsupported(Exception):
    pass


def parse_tree(path):
    opts = CompilationOptions(default_options, language_level=2)
    ctx = Context.from_options(opts)
    src = FileSourceDescriptor(path, path)
    scope = Symtab.ModuleScope("m", None, ctx)
    Errors.init_thread()
    with open(path, encoding="utf8") as f:
        s = PyrexScanner(f, src, source_encoding="UTF-8", scope=scope, context=ctx)
        return Parsing.p_module(s, None, "m")


def cn(n):
    return type(n).__name__


class CFunc:
    """one extracted function"""

    def __init__(self, name, node, params, rettype, kind, directives, line):
        self.name, self.node, self.params, self.rettype, self.kind = name, node, params, rettype, kind
        self.directives, self.line = directives, line      # params: [(name, ctype, default ast or None)]


class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}
        self.consts = {}
        self.cvars = {}         # module level C variables: name -> (type, initial value); never assigned again if not in mutated
        self.mutated = set()
        self.externs = {}
        self.dups = []


def ctype_of(base, declr=None):
    """('c',name) | ('mv',elem,nd) | ('buf',elem,nd) | ('ptr',elem) | ('obj',)"""
    k = cn(base)
    if k == "CSimpleBaseTypeNode":
        nm = base.name
        if nm is None:
            t = ("obj",)
        elif nm == "object":
            t = ("obj",)
        elif base.is_basic_c_type or nm in INT_T or nm in FLT_T:
            if nm == "double" or nm == "float64_t":
                t = ("c", "double")
            elif nm == "float" or nm == "float32_t":
                t = ("c", "float")
            else:
                t = ("c", nm if nm != "int" or not base.longness else "long")
        elif nm == "void":
            t = ("c", "void")
        else:
            t = ("obj",) if nm in ("list", "tuple", "dict", "str") else ("named", nm)
    elif k == "MemoryViewSliceTypeNode":
        t = ("mv", ctype_of(base.base_type_node), len(base.axes))
    elif k == "TemplatedTypeNode":
        pos = base.positional_args
        nd = 1
        for it in (base.keyword_args.key_value_pairs if base.keyword_args else []):
            if it.key.value == "ndim":
                nd = int(it.value.value)
        t = ("buf", ctype_of(pos[0]) if pos else ("obj",), nd)
    elif k in ("AttributeNode", "NameNode"):
        nm = getattr(base, "attribute", None) or base.name
        nm = nm[:-2] if nm.endswith("_t") and nm[:-2] in ("float64", "float32") else nm
        t = ("c", {"float64": "double", "float32": "float"}.get(nm, nm)) if nm in INT_T or nm in FLT_T or nm in (
            "float64", "float32") else ("named", nm)
    else:
        raise Unsupported("type " + k)
    d = declr
    while d is not None and cn(d) == "CPtrDeclaratorNode":
        t = ("ptr", t)
        d = d.base
    return t


def declname(d):
    while not hasattr(d, "name"):
        d = d.base
    return d.name


class Conv:
    def __init__(self, mod):
        self.m = mod
        self.types = {}
        self.directives = {}

    # ---- expressions; returns (ast, ctype)
    def pos(self, n, a):
        ln = n.pos[1] if getattr(n, "pos", None) else 0
        a.lineno = a.end_lineno = ln
        a.col_offset = a.end_col_offset = 0
        return a

    def e(self, n):
        return self.et(n)[0]

    def et(self, n):
        f = getattr(self, "x_" + cn(n), None)
        if f is None:
            raise Unsupported("expression %s at line %s" % (cn(n), n.pos[1]))
        a, t = f(n)
        return self.pos(n, a), t

    def x_NameNode(self, n):
        return ast.Name(n.name, ast.Load()), self.types.get(n.name) or self.m_const_type(n.name)

    def m_const_type(self, nm):
        if nm in self.m.cvars:
            return self.m.cvars[nm][0]
        if nm in ("RAND_MAX",):
            return ("c", "int")
        if nm in ("DBL_MIN", "DBL_MAX"):
            return ("c", "double")
        if nm in ("FLT_MIN", "FLT_MAX"):
            return ("c", "float")
        return None

    def x_IntNode(self, n):
        return ast.Constant(int(n.value.rstrip("LlUu"), 0)), ("c", "int")

    def x_FloatNode(self, n):
        return ast.Constant(float(n.value)), ("c", "double")

    def x_BoolNode(self, n):
        return ast.Constant(bool(n.value)), ("c", "bint")

    def x_NoneNode(self, n):
        return ast.Constant(None), ("obj",)

    def x_UnicodeNode(self, n):
        return ast.Constant(str(n.value)), ("obj",)

    def x_StringNode(self, n):
        return ast.Constant(str(n.value)), ("obj",)

    def x_BytesNode(self, n):
        v = n.value
        return ast.Constant(v.decode("utf8", "replace") if isinstance(v, bytes) else str(v)), ("obj",)

    x_IdentifierStringNode = x_StringNode

    def x_AttributeNode(self, n):
        return ast.Attribute(self.e(n.obj), n.attribute, ast.Load()), None

    def x_TupleNode(self, n):
        return ast.Tuple([self.e(a) for a in n.args], ast.Load()), ("obj",)

    def x_ListNode(self, n):
        return ast.List([self.e(a) for a in n.args], ast.Load()), ("obj",)

    def x_DictNode(self, n):
        ps = n.key_value_pairs
        return ast.Dict([self.e(p.key) for p in ps], [self.e(p.value) for p in ps]), ("obj",)

    def x_SliceNode(self, n):
        f = lambda x: None if x is None or cn(x) == "NoneNode" else self.e(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step)), None

    def x_EllipsisNode(self, n):
        return ast.Constant(Ellipsis), None

    def x_IndexNode(self, n):
        b, bt = self.et(n.base)
        i, _ = self.et(n.index)
        t = None
        if bt and bt[0] in ("mv", "buf", "ptr"):
            nd = 1 if bt[0] == "ptr" else bt[2]
            full = (len(i.elts) if isinstance(i, ast.Tuple) else 1) == nd and not self.has_slice(i)
            t = (bt[1] if full else None)
        elif isinstance(n.base, object) and cn(n.base) == "AttributeNode" and n.base.attribute == "shape":
            t = ("c", "Py_ssize_t")
        return ast.Subscript(b, i, ast.Load()), t

    def has_slice(self, i):
        es = i.elts if isinstance(i, ast.Tuple) else [i]
        return any(isinstance(x, ast.Slice) for x in es)

    def x_SliceIndexNode(self, n):
        b, bt = self.et(n.base)
        f = lambda x: None if x is None or cn(x) == "NoneNode" else self.e(x)
        return ast.Subscript(b, self.pos(n, ast.Slice(f(n.start), f(n.stop), None)), ast.Load()), bt

    @staticmethod
    def isint(t):
        return t is not None and t[0] == "c" and t[1] in INT_T

    @staticmethod
    def isflt(t):
        return t is not None and t[0] == "c" and t[1] in FLT_T

    def binop(self, n, op):
        a, ta = self.et(n.operand1)
        b, tb = self.et(n.operand2)
        r = ast.BinOp(a, op, b)
        if self.isint(ta) and self.isint(tb):
            return r, ("c", "int")
        if (self.isint(ta) or self.isflt(ta)) and (self.isint(tb) or self.isflt(tb)):
            return r, ("c", "double")
        return r, None

    def x_AddNode(self, n):
        return self.binop(n, ast.Add())

    def x_SubNode(self, n):
        return self.binop(n, ast.Sub())

    def x_MulNode(self, n):
        return self.binop(n, ast.Mult())

    def x_PowNode(self, n):
        return self.binop(n, ast.Pow())

    def call(self, fn, *args):
        return ast.Call(ast.Name(fn, ast.Load()), list(args), [])

    def x_DivNode(self, n):
        a, ta = self.et(n.operand1)
        b, tb = self.et(n.operand2)
        if n.operator == "//":
            r, t = self.binop(n, ast.FloorDiv())
            if self.isint(t) and self.directives.get("cdivision"):
                return self.call("__cdiv__", a, b), t
            return r, t
        if self.isint(ta) and self.isint(tb):
            nm = "__cdiv__" if self.directives.get("cdivision") else "__cydiv__"
            return self.call(nm, a, b), ("c", "int")
        r, t = self.binop(n, ast.Div())
        return r, t

    def x_ModNode(self, n):
        a, ta = self.et(n.operand1)
        b, tb = self.et(n.operand2)
        if self.isint(ta) and self.isint(tb):
            nm = "__cmod__" if self.directives.get("cdivision") else "__cymod__"
            return self.call(nm, a, b), ("c", "int")
        return ast.BinOp(a, ast.Mod(), b), None

    def x_IntBinopNode(self, n):
        op = {"<<": ast.LShift(), ">>": ast.RShift(), "&": ast.BitAnd(), "|": ast.BitOr(), "^": ast.BitXor()}[n.operator]
        return self.binop(n, op)

    def x_UnaryMinusNode(self, n):
        a, t = self.et(n.operand)
        return ast.UnaryOp(ast.USub(), a), t

    def x_UnaryPlusNode(self, n):
        return self.et(n.operand)

    def x_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.e(n.operand)), ("c", "bint")

    def x_BoolBinopNode(self, n):
        a, ta = self.et(n.operand1)
        b, tb = self.et(n.operand2)
        return ast.BoolOp(ast.And() if n.operator == "and" else ast.Or(), [a, b]), ta if ta == tb else None

    CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq, "<>": ast.NotEq,
           "is": ast.Is, "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn}

    def x_PrimaryCmpNode(self, n):
        ops, cs = [self.CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(self.CMP[c.operator]())
            cs.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, cs), ("c", "bint")

    def x_CondExprNode(self, n):
        a, ta = self.et(n.true_val)
        b, tb = self.et(n.false_val)
        t = ta if ta == tb else (("c", "double") if (self.isint(ta) or self.isflt(ta)) and (self.isint(tb) or self.isflt(tb)) else None)
        return ast.IfExp(self.e(n.test), a, b), t

    def ret_of(self, f):
        if cn(f) == "NameNode":
            if f.name in LIBC_RET:
                t = LIBC_RET[f.name]
                return ("ptr", ("c", "void")) if t == "ptr" else ("c", t)
            if f.name in self.m.funcs and self.m.funcs[f.name].kind == "cdef":
                return self.m.funcs[f.name].rettype
            if f.name in self.m.externs:
                return self.m.externs[f.name]
            if f.name in self.m.cdecls:
                return self.m.cdecls[f.name]
        return None

    def x_SimpleCallNode(self, n):
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], []), self.ret_of(n.function)

    def x_GeneralCallNode(self, n):
        args = n.positional_args
        kws = []
        if n.keyword_args is not None:
            if cn(n.keyword_args) != "DictNode":
                raise Unsupported("keyword args")
            for p in n.keyword_args.key_value_pairs:
                kws.append(ast.keyword(p.key.value, self.e(p.value)))
        if cn(args) != "TupleNode":
            raise Unsupported("star args")
        return ast.Call(self.e(n.function), [self.e(a) for a in args.args], kws), self.ret_of(n.function)

    def x_TypecastNode(self, n):
        t = ctype_of(n.base_type, n.declarator)
        return self.call("__cast__", ast.Constant(t), self.e(n.operand)), t

    def x_SizeofTypeNode(self, n):
        return self.call("__sizeof__", ast.Constant(ctype_of(n.base_type, n.declarator))), ("c", "size_t")

    def x_SizeofVarNode(self, n):
        return self.call("__sizeof__", ast.Constant(str(cn(n.operand)))), ("c", "size_t")

    def x_AmpersandNode(self, n):
        return self.call("__addr__", self.e(n.operand)), None

    def x_ImportNode(self, n):
        return self.call("__import_name__", ast.Constant(str(n.module_name.value))), ("obj",)

    def x_JoinedStrNode(self, n):
        return ast.Constant("<fstring>"), ("obj",)

    # ---- statements
    def body(self, n):
        out = []
        for s in self.stmts(n):
            out.extend(s if isinstance(s, list) else [s])
        return out or [self.pos(n, ast.Pass())]

    def stmts(self, n):
        k = cn(n)
        if k == "StatListNode":
            for s in n.stats:
                yield from self.stmts(s)
            return
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise Unsupported("statement %s at line %s" % (k, n.pos[1]))
        r = f(n)
        for s in (r if isinstance(r, list) else [r]):
            yield self.pos(n, s) if not hasattr(s, "lineno") else s

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            t = ctype_of(n.base_type, d)
            nm = declname(d)
            self.types[nm] = t
            dd, default = d, None
            while dd is not None and default is None:
                default = getattr(dd, "default", None)
                dd = getattr(dd, "base", None)
            if default is not None:
                out.append(self.assign(n, ast.Name(nm, ast.Store()), t, *self.et(default)))
        return out

    def s_CImportStatNode(self, n):
        return []

    s_FromCImportStatNode = s_CImportStatNode

    def s_FromImportStatNode(self, n):
        return []

    def assign(self, n, target, tt, val, vt):
        if tt is not None and tt[0] == "c" and tt != vt:
            if self.isint(tt) and not self.isint(vt) or (self.isflt(tt) and not self.isflt(vt)):
                val = self.pos(n, self.call("__coerce__", ast.Constant(tt[1]), val))
        return self.pos(n, ast.Assign([target], val))

    def target(self, n):
        a, t = self.et(n)
        if isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)):
            a.ctx = ast.Store()
        elif isinstance(a, (ast.Tuple, ast.List)):
            a.ctx = ast.Store()
            for el in a.elts:
                el.ctx = ast.Store()
        return a, t

    def s_SingleAssignmentNode(self, n):
        v, vt = self.et(n.rhs)
        a, t = self.target(n.lhs)
        if isinstance(a, ast.Tuple):
            st = [self.pos(n, ast.Assign([a], v))]
            for el in a.elts:
                if isinstance(el, ast.Name) and el.id in self.types:
                    tt = self.types[el.id]
                    if tt[0] == "c":
                        st.append(self.assign(n, ast.Name(el.id, ast.Store()), tt, ast.Name(el.id, ast.Load()), None))
            return st
        return self.assign(n, a, t, v, vt)

    def s_CascadedAssignmentNode(self, n):
        v, vt = self.et(n.rhs)
        out = []
        for l in n.lhs_list:
            a, t = self.target(l)
            out.append(self.assign(n, a, t, v, vt))
        return out

    def s_ParallelAssignmentNode(self, n):
        tmp = []
        out = []
        for i, s in enumerate(n.stats):
            nm = "__par%d" % i
            out.append(self.pos(n, ast.Assign([ast.Name(nm, ast.Store())], self.e(s.rhs))))
            a, t = self.target(s.lhs)
            tmp.append(self.assign(n, a, t, ast.Name(nm, ast.Load()), None))
        return out + tmp

    def s_InPlaceAssignmentNode(self, n):
        a, t = self.target(n.lhs)
        ops = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod, "**": ast.Pow, "//": ast.FloorDiv}
        v, vt = self.et(n.rhs)
        if t is not None and t[0] == "c":
            # x op= v with C typing:  x = <type>(x op v)
            load = self.e(n.lhs)
            if n.operator in ("/", "%") and self.isint(t) and self.isint(vt):
                nm = {"/": "div", "%": "mod"}[n.operator]
                ex = self.call(("__c%s__" if self.directives.get("cdivision") else "__cy%s__") % nm, load, v)
                et = ("c", "int")
            else:
                ex = ast.BinOp(load, ops[n.operator](), v)
                et = ("c", "int") if self.isint(t) and self.isint(vt) else (("c", "double") if vt else None)
            return self.assign(n, a, t, self.pos(n, ex), et)
        return ast.AugAssign(a, ops[n.operator](), v)

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence
        a, t = self.target(n.target)
        iters = self.e(it)
        if isinstance(iters, ast.Call) and isinstance(iters.func, ast.Name) and iters.func.id == "prange":
            iters.func.id = "range"
            iters.keywords = [k for k in iters.keywords if k.arg not in ("schedule", "num_threads", "nogil", "chunksize")]
        if isinstance(a, ast.Name) and a.id not in self.types and isinstance(iters, ast.Call) \
                and getattr(iters.func, "id", "") == "range":
            self.types[a.id] = ("c", "long")
        b = self.body(n.body)
        o = self.body(n.else_clause) if n.else_clause else []
        return ast.For(a, iters, b, o)

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition), self.body(n.body), self.body(n.else_clause) if n.else_clause else [])

    def s_IfStatNode(self, n):
        orelse = self.body(n.else_clause) if n.else_clause else []
        for c in reversed(n.if_clauses):
            orelse = [self.pos(c, ast.If(self.e(c.condition), self.body(c.body), orelse))]
        return orelse

    def s_GILStatNode(self, n):
        return self.body(n.body)

    def s_ReturnStatNode(self, n):
        v = None
        if n.value is not None:
            v, vt = self.et(n.value)
            rt = self.cur_ret
            if rt is not None and rt[0] == "c" and rt != vt and rt[1] != "void":
                if self.isint(rt) and not self.isint(vt):
                    v = self.pos(n, self.call("__coerce__", ast.Constant(rt[1]), v))
        return ast.Return(v)

    def s_ExprStatNode(self, n):
        return ast.Expr(self.e(n.expr))

    def s_PrintStatNode(self, n):
        return ast.Expr(self.call("print", *[self.e(a) for a in n.arg_tuple.args]))

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.e(n.exc_type) if n.exc_type else None, None)

    def s_DelStatNode(self, n):
        return ast.Delete([self.target(a)[0] for a in n.args])

    def s_AssertStatNode(self, n):
        c = getattr(n, "condition", None) or getattr(n, "cond", None)
        return ast.Assert(self.e(c), None)

    def s_TryFinallyStatNode(self, n):
        return self.body(n.body) + self.body(n.finally_clause)

    def s_TryExceptStatNode(self, n):
        raise Unsupported("try/except")

    # ---- definitions
    def func(self, n, directives):
        self.types = {}
        self.directives = directives
        if cn(n) == "CFuncDefNode":
            d = n.declarator
            ret = n.base_type
            dd = d
            rdecl = None
            while cn(dd) != "CFuncDeclaratorNode":
                rdecl = dd
                dd = dd.base
            name = declname(dd.base)
            rett = ctype_of(ret, rdecl if cn(d) == "CPtrDeclaratorNode" else None)
            args = dd.args
            kind = "cdef"
        else:
            name, args, rett, kind = n.name, n.args, None, "def"
        self.cur_ret = rett
        params = []
        for a in args:
            d = a.declarator
            nm = declname(d)
            base = a.base_type
            if not nm:                                # untyped argument: the name is parsed as the type
                nm, t = base.name, ("obj",)
            else:
                t = ctype_of(base, d)
            default = self.e(a.default) if a.default is not None else None
            self.types[nm] = t
            params.append((nm, t, default))
        # declarations first (C locals are function scoped)
        self.predeclare(n.body)
        body = self.body(n.body)
        node = ast.FunctionDef(name, None, body, [])
        self.pos(n, node)
        node._ctypes = dict(self.types)
        return CFunc(name, node, params, rett, kind, dict(directives), n.pos[1])

    def predeclare(self, n):
        k = cn(n)
        if k == "CVarDefNode":
            for d in n.declarators:
                self.types[declname(d)] = ctype_of(n.base_type, d)
        if hasattr(n, "child_attrs"):
            for a in n.child_attrs or []:
                v = getattr(n, a, None)
                if v is None:
                    continue
                for c in (v if isinstance(v, list) else [v]):
                    if hasattr(c, "child_attrs") and "Stat" in cn(c) or cn(c) in ("CVarDefNode", "IfClauseNode"):
                        self.predeclare(c)


def load(path):
    t = parse_tree(path)
    m = Module(path)
    m.cdecls = {}
    c = Conv(m)
    defs = []

    def top(n):
        k = cn(n)
        if k == "StatListNode":
            for s in n.stats:
                top(s)
        elif k in ("CFuncDefNode", "DefNode"):
            defs.append((n, {}))
        elif k == "CompilerDirectivesNode":
            top(n.body)
        elif k == "CDefExternNode":
            ext(n.body)
        elif k == "SingleAssignmentNode" and cn(n.lhs) == "NameNode":
            try:
                m.consts[n.lhs.name] = c.e(n.rhs)
            except Unsupported:
                pass
        elif k == "CVarDefNode":
            for d in n.declarators:
                ct = ctype_of(n.base_type, d)
                x = d
                while not hasattr(x, "name"):
                    x = x.base
                if getattr(x, "default", None) is not None and ct[0] == "c":
                    m.cvars[declname(d)] = (ct, c.e(x.default))
        elif k in ("CImportStatNode", "FromCImportStatNode", "FromImportStatNode", "ExprStatNode", "PassStatNode",
                   "CTypeDefNode", "CStructOrUnionDefNode", "IfStatNode"):
            pass
        else:
            raise Unsupported("top level %s" % k)

    def ext(n):
        k = cn(n)
        if k == "StatListNode":
            for s in n.stats:
                ext(s)
        elif k == "CVarDefNode":
            for d in n.declarators:
                m.externs[declname(d)] = ctype_of(n.base_type)

    top(t.body)
    # forward declarations of return types
    for n, _ in defs:
        if cn(n) == "CFuncDefNode":
            d = n.declarator
            rdecl = d if cn(d) == "CPtrDeclaratorNode" else None
            dd = d
            while cn(dd) != "CFuncDeclaratorNode":
                dd = dd.base
            m.cdecls[declname(dd.base)] = ctype_of(n.base_type, rdecl)
    m.errors = {}
    for n, _ in defs:
        dirs = {}
        for dec in (n.decorators or []):
            x = dec.decorator
            if cn(x) == "SimpleCallNode" and cn(x.function) == "AttributeNode":
                dirs[x.function.attribute] = getattr(x.args[0], "value", None)
        try:
            f = c.func(n, dirs)
        except Unsupported as ex:
            nm = getattr(n, "name", None) or declname(n.declarator.base if hasattr(n, "declarator") else n)
            m.errors[nm] = str(ex)
            continue
        if f.name in m.funcs:
            m.dups.append(f.name)
        m.funcs[f.name] = f
    return m


if __name__ == "__main__":
    import sys
    for p in sys.argv[1:]:
        m = load(p)
        print("#", p, len(m.funcs), "functions; errors:", m.errors, "dups:", m.dups)
        if len(sys.argv) == 2:
            for f in m.funcs.values():
                print("# params", [(a, b) for a, b, _ in f.params], "->", f.rettype, f.directives)
                f.node.args = ast.arguments([], [ast.arg(a) for a, _, _ in f.params], None, [], [], None, [])
                print(ast.unparse(ast.fix_missing_locations(f.node)))
