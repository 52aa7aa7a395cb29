"""Symbolic execution of the extracted functions and generation of proof obligations.

Every function body is executed for arbitrary inputs.  Loops over symbolic ranges are never unrolled: a
candidate closed form (invariant) is computed for every location the body changes and then *verified*
inductively (entry + preservation); what has no closed form is covered by the invariant supplied with
the function's contract, or by machine-found bounds, verified the same way, and havocked.
"""
import ast
import os
import sys
import types
import inspect
import builtins
from values import *
from smt import Ctx, simp, simp_f, prove, prove_zero, declare_array, ARR
import smt

LIBC_CONST = {"RAND_MAX", "DBL_MAX", "DBL_MIN", "FLT_MAX", "FLT_MIN"}
DBG = os.environ.get("VDEBUG")


class MergeFail(Exception):
    pass


class Fork(Exception):
    """abandon this run; the driver re-executes with one more decision"""


class PathInfeasible(Exception):
    pass


class ReturnSig(Exception):
    pass


class Frame:
    def __init__(self, finfo):
        self.env = {}
        self.f = finfo
        self.globals_written = set()


class FInfo:
    """an executable function: AST + module + C typing"""

    def __init__(self, name, node, module, params=None, ctypes=None, cy=None, rettype=None, directives=None):
        self.name, self.node, self.module = name, node, module
        self.params, self.ctypes, self.cy = params, ctypes or {}, cy
        self.rettype, self.directives = rettype, directives or {}
        self.closure = None

    @property
    def qual(self):
        return "%s.%s" % (self.module.__name__.split(".")[-1] if self.module else "?", self.name)


class Obl:
    __slots__ = ("name", "kind", "ok", "how", "where", "time", "refuted", "model")

    def __init__(self, name, kind, ok, how, where, time, refuted=False, model=""):
        self.name, self.kind, self.ok, self.how, self.where, self.time = name, kind, ok, how, where, time
        self.refuted, self.model = refuted, model


class Program:
    """sources of the code under verification: resolves functions to ASTs"""

    def __init__(self, root):
        self.root = root            # directory containing the 'sidetopics' package (freshly built copy)
        self.pyast = {}
        self.cymods = {}
        self.cyfuncs = {}

    def cymod(self, module):
        nm = module.__name__
        if nm not in self.cymods:
            import frontend_cy
            path = os.path.join(self.root, *nm.split(".")) + ".pyx"
            self.cymods[nm] = frontend_cy.load(path)
        return self.cymods[nm]

    def is_cython_module(self, module):
        return isinstance(module, types.ModuleType) and module.__name__.startswith("sidetopics") and \
            (getattr(module, "__file__", "") or "").endswith(".so")

    def cyfunc(self, module, name):
        key = (module.__name__, name)
        if key not in self.cyfuncs:
            m = self.cymod(module)
            if name in m.funcs:
                f = m.funcs[name]
                self.cyfuncs[key] = FInfo(name, f.node, module, f.params, f.node._ctypes, m, f.rettype, f.directives)
            elif name in m.errors:
                raise Unsupported("cannot extract %s: %s" % (name, m.errors[name]))
            else:
                self.cyfuncs[key] = None
        return self.cyfuncs[key]

    def pyfunc(self, fn):
        """FInfo of a plain Python function object defined in sidetopics"""
        code = fn.__code__
        fname = code.co_filename
        if fname not in self.pyast:
            with open(fname, encoding="utf8") as f:
                self.pyast[fname] = ast.parse(f.read())
        tree = self.pyast[fname]
        best = None
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                nm = n.name if isinstance(n, ast.FunctionDef) else "<lambda>"
                lines = [n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])]
                if nm == code.co_name and code.co_firstlineno in lines:
                    best = n
        if best is None:
            raise Unsupported("no source for " + fn.__qualname__)
        fi = FInfo(fn.__qualname__, best, sys.modules[fn.__module__])
        fi.pyfn = fn
        return fi


class SFunc:
    """function defined while interpreting (closure / lambda)"""

    def __init__(self, node, frame, defaults, kwdefaults):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults


class SBound:
    """method of a symbolic value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = P(lo), P(hi), P(step)


class SEnum:
    def __init__(self, arr, start=0):
        self.arr, self.start = arr, start


class Eng:
    def __init__(self, prog, opts=None):
        self.filters, self.shuffles, self.witnesses = [], [], []
        self.weak = set()              # arbitrary contents put in place of values that no invariant describes
        self.draws = {}                # ghost: parameters of the random vectors drawn
        self.prog = prog
        self.opts = opts or {}
        self.log = []
        self.logging = True
        self.ctx = Ctx()
        self.obls = []
        self.trial = 0
        self.loopvars = []
        self.trace = []
        self.tpos = 0
        self.pending = []
        self.havoc_names = set()
        self.invariants = {}
        self.globals = {}              # module-level settings a contract gives a value of its own
        self.frames = []
        self.contracts = {}        # (module name, func name) -> ContractStub used at calls
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.line = 0
        self.fresh_ctr = 0
        self.loop_cache = {}
        self.depth = 0
        self.printed = 0
        self.allow_raise = True
        self.sites = {}
        self.site_ids = {}
        self.inv_used = 0
        self.quick = {}
        self.scratch = ()
        self.watch = {}
        self.rough = 0
        self.lines = []
        self.squeezed = []
        self.stats = {"loops_summarised": 0, "loops_invariant": 0, "functions": set()}

    # ------------------------------------------------------------ facts, symbols
    def assume(self, *fs):
        self.ctx = self.ctx.extend(*fs)

    def fresh(self, prefix, sort="I", facts=None, dep=True, havoc=False):
        """a fresh value; inside loops it is a function of the loop variables"""
        nm = self.site_name(prefix)
        lv = [P(v) for v in self.loopvars] if dep else []
        if facts is not None:
            ats = list(self.loopvars) if dep else []

            def fx(idx, nm=nm, ats=ats):
                m = {a: i for a, i in zip(ats, idx) if P(a) is not i}
                return [subst(f, m) if m else f for f in facts(sel(nm, lv, sort))]
            declare_array(nm, sort, fx)
        if lv or facts is not None:
            return sel(nm, lv, sort)
        return P(var(nm, sort))

    def fresh_array(self, prefix, dims, dtype, facts=None, sort=None, havoc=False):
        """array with unknown content; facts(idx list, value Poly) -> [F], assumed for in-range idx"""
        nm = self.site_name(prefix)
        lv = [P(v) for v in self.loopvars]
        n = len(dims)
        srt = sort or ("I" if dtype in INTD else "R")
        dims = [P(d) for d in dims]
        if facts is not None:
            def fx(idx, nm=nm, k=len(lv), dims=dims):
                ix = idx[k:]
                m = {v.as_atom(): idx[j] for j, v in enumerate(lv)}
                rng = And(*[And(P(0) <= i, i < subst(d, m)) for i, d in zip(ix, dims)])
                return [Implies(rng, subst(f, m)) if m else Implies(rng, f) for f in facts(ix, sel(nm, idx, srt))]
            declare_array(nm, srt, fx)
        return sel(nm, lv + formals(n), srt)

    def obl(self, name, f, kind="assert", depth=4):
        """record and discharge an obligation in the current context"""
        if self.trial:
            return True
        import time
        f = B(f)
        t0 = time.time()
        ok, how = prove(f, self.ctx, depth)
        refuted, model = False, ""
        if not ok:
            try:
                st, model = self.ctx.model_of_negation(simp_f(f, self.ctx))
                refuted = st == "sat"
            except Exception as e:      # solver trouble: simply not refuted
                model = str(e)
            if self.weak and (f.deep & self.weak or simp_f(f, self.ctx).deep & self.weak):
                raise Unsupported("%s: depends on a loop without a closed form (%s)" % (name, how[:300]))
        self.obls.append(Obl(name, kind, ok, how, "%s:%s" % (self.curname(), self.line), time.time() - t0, refuted, model))
        if DBG and not ok:
            import smt
            if DBG == "2":
                smt.DUMP = True
                self.ctx.extend(Not(f)).consistent()
                smt.DUMP = False
                for c in self.ctx.all:
                    print("   CTX", c, file=sys.stderr)
            print("  OBL FAIL", name, self.curname(), self.line, how[:int(os.environ.get("RW", "1500"))], file=sys.stderr)
        return ok

    def curname(self):
        return self.frames[-1].f.qual if self.frames else "?"

    # ------------------------------------------------------------ state cells
    def setcell(self, cell, val):
        kind, obj, key = cell
        if kind == "env":
            old = obj.env.get(key, _MISSING)
            if val is _MISSING:
                obj.env.pop(key, None)
            else:
                obj.env[key] = val
        elif kind == "attr":
            old = obj.__dict__.get(key, _MISSING)
            if val is _MISSING:
                obj.__dict__.pop(key, None)
            else:
                obj.__dict__[key] = val
        elif kind == "buf":
            old = obj.body
            obj.body = val
        elif kind == "seq":
            old = list(obj)
            obj[:] = val
        elif kind == "map":
            old = obj.get(key, _MISSING)
            if val is _MISSING:
                obj.pop(key, None)
            else:
                obj[key] = val
        elif kind == "obj":          # generic attribute of an engine object (SCsr fields)
            old = getattr(obj, key)
            setattr(obj, key, val)
        if self.logging:
            self.log.append((cell, old))

    def getcell(self, cell):
        kind, obj, key = cell
        if kind == "env":
            return obj.env.get(key, _MISSING)
        if kind == "attr":
            return obj.__dict__.get(key, _MISSING)
        if kind == "buf":
            return obj.body
        if kind == "seq":
            return list(obj)
        if kind == "map":
            return obj.get(key, _MISSING)
        return getattr(obj, key)

    def changed_since(self, mark):
        """{cellkey: (cell, old value)} of the first change since mark"""
        d = {}
        for cell, old in self.log[mark:]:
            k = (cell[0], id(cell[1]), cell[2])
            if k not in d:
                d[k] = (cell, old)
        return d

    def rollback(self, mark):
        lg = self.logging
        self.logging = False
        try:
            while len(self.log) > mark:
                cell, old = self.log.pop()
                self.setcell(cell, old)
        finally:
            self.logging = lg

    # ------------------------------------------------------------ deciding conditions
    def truth(self, v):
        """python truth -> bool or F"""
        if isinstance(v, (bool, int, float, str, list, tuple, dict, set, type(None), range)):
            if isinstance(v, float) or not isinstance(v, tuple):
                return bool(v)
            return len(v) > 0
        if isinstance(v, F):
            g = simp_f(v, self.ctx)
            return True if g is TRUE else False if g is FALSE else g
        if isinstance(v, Poly):
            return self.truth(Not(v.eq(ZERO)))
        if isinstance(v, (SArr, SCsr)):
            if isinstance(v, SArr) and v.ndim == 0:
                return self.truth(v.get(()))
            raise Unsupported("truth of an array")
        if isinstance(v, Undef):
            raise Unsupported("use of " + v.why)
        return bool(v)

    def decide(self, v):
        """a concrete boolean, forking the path when needed"""
        g = self.truth(v)
        if isinstance(g, bool):
            return g
        return self.fork(g)

    def fork(self, g):
        if self.loopvars or self.trial:
            raise Unsupported("undecided condition inside a loop: " + show_f(g)[:200])
        if self.tpos < len(self.trace):
            d = self.trace[self.tpos]
        else:
            d = True
            self.pending.append(self.trace[:self.tpos] + [False])
            self.trace.append(True)
        self.tpos += 1
        self.assume(g if d else Not(g))
        return d

    # ------------------------------------------------------------ calling functions
    def call_finfo(self, fi, args, kwargs):
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        fr = Frame(fi)
        if fi.params is not None:
            names = [p[0] for p in fi.params]
            for i, a in enumerate(args):
                if i >= len(names):
                    raise InterpRaise("TypeError", "%s() takes %d positional arguments" % (fi.name, len(names)))
                fr.env[names[i]] = a
            for k, v in kwargs.items():
                if k not in names:
                    raise InterpRaise("TypeError", "%s() got an unexpected keyword argument %s" % (fi.name, k))
                if k in fr.env:
                    raise InterpRaise("TypeError", "multiple values for " + k)
                fr.env[k] = v
            for nm, t, d in fi.params:
                if nm not in fr.env:
                    if d is None:
                        raise InterpRaise("TypeError", "%s() missing argument %s" % (fi.name, nm))
                    fr.env[nm] = self.eval_in(d, Frame(fi))
                fr.env[nm] = self.coerce_arg(t, fr.env[nm], nm)
            body = fi.node.body
        else:
            a = fi.node.args
            fn = getattr(fi, "pyfn", None)
            sf = getattr(fi, "sfunc", None)
            pos = [x.arg for x in a.posonlyargs + a.args]
            if sf is not None:
                dflt = dict(zip(pos[len(pos) - len(sf.defaults):], sf.defaults))
                kwd = sf.kwdefaults
            else:
                d = fn.__defaults__ or ()
                dflt = dict(zip(pos[len(pos) - len(d):], d))
                kwd = fn.__kwdefaults__ or {}
            kwonly = [x.arg for x in a.kwonlyargs]
            extra = list(args[len(pos):])
            if extra and a.vararg is None:
                raise InterpRaise("TypeError", "%s() takes %d positional arguments but %d were given" % (fi.name, len(pos), len(args)))
            for nm, v in zip(pos, args):
                fr.env[nm] = v
            more = {}
            for k, v in kwargs.items():
                if k in pos or k in kwonly:
                    if k in fr.env:
                        raise InterpRaise("TypeError", "multiple values for argument " + k)
                    fr.env[k] = v
                elif a.kwarg is not None:
                    more[k] = v
                else:
                    raise InterpRaise("TypeError", "%s() got an unexpected keyword argument '%s'" % (fi.name, k))
            for nm in pos:
                if nm not in fr.env:
                    if nm not in dflt:
                        raise InterpRaise("TypeError", "%s() missing argument '%s'" % (fi.name, nm))
                    fr.env[nm] = dflt[nm]
            for nm in kwonly:
                if nm not in fr.env:
                    if nm not in kwd:
                        raise InterpRaise("TypeError", "%s() missing keyword argument '%s'" % (fi.name, nm))
                    fr.env[nm] = kwd[nm]
            if a.vararg is not None:
                fr.env[a.vararg.arg] = tuple(extra)
            if a.kwarg is not None:
                fr.env[a.kwarg.arg] = more
            body = fi.node.body if isinstance(fi.node, ast.FunctionDef) else [ast.Return(fi.node.body)]
        return self.run_frame(fr, body)

    def run_frame(self, fr, body):
        self.stats["functions"].add(fr.f.qual)
        fr.body = body
        self.frames.append(fr)
        self.depth += 1
        line = self.line
        self.lines.append(line)
        try:
            st, val = self.block(body, 0, fr)
        finally:
            self.frames.pop()
            self.lines.pop()
            self.depth -= 1
            self.line = line
        return val if st == "ret" else None

    def coerce_arg(self, t, v, nm):
        if t is None or t[0] in ("obj", "named", "ptr"):
            return v
        if t[0] in ("mv", "buf"):
            if v is None:
                return v
            if isinstance(v, SArr):
                if v.ndim != t[2]:
                    raise InterpRaise("ValueError", "Buffer has wrong number of dimensions")
                want = CDT.get(t[1][1]) if t[1][0] == "c" else None
                if want and v.dtype != want and not (want == "b" or v.dtype == "O"):
                    raise InterpRaise("ValueError", "Buffer dtype mismatch for %s: %s vs %s" % (nm, want, v.dtype))
                return v
            if isinstance(v, SCsr):
                raise InterpRaise("TypeError", "a bytes-like object is required")
            return v
        if t[0] == "c":
            return self.coerce_c(t[1], v)
        return v

    def coerce_c(self, ty, v):
        if isinstance(v, SArr) and v.ndim == 0:
            v = v.get(())
        if ty == "bint":
            if isinstance(v, F):
                return v
            if isinstance(v, Poly):
                return self.truth(v) if v.const() is None else bool(v.const())
            return bool(v)
        if ty in ("double", "float"):
            if isinstance(v, bool):
                return float(v)
            if isinstance(v, F):
                return ind(v)
            if isinstance(v, int):
                return float(v)
            return v
        if ty == "void":
            return v
        # integer target: truncation towards zero
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, F):
            return ind(v)
        if isinstance(v, float):
            return int(v)
        if isinstance(v, Poly) and not v.is_int:
            return self.trunc(v)
        return v

    def trunc(self, v):
        v = simp(v, self.ctx)
        if v.is_int:
            return concretise(v)
        if self.ctx.nonneg(v):
            return floor_(v)
        return Ite(v >= P(0), floor_(v), -floor_(-v))

    # ------------------------------------------------------------ statements
    def block(self, stmts, i, fr):
        """execute stmts[i:]; -> ('next'|'ret'|'break'|'cont', value)"""
        while i < len(stmts):
            s = stmts[i]
            self.line = getattr(s, "lineno", self.line)
            if isinstance(s, ast.If):
                st = self.exec_if(s, stmts, i, fr)
                if st[0] == "merged":        # whole rest of the block was executed on both sides
                    return st[1]
                if st[0] != "next":
                    return st
                i += 1
                continue
            st = self.stmt(s, fr)
            if st is not None and st[0] != "next":
                return st
            i += 1
        return ("next", None)

    def exec_if(self, s, stmts, i, fr):
        g = self.truth(self.ev(s.test, fr))
        if isinstance(g, bool):
            return self.block(s.body if g else s.orelse, 0, fr)
        return self.split(g, lambda: self.block(s.body, 0, fr), lambda: self.block(s.orelse, 0, fr),
                          lambda: self.block(stmts, i + 1, fr), fr, stmts is getattr(fr, "body", None))

    def split(self, g, f1, f2, cont, fr, top=False):
        mark = len(self.log)
        ctx0 = self.ctx
        pend0, tr0, tp0 = len(self.pending), list(self.trace), self.tpos
        nobl = len(self.obls)
        lv = self.loopvars

        def one(cond, f):
            self.ctx = ctx0.extend(cond)
            if not self.ctx.consistent():
                raise PathInfeasible()
            sub = self.allow_raise
            self.nofork = getattr(self, "nofork", 0) + 1
            try:
                return f()
            finally:
                self.nofork -= 1

        try:
            try:
                r1 = one(g, f1)
            except PathInfeasible:
                self.rollback(mark)
                self.ctx = ctx0.extend(Not(g))
                return f2()
            except InterpRaise as e:
                r1 = ("raise", e)
            if r1[0] not in ("next", "raise"):
                # early exit on this side: run the other side together with the rest of the block
                return self._early(g, r1, f2, cont, mark, ctx0, fr, top=top)
            end1 = self.capture(mark)
            self.rollback(mark)
            try:
                r2 = one(Not(g), f2)
            except PathInfeasible:
                self.rollback(mark)
                self.restore(end1)
                self.ctx = ctx0.extend(g)
                if r1[0] == "raise":
                    raise r1[1]
                return r1
            except InterpRaise as e:
                r2 = ("raise", e)
            if r1[0] == "raise" or r2[0] == "raise":
                if r1[0] == "raise" and r2[0] == "raise" and r1[1].exc == r2[1].exc:
                    raise r1[1]
                # one side raises: it must be unreachable inside a loop, a separate path otherwise
                if self.loopvars or self.trial:
                    bad = g if r1[0] == "raise" else Not(g)
                    self.ctx = ctx0
                    exc = r1[1] if r1[0] == "raise" else r2[1]
                    self.obl("no %s" % exc, Not(bad), kind="exception")
                    self.rollback(mark)
                    self.ctx = ctx0.extend(Not(bad))
                    if r1[0] == "raise":
                        return f2()
                    self.restore(end1)
                    return r1
                raise MergeFail()
            if r2[0] != "next":
                end2 = None
                self.rollback(mark)
                self.restore(end1)
                self.rollback(mark)
                return self._early(Not(g), None, f1, cont, mark, ctx0, fr, rerun=f2, top=top)
            end2 = self.capture(mark)
            self.rollback(mark)
            self.ctx = ctx0
            self.merge(g, end1, end2, mark)
            return ("next", None)
        except MergeFail:
            self.rollback(mark)
            self.ctx = ctx0
            del self.obls[nobl:]
            del self.pending[pend0:]
            self.trace[:] = tr0
            self.tpos = tp0
            d = self.fork(g)
            return f1() if d else f2()

    def _early(self, g, r1, f2, cont, mark, ctx0, fr, rerun=None, top=False):
        """branch g ends in return/break/continue; the other branch continues with the rest of the block"""
        if rerun is not None:
            self.ctx = ctx0.extend(g)
            r1 = rerun()
        if r1[0] == "break":
            raise MergeFail()
        end1 = self.capture(mark)
        self.rollback(mark)
        self.ctx = ctx0.extend(Not(g))
        feasible = self.ctx.consistent()
        if not feasible:
            self.restore(end1)
            self.ctx = ctx0
            return r1
        if r1[0] == "ret" and self.loopvars and self.in_own_loop(fr):
            # returning out of a symbolic loop: acceptable only if it cannot happen
            self.ctx = ctx0
            ok = self.obl("early return out of the loop is unreachable", Not(g), kind="unreachable")
            self.ctx = ctx0.extend(Not(g))
            r2 = f2()
            if r2[0] != "next":
                return r2
            return ("next", None)
        r2 = f2()
        if r2[0] == "next":
            r2 = cont()
        kind1, kind2 = r1[0], r2[0]
        if kind2 == "next":
            kind2 = "ret" if kind1 == "ret" and top else "next"
        if kind1 == "cont" and kind2 in ("next", "cont"):
            end2 = self.capture(mark)
            self.rollback(mark)
            self.ctx = ctx0
            self.merge(g, end1, end2, mark)
            return ("merged", (r2[0], None))
        if kind1 == "ret" and kind2 == "ret":
            end2 = self.capture(mark)
            self.rollback(mark)
            self.ctx = ctx0
            v = self.merge_val(g, r1[1], r2[1] if r2[0] == "ret" else None, mark)
            self.merge(g, {k: c for k, c in end1.items() if not self.local_cell(c, fr)},
                       {k: c for k, c in end2.items() if not self.local_cell(c, fr)}, mark)
            return ("merged", ("ret", v))
        raise MergeFail()

    def local_cell(self, c, fr):
        return c[0][0] == "env" and c[0][1] is fr

    def in_own_loop(self, fr):
        return getattr(fr, "loops", 0) > 0

    def capture(self, mark):
        return {k: (cell, self.getcell(cell)) for k, (cell, old) in self.changed_since(mark).items()}

    def restore(self, end):
        for cell, v in end.values():
            self.setcell(cell, v)

    def merge(self, g, end1, end2, mark):
        for k in list(dict.fromkeys(list(end1) + list(end2))):
            cell = (end1.get(k) or end2.get(k))[0]
            v1 = end1[k][1] if k in end1 else self.getcell(cell)
            v2 = end2[k][1] if k in end2 else self.getcell(cell)
            self.setcell(cell, self.merge_val(g, v1, v2, mark, cell))

    def merge_val(self, g, v1, v2, mark, cell=None):
        if v1 is v2:
            return v1
        if v1 is _MISSING or v2 is _MISSING or isinstance(v1, Undef) or isinstance(v2, Undef):
            return Undef("variable assigned on one path only")
        if isinstance(v1, (bool, F)) and isinstance(v2, (bool, F)):
            return simp_f(Ite(g, B(v1), B(v2)), self.ctx)
        if isinstance(v1, (int, float, Poly, F)) and isinstance(v2, (int, float, Poly, F)):
            if type(v1) is type(v2) and not isinstance(v1, (Poly, F)) and v1 == v2:
                return v1
            return simp(Ite(g, P(v1), P(v2)), self.ctx)
        if isinstance(v1, SArr) and isinstance(v2, SArr):
            if v1.buf is v2.buf and v1.axes == v2.axes and v1.shape_ == v2.shape_:
                return v1
            if v1.buf.epoch_ok(mark) and v2.buf.epoch_ok(mark) if hasattr(v1.buf, "epoch_ok") else False:
                pass
            raise MergeFail()
        if isinstance(v1, tuple) and isinstance(v2, tuple) and len(v1) == len(v2) and type(v1) is type(v2):
            vs = [self.merge_val(g, a, b, mark) for a, b in zip(v1, v2)]
            return type(v1)(*vs) if hasattr(v1, "_fields") else tuple(vs)
        if isinstance(v1, list) and isinstance(v2, list) and len(v1) == len(v2):
            return [self.merge_val(g, a, b, mark) for a, b in zip(v1, v2)]
        try:
            if type(v1) is type(v2) and bool(v1 == v2):
                return v1
        except Exception:
            pass
        raise MergeFail()

    def stmt(self, s, fr):
        t = type(s).__name__
        m = getattr(self, "st_" + t, None)
        if m is None:
            raise Unsupported("statement " + t)
        return m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        return None

    def st_Break(self, s, fr):
        return ("break", None)

    def st_Continue(self, s, fr):
        return ("cont", None)

    def st_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else None
        return ("ret", v)

    def st_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            self.setcell(("env", fr, a.asname or a.name.split(".")[0]), m if a.asname else sys.modules[a.name.split(".")[0]])

    def st_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            self.setcell(("env", fr, a.asname or a.name), getattr(m, a.name))

    def st_Global(self, s, fr):
        raise Unsupported("global statement")

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setcell(("env", fr, t.id), _MISSING)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                if isinstance(o, dict):
                    self.setcell(("map", o, k), _MISSING)
                else:
                    raise Unsupported("del item")
            else:
                raise Unsupported("del")

    def st_Assert(self, s, fr):
        g = self.truth(self.ev(s.test, fr))
        if g is True:
            return None
        if g is False:
            raise InterpRaise("AssertionError")
        self.obl("assert statement", g, kind="assert")
        self.assume(g)

    def st_Raise(self, s, fr):
        if s.exc is None:
            raise InterpRaise("RuntimeError", "re-raise")
        e = s.exc
        name = None
        if isinstance(e, ast.Call):
            name = ast.unparse(e.func)
        else:
            name = ast.unparse(e)
        raise InterpRaise(name, "")

    def st_FunctionDef(self, s, fr):
        d = [self.ev(x, fr) for x in s.args.defaults]
        kd = {a.arg: self.ev(x, fr) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        self.setcell(("env", fr, s.name), SFunc(s, fr, d, kd))

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AugAssign(self, s, fr):
        import npmodel
        t = s.target
        v = self.ev(s.value, fr)
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            if isinstance(cur, SArr):
                npmodel.inplace(self, cur, type(s.op).__name__, v)
                return
            if isinstance(cur, SCsr):
                raise Unsupported("in-place operator on a sparse matrix")
            if isinstance(cur, list) and isinstance(s.op, ast.Add):
                self.setcell(("seq", cur, None), list(cur) + list(v))
                return
            self.assign(t, self.binop(type(s.op).__name__, cur, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            if isinstance(cur, SArr):
                npmodel.inplace(self, cur, type(s.op).__name__, v)
                return
            self.setattr(o, t.attr, self.binop(type(s.op).__name__, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            cur = self.getitem(o, k)
            if isinstance(cur, SArr) and cur.ndim > 0 and isinstance(o, SArr) and cur.buf is o.buf:
                npmodel.inplace(self, cur, type(s.op).__name__, v)
                return
            self.setitem(o, k, self.binop(type(s.op).__name__, cur, v))
        else:
            raise Unsupported("augmented assignment target")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if self.rough and isinstance(v, Poly):
                import npmodel
                v = npmodel.rough(self, v)
            self.setcell(("env", fr, t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate_concrete(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                tail = len(t.elts) - k - 1
                vs = list(vs)
                parts = vs[:k] + [vs[k:len(vs) - tail]] + vs[len(vs) - tail:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
                return
            if len(vs) != len(t.elts):
                raise InterpRaise("ValueError", "wrong number of values to unpack")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def iterate_concrete(self, v):
        if isinstance(v, (list, tuple, range, str, set, dict)):
            return list(v)
        if isinstance(v, type({}.keys())) or isinstance(v, type({}.values())) or isinstance(v, type({}.items())):
            return list(v)
        if isinstance(v, SArr):
            n = concretise(simp(v.shape_[0], self.ctx))
            if isinstance(n, int):
                import npmodel
                return [npmodel.getitem(self, v, (i,)) for i in range(n)]
            raise Unsupported("unpacking an array of unknown length")
        if isinstance(v, (zip, enumerate, map)) or hasattr(v, "__next__"):
            return list(v)
        if isinstance(v, SRange):
            n = concretise(simp(v.hi - v.lo, self.ctx))
            st = v.step.const()
            if isinstance(n, int) and st == 1:
                return [concretise(simp(v.lo + k, self.ctx)) for k in range(max(0, n))]
        raise Unsupported("cannot enumerate %r" % (v,))

    # ------------------------------------------------------------ loops
    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        import loops
        return loops.exec_for(self, s, it, fr)

    def st_While(self, s, fr):
        import loops
        return loops.exec_while(self, s, fr)

    def st_With(self, s, fr):
        raise Unsupported("with statement")

    def st_Try(self, s, fr):
        raise Unsupported("try statement")

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    eval_in = ev

    def ex_Constant(self, e, fr):
        return e.value

    def load_name(self, nm, fr):
        f = fr
        v = fr.env.get(nm, _MISSING)
        if v is not _MISSING:
            if isinstance(v, Undef):
                raise Unsupported("use of %s (%s)" % (nm, v.why))
            return v
        clo = getattr(fr, "closure", None)
        while clo is not None:
            v = clo.env.get(nm, _MISSING)
            if v is not _MISSING:
                return v
            clo = getattr(clo, "closure", None)
        fi = fr.f
        pyfn = getattr(fi, "pyfn", None)
        if pyfn is not None and pyfn.__closure__ and nm in pyfn.__code__.co_freevars:
            return pyfn.__closure__[pyfn.__code__.co_freevars.index(nm)].cell_contents
        mod = fi.module
        if fi.cy is not None:
            if nm in fi.ctypes and fi.ctypes[nm][0] == "c":
                # an uninitialised C local: arbitrary value
                raise Unsupported("use of uninitialised C variable " + nm)
            if nm in fi.cy.funcs:
                return self.prog.cyfunc(mod, nm)
            if nm in LIBC_CONST:
                return self.libc_const(nm)
            if nm in fi.cy.cvars:
                import re
                if re.search(r"^\s+global\b.*\b%s\b" % nm, open(fi.cy.path, encoding="utf8").read(), re.M):
                    raise Unsupported("C variable %s is assigned by a function" % nm)
                ct, x = fi.cy.cvars[nm]
                return self.coerce_c(ct[1], self.ev(x, fr))
            if nm in ("rand", "srand", "log", "exp", "sqrt", "fabs", "malloc", "free", "fastexp", "FastExp") or nm in fi.cy.externs:
                return ("libc", nm)
        if mod is not None and hasattr(mod, nm):
            g = self.globals.get(mod.__name__ + "." + nm, _MISSING) if self.globals else _MISSING
            return getattr(mod, nm) if g is _MISSING else g
        if hasattr(builtins, nm):
            return getattr(builtins, nm)
        if nm.startswith("__") and nm.endswith("__"):
            return ("marker", nm)
        if fi.cy is not None and nm == "np":
            import numpy
            return numpy
        raise InterpRaise("NameError", nm)

    def libc_const(self, nm):
        import npmodel
        return npmodel.libc_const(nm)

    def ex_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def ex_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getattr(o, e.attr)

    def ex_Tuple(self, e, fr):
        return tuple(self.ev_list(e.elts, fr))

    def ex_List(self, e, fr):
        return self.ev_list(e.elts, fr)

    def ev_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate_concrete(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Set(self, e, fr):
        return set(self.ev_list(e.elts, fr))

    def ex_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def ex_Lambda(self, e, fr):
        return SFunc(e, fr, [self.ev(x, fr) for x in e.args.defaults], {})

    def ex_JoinedStr(self, e, fr):
        return "<formatted>"

    def ex_Starred(self, e, fr):
        raise Unsupported("starred")

    def ex_IfExp(self, e, fr):
        g = self.truth(self.ev(e.test, fr))
        if isinstance(g, bool):
            return self.ev(e.body if g else e.orelse, fr)
        ctx0 = self.ctx
        mark = len(self.log)
        try:
            self.ctx = ctx0.extend(g)
            a = self.ev(e.body, fr)
            self.ctx = ctx0.extend(Not(g))
            b = self.ev(e.orelse, fr)
            self.ctx = ctx0
            return self.merge_val(g, a, b, mark)
        except (MergeFail, InterpRaise):
            self.rollback(mark)
            self.ctx = ctx0
            return self.ev(e.body if self.fork(g) else e.orelse, fr)

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            ctx0 = self.ctx
            if acc is not None:
                self.ctx = ctx0.extend(acc if isand else Not(acc))
            v = self.ev(x, fr)
            self.ctx = ctx0
            g = self.truth(v)
            if isinstance(g, bool):
                if acc is None:
                    if g != isand:
                        return v
                    if i == len(e.values) - 1:
                        return v
                    continue
                if g != isand:
                    return (acc if False else g) if acc is None else (FALSE if isand else TRUE)
                continue
            acc = g if acc is None else (And(acc, g) if isand else Or(acc, g))
        return acc

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            g = self.truth(v)
            return (not g) if isinstance(g, bool) else Not(g)
        if isinstance(v, (SArr, SCsr)) or type(v).__name__ == "SMasked":
            import npmodel
            return npmodel.unary(self, op, v)
        if op == "USub":
            return -v if not isinstance(v, F) else -ind(v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, F):
                return Not(v)
            return ~v
        raise Unsupported("unary " + op)

    def ex_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported("use of an undefined value")
        import npmodel
        if npmodel.arrayish(a) or npmodel.arrayish(b):
            la, lb = getattr(a, "is_list", False), getattr(b, "is_list", False)
            if la and not (npmodel.arrayish(b) and not lb) or lb and not (npmodel.arrayish(a) and not la):
                raise Unsupported("operator %s on a list of symbolic length" % op)
            return npmodel.binary(self, op, a, b)
        if isinstance(a, SObjFresh) or isinstance(b, SObjFresh):
            raise Unsupported("arithmetic on an opaque value")
        if isinstance(a, F):
            a = ind(a)
        if isinstance(b, F):
            b = ind(b)
        if not isinstance(a, Poly) and not isinstance(b, Poly):
            try:
                if op == "Add":
                    return a + b
                if op == "Sub":
                    return a - b
                if op == "Mult":
                    return a * b
                if op == "Div":
                    r = P(a) / P(b) if not isinstance(a, float) and not isinstance(b, float) and b != 0 else None
                    if r is not None:
                        c = r.const()
                        return float(c) if c.denominator in (1, 2, 4, 8, 16) else r
                    return a / b
                if op == "Mod":
                    return a % b if not isinstance(a, str) else "<formatted>"
                if op == "FloorDiv":
                    return a // b
                if op == "Pow":
                    return a ** b
                if op == "BitAnd":
                    return a & b
                if op == "BitOr":
                    return a | b
                if op == "LShift":
                    return a << b
            except ZeroDivisionError as ex:
                raise InterpRaise("ZeroDivisionError", str(ex))
            except TypeError as ex:
                raise InterpRaise("TypeError", str(ex))
            raise Unsupported("operator " + op)
        if isinstance(a, str):
            if op == "Mod" or op == "Add":
                return "<formatted>"
        if isinstance(a, (list, tuple)) and op == "Mult":
            if isinstance(a, list) and len(a) == 1 and isnum(a[0]) and isnum(b) and P(b).is_int:
                import npmodel
                n = P(b) if self.ctx.entails(P(b) >= P(0)) else Ite(P(b) >= P(0), P(b), ZERO)
                r = npmodel.new_arr([n], "i8" if P(a[0]).is_int else "f8", P(a[0]))
                r.is_list = True
                return r
            raise Unsupported("list of symbolic length")
        if not isnum(a) or not isnum(b):
            raise InterpRaise("TypeError", "unsupported operand types")
        return self.num_binop(op, P(a), P(b))

    def num_binop(self, op, a, b):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            return a / b
        if op == "FloorDiv":
            if a.is_int and b.is_int:
                self.require_nonzero(b)
                return fdiv(simp(a, self.ctx), simp(b, self.ctx))
            return floor_(a / b)
        if op == "Mod":
            if a.is_int and b.is_int:
                self.require_nonzero(b)
                return mod(simp(a, self.ctx), simp(b, self.ctx))
            raise Unsupported("float modulo")
        if op == "Pow":
            c = b.const()
            if c is not None and c.denominator == 1:
                return a ** int(c)
            if c is not None and c == Fraction(1, 2):
                return app("sqrt", a)
            return app("pow", a, b)
        raise Unsupported("operator " + op)

    def require_nonzero(self, b):
        if b.const() is None or b.const() == 0:
            self.obl("integer divisor is not zero", Not(b.eq(ZERO)), kind="div")

    CMP = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            elif isinstance(res, bool) and isinstance(r, bool):
                res = res and r
            else:
                res = And(B(res), B(r))
            left = right
        return res

    def compare(self, op, a, b):
        import npmodel
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported("use of an undefined value")
        if op in ("Is", "IsNot"):
            if (isinstance(a, F) or isinstance(b, F)):
                r = B(a).__class__ and Iff(B(a), B(b)) if isinstance(a, (F, bool)) and isinstance(b, (F, bool)) else FALSE
                return r if op == "Is" else Not(r)
            r = a is b or (isinstance(a, (int, str, bool, type(None))) and type(a) is type(b) and a == b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "In":
                return r
            return (not r) if isinstance(r, bool) else Not(r)
        if npmodel.arrayish(a) or npmodel.arrayish(b):
            return npmodel.compare(self, op, a, b)
        if isinstance(a, (Poly, F)) or isinstance(b, (Poly, F)):
            if isinstance(a, (F, bool)) and isinstance(b, (F, bool)) and op in ("Eq", "NotEq"):
                r = Iff(B(a), B(b))
                return r if op == "Eq" else Not(r)
            if not isnum(a) and not isinstance(a, F) or not isnum(b) and not isinstance(b, F):
                if op == "Eq":
                    return False
                if op == "NotEq":
                    return True
                raise InterpRaise("TypeError", "comparison")
            a, b = P(a), P(b)
            return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b,
                    "Eq": lambda: a.eq(b), "NotEq": lambda: Not(a.eq(b))}[op]()
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op in ("Eq", "NotEq"):
            if type(a) is not type(b) and not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
                return op == "NotEq"
            r = TRUE
            for x, y in zip(a, b):
                r = And(r, B(self.compare("Eq", x, y)))
            r = True if r is TRUE else False if r is FALSE else r
            if op == "Eq":
                return r
            return (not r) if isinstance(r, bool) else Not(r)
        dt = npmodel.dtype_compare(a, b)
        if dt is not None:
            return dt if op == "Eq" else not dt
        try:
            return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b,
                    "Eq": lambda: a == b, "NotEq": lambda: a != b}[op]()
        except TypeError as ex:
            raise InterpRaise("TypeError", str(ex))

    def contains(self, c, x):
        if isinstance(c, (list, tuple, set, dict)):
            if isinstance(x, (Poly, F)) or any(isinstance(y, (Poly, F)) for y in c):
                r = FALSE
                for y in c:
                    r = Or(r, B(self.compare("Eq", x, y)))
                return r
            return x in c
        if isinstance(c, str):
            return x in c
        raise Unsupported("membership in %r" % (c,))

    def ex_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev_slice(e.slice, fr)
        return self.getitem(o, k)

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def getitem(self, o, k):
        import npmodel
        if isinstance(o, SArr):
            r = npmodel.getitem(self, o, k if isinstance(k, tuple) else (k,))
            if isinstance(r, SArr) and getattr(o, "is_list", False):
                if not isinstance(k, slice):
                    raise Unsupported("list indexed with an array")
                r = npmodel.copy_arr(self, r)
                r.is_list = True
            return r
        if isinstance(o, SCsr):
            return npmodel.csr_getitem(self, o, k)
        if type(o).__name__ == "SMasked":
            raise Unsupported("indexing a masked selection")
        if isinstance(o, Undef):
            raise Unsupported("use of an undefined value")
        if isinstance(k, Poly):
            k2 = concretise(simp(k, self.ctx))
            if isinstance(k2, int):
                k = k2
            elif isinstance(o, (list, tuple)):
                return self.select_from(o, k)
            else:
                raise Unsupported("symbolic key")
        if isinstance(o, (list, tuple, str, dict, range)) or type(o).__name__ in ("OrderedDict", "defaultdict"):
            if isinstance(k, slice):
                k = slice(*[concretise(x) if isinstance(x, Poly) else x for x in (k.start, k.stop, k.step)])
            try:
                return o[k]
            except IndexError as ex:
                raise InterpRaise("IndexError", str(ex))
            except KeyError as ex:
                raise InterpRaise("KeyError", str(ex))
            except TypeError as ex:
                raise InterpRaise("TypeError", str(ex))
        gi = getattr(type(o), "__getitem__", None)
        if isinstance(gi, types.FunctionType) and (gi.__module__ or "").startswith("sidetopics"):
            return self.call(gi, [o, k], {})
        if isinstance(o, types.ModuleType) or o is None:
            raise InterpRaise("TypeError", "object is not subscriptable")
        raise Unsupported("subscript of %r" % (type(o),))

    def select_from(self, o, k):
        vals = list(o)
        if not vals or not all(isnum(v) for v in vals):
            raise Unsupported("symbolic index into a list")
        r = P(vals[-1])
        for i in range(len(vals) - 2, -1, -1):
            r = Ite(k.eq(P(i)), P(vals[i]), r)
        return r

    def setitem(self, o, k, v):
        import npmodel
        if isinstance(o, SArr):
            if getattr(o, "is_list", False) and isinstance(k, slice):
                n = npmodel.getitem(self, o, (k,)).shape_[0]
                m = v.shape_[0] if isinstance(v, SArr) and getattr(v, "is_list", False) else P(len(v)) if isinstance(v, list) else None
                if m is None or not (self.trial or self.ctx.entails(n.eq(m))):
                    raise Unsupported("assignment that may change the length of a list")
            return npmodel.setitem(self, o, k if isinstance(k, tuple) else (k,), v)
        if isinstance(o, SCsr):
            raise Unsupported("assignment into a sparse matrix")
        if isinstance(k, Poly):
            k = concretise(simp(k, self.ctx))
        if isinstance(o, list) and isinstance(k, int):
            l = list(o)
            try:
                l[k] = v
            except IndexError:
                raise InterpRaise("IndexError", "list assignment index out of range")
            self.setcell(("seq", o, None), l)
            return
        if isinstance(o, dict):
            self.setcell(("map", o, k), v)
            return
        raise Unsupported("item assignment on %r" % (type(o),))

    def getattr(self, o, name):
        import npmodel
        if isinstance(o, Undef):
            raise Unsupported("use of an undefined value")
        if npmodel.arrayish(o):
            return npmodel.attr(self, o, name)
        if isinstance(o, (Poly, F)):
            return npmodel.scalar_attr(self, o, name)
        if isinstance(o, SObjFresh):
            raise Unsupported("attribute %s of an opaque object" % name)
        if isinstance(o, npmodel.SRandom):
            if name not in npmodel.RANDOM:
                raise Unsupported("random state method " + name)
            return SBound(o, name)
        if isinstance(o, (list, dict, set)) or (isinstance(o, tuple) and name in ("index", "count")):
            return SBound(o, name)
        if isinstance(o, str) and name in ("format", "join", "lower", "upper", "strip", "split", "startswith", "endswith", "replace"):
            return SBound(o, name)
        if isinstance(o, types.ModuleType):
            if not hasattr(o, name):
                raise InterpRaise("AttributeError", "%s.%s" % (o.__name__, name))
            return getattr(o, name)
        # instances of the program's classes
        cls = type(o)
        if isinstance(o, type):
            try:
                return getattr(o, name)
            except AttributeError as ex:
                raise InterpRaise("AttributeError", str(ex))
        d = getattr(o, "__dict__", {})
        if name in d:
            v = d[name]
            if isinstance(v, Undef):
                raise Unsupported("use of " + v.why)
            return v
        for k in cls.__mro__:
            if name in k.__dict__:
                a = k.__dict__[name]
                if isinstance(a, property):
                    if (a.fget.__module__ or "").startswith("sidetopics"):
                        return self.call(a.fget, [o], {})
                    break
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return types.MethodType(a.__func__, cls)
                if isinstance(a, types.FunctionType):
                    return types.MethodType(a, o)
                break
        try:
            return getattr(o, name)
        except AttributeError as ex:
            raise InterpRaise("AttributeError", str(ex))

    def setattr(self, o, name, v):
        if isinstance(o, (SArr, SCsr, Poly)):
            if isinstance(o, SCsr) and name in ("data", "indices", "indptr") and isinstance(v, SArr):
                self.setcell(("obj", o, name), v)
                return
            raise Unsupported("attribute assignment on an array")
        if isinstance(o, tuple):
            raise InterpRaise("AttributeError", "can't set attribute")
        for k in type(o).__mro__:
            a = k.__dict__.get(name)
            if isinstance(a, property):
                if a.fset is None:
                    raise InterpRaise("AttributeError", "can't set attribute")
                self.call(a.fset, [o, v], {})
                return
        self.setcell(("attr", o, name), v)

    def ex_Call(self, e, fr):
        # markers of the Cython extraction
        if isinstance(e.func, ast.Name) and e.func.id.startswith("__") and e.func.id.endswith("__"):
            m = getattr(self, "mk_" + e.func.id.strip("_"), None)
            if m is not None:
                return m([self.ev(a, fr) for a in e.args])
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            raise Unsupported("super")
        f = self.ev(e.func, fr)
        args = self.ev_list(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, fr))
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        self.line = getattr(e, "lineno", self.line)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        import npmodel
        if isinstance(f, FInfo):
            return self.call_program(f, args, kwargs)
        if isinstance(f, SFunc):
            fi = FInfo("<local>", f.node, f.frame.f.module)
            fi.sfunc = f
            fi.cy = f.frame.f.cy
            return self._call_closure(fi, f, args, kwargs)
        if isinstance(f, SBound):
            return npmodel.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, tuple) and len(f) == 2 and f[0] == "libc":
            return npmodel.libc(self, f[1], args)
        if isinstance(f, types.MethodType):
            if (getattr(f.__func__, "__module__", "") or "").startswith("sidetopics"):
                return self.call(f.__func__, [f.__self__] + list(args), kwargs)
            return npmodel.call_native(self, f, args, kwargs)
        if isinstance(f, types.FunctionType) and (f.__module__ or "").startswith("sidetopics"):
            return self.call_program(self.prog.pyfunc(f), args, kwargs)
        if isinstance(f, types.FunctionType) and hasattr(sys.modules.get(f.__module__), "contract"):
            return f(*args, **kwargs)       # a callback given by the contract
        if type(f).__name__ in ("cython_function_or_method", "fused_cython_function") or (
                isinstance(f, types.BuiltinFunctionType) and self.prog.is_cython_module(sys.modules.get(getattr(f, "__module__", "") or ""))):
            mod = sys.modules[f.__module__]
            fi = self.prog.cyfunc(mod, f.__name__)
            if fi is None:
                raise Unsupported("no source for " + f.__name__)
            return self.call_program(fi, args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        return npmodel.call_native(self, f, args, kwargs)

    def call_program(self, fi, args, kwargs):
        key = (fi.module.__name__, fi.name)
        c = self.contracts.get(key)
        if c is not None and not (self.depth == 0):
            r = c(self, fi, args, kwargs)
            if r is not NotImplemented:
                self.used_contracts.add("%s.%s" % key)
                return r
        return self.call_finfo(fi, args, kwargs)

    def _call_closure(self, fi, sf, args, kwargs):
        node = sf.node
        def run():
            fr = Frame(fi)
            fr.closure = sf.frame
            a = node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            dflt = dict(zip(pos[len(pos) - len(sf.defaults):], sf.defaults))
            if len(args) > len(pos) and a.vararg is None:
                raise InterpRaise("TypeError", "too many arguments")
            for nm, v in zip(pos, args):
                fr.env[nm] = v
            if a.vararg is not None:
                fr.env[a.vararg.arg] = tuple(args[len(pos):])
            for k, v in kwargs.items():
                fr.env[k] = v
            for nm in pos:
                if nm not in fr.env:
                    if nm not in dflt:
                        raise InterpRaise("TypeError", "missing argument " + nm)
                    fr.env[nm] = dflt[nm]
            for k, v in (sf.kwdefaults or {}).items():
                fr.env.setdefault(k, v)
            return self.run_frame(fr, [ast.Return(node.body)] if isinstance(node, ast.Lambda) else node.body)
        return run()

    def construct(self, cls, args, kwargs):
        import npmodel
        h = npmodel.class_model(cls)
        if h is not None:
            return h(self, args, kwargs)
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            try:
                return cls(*args, **kwargs)
            except TypeError as ex:
                raise InterpRaise("TypeError", str(ex))
        if issubclass(cls, BaseException):
            return SObjFresh("exception")
        if (cls.__module__ or "").startswith("sidetopics"):
            import enum
            if issubclass(cls, enum.Enum):
                return cls(*args)
            o = object.__new__(cls)
            init = None
            for k in cls.__mro__:
                if "__init__" in k.__dict__:
                    init = k.__dict__["__init__"]
                    break
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kwargs)
            return o
        return npmodel.call_native(self, cls, args, kwargs)

    # ------------------------------------------------------------ Cython markers
    def mk_coerce(self, a):
        return self.coerce_c(a[0], a[1])

    def mk_cast(self, a):
        t, v = a
        if t[0] == "c":
            return self.coerce_c(t[1], v)
        return self.cast_ptr(t, v)

    def cast_ptr(self, t, v):
        if isinstance(v, tuple) and v and v[0] == "malloc":
            size = P(v[1])
            el = t[1][1]
            n = size / P({"double": 8, "float": 4}.get(el, 4))
            n = simp(n, self.ctx)
            body = self.fresh_array("heap", [n], CDT[el])
            return new_arr([n], CDT[el], body, "malloc")
        return v

    def mk_sizeof(self, a):
        return {"double": 8, "float": 4, "int": 4}.get(a[0][1] if isinstance(a[0], tuple) else "", 8)

    def _ints(self, a):
        return [P(x) for x in a]

    def mk_cdiv(self, a):
        x, y = self._ints(a)
        x, y = simp(x, self.ctx), simp(y, self.ctx)
        self.require_nonzero(y)
        if self.ctx.nonneg(x) and self.ctx.nonneg(y):
            return concretise(fdiv(x, y))
        return concretise(Ite(x >= P(0), Ite(y > P(0), fdiv(x, y), -fdiv(x, -y)), Ite(y > P(0), -fdiv(-x, y), fdiv(-x, -y))))

    def mk_cydiv(self, a):
        x, y = self._ints(a)
        self.require_nonzero(y)
        return concretise(fdiv(simp(x, self.ctx), simp(y, self.ctx)))

    def mk_cmod(self, a):
        x, y = self._ints(a)
        x, y = simp(x, self.ctx), simp(y, self.ctx)
        q = self.mk_cdiv([x, y])
        return concretise(x - y * P(q))

    def mk_cymod(self, a):
        x, y = self._ints(a)
        self.require_nonzero(y)
        return concretise(mod(simp(x, self.ctx), simp(y, self.ctx)))

    def mk_addr(self, a):
        raise Unsupported("address-of")

    # ------------------------------------------------------------ comprehensions
    def ex_ListComp(self, e, fr):
        import loops
        return loops.comprehension(self, e, fr, "list")

    def ex_GeneratorExp(self, e, fr):
        import loops
        return loops.comprehension(self, e, fr, "list")

    def ex_DictComp(self, e, fr):
        import loops
        return loops.comprehension(self, e, fr, "dict")

    def ex_SetComp(self, e, fr):
        import loops
        return set(loops.comprehension(self, e, fr, "list"))


class _Missing:
    def __repr__(self):
        return "<missing>"


_MISSING = _Missing()

CDT = {"double": "f8", "float": "f4", "int": "i4", "long": "i8", "uint8_t": "u1", "uint16_t": "u2", "uint32_t": "u4",
       "int32_t": "i4", "int64_t": "i8", "Py_ssize_t": "i8", "int8_t": "i1", "bint": "b", "size_t": "u8",
       "int32": "i4", "int64": "i8", "uint8": "u1", "uint16": "u2"}
