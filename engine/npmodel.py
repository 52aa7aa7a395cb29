"""Assumed contracts of the numpy / scipy / libc / builtin functions the code under verification calls.

Everything here is trusted (listed in the evidence as assumed contracts on dependencies): each entry states
what the library function returns, as a term, for every argument; arrays are over the reals/integers.
"""
import builtins
import math
import copy as pycopy
import random as pyrandom
import sys
import types
import time as pytime
import logging

import numpy as np
import scipy.sparse as ssp
import scipy.special as scsp
import scipy.linalg as la

import terms as T
from values import *
from smt import simp, simp_f, declare_array, ARR
from interp import (SBound, SRange, SEnum, SFunc, InterpRaise, FInfo, Eng, MergeFail)


class SMasked:
    """x[mask]: the selected elements, kept in place so that out[mask] = f(x[mask]) is pointwise"""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask       # SArr values, SArr 'b' of the same shape


class SFlatSel:
    """x[rows, cols] with list-valued CSR coordinates etc.: 1-d gather, already an SArr elsewhere"""


def arrayish(v):
    return isinstance(v, (SArr, SCsr, SMasked))


# ------------------------------------------------------------------ dtypes
_DT = {"float64": "f8", "float32": "f4", "float16": "f2", "int32": "i4", "int64": "i8", "uint8": "u1", "uint16": "u2",
       "uint32": "u4", "uint64": "u8", "int8": "i1", "int16": "i2", "bool": "b", "object": "O"}
_TD = {v: k for k, v in _DT.items()}


def dt(x, default="f8"):
    if x is None:
        return default
    if x is float:
        return "f8"
    if x is int:
        return "i8"
    if x is bool:
        return "b"
    if x is object:
        return "O"
    try:
        n = np.dtype(x).name
    except TypeError:
        raise Unsupported("dtype %r" % (x,))
    if n not in _DT:
        raise Unsupported("dtype " + n)
    return _DT[n]


def npdt(code):
    return np.dtype(_TD[code])


def is_dtype(x):
    return isinstance(x, np.dtype) or (isinstance(x, type) and (issubclass(x, np.generic) or x in (float, int, bool)))


def dtype_compare(a, b):
    if isinstance(a, np.dtype) or isinstance(b, np.dtype):
        try:
            return bool(a == b)
        except TypeError:
            return False
    return None


def scalar_dtype(v):
    if isinstance(v, (bool, F)):
        return "b"
    if isinstance(v, int):
        return "wi"
    if isinstance(v, float):
        return "wf"
    if isinstance(v, np.generic):
        return dt(v.dtype)
    if isinstance(v, Poly):
        return "wi" if v.is_int else "wf"
    return "O"


def join(a, b):
    """numpy 1.26 result type; 'wi','wf' are weak python scalars"""
    if a == b:
        return a
    for x, y in ((a, b), (b, a)):
        if x == "wi":
            if y == "b":
                return "i8"
            return y
        if x == "wf":
            if y in FLTD:
                return y
            if y == "wi":
                return "wf"
            return "f8"
    if a == "O" or b == "O":
        return "O"
    return _DT[np.result_type(npdt(a), npdt(b)).name]


def strong(d):
    return {"wi": "i8", "wf": "f8"}.get(d, d)


def num(x):
    """value -> Poly"""
    if isinstance(x, F):
        return ind(x)
    if isinstance(x, np.generic):
        x = x.item()
    return P(x)


def aval(a, idx):
    v = a.get(idx)
    return v


# ------------------------------------------------------------------ arrays from values
def as_arr(E, v, dtype=None):
    """python value -> SArr"""
    if isinstance(v, SArr):
        return v
    if isinstance(v, SCsr):
        return v.dense
    if isinstance(v, SMasked):
        raise Unsupported("masked selection used as an array")
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (int, float, bool, Poly, F, np.generic)):
        d = strong(scalar_dtype(v))
        return new_arr([], dtype or d, v if isinstance(v, F) else (B(bool(v)) if isinstance(v, (bool, np.bool_)) else num(v)))
    if isinstance(v, (list, tuple)):
        if len(v) == 0:
            return new_arr([0], dtype or "f8", ZERO)
        parts = [as_arr(E, x) for x in v]
        d = parts[0].dtype
        for p in parts[1:]:
            d = join(d, p.dtype)
        n = len(parts)
        sh = parts[0].shape_
        for p in parts[1:]:
            if p.ndim != len(sh):
                raise InterpRaise("ValueError", "inhomogeneous shape")
            for x, y in zip(p.shape_, sh):
                same_dim(E, x, y)
        fs = formals(len(sh) + 1)
        body = bodyval(parts[-1], fs[1:])
        for i in range(n - 2, -1, -1):
            body = Ite(fs[0].eq(P(i)), bodyval(parts[i], fs[1:]), body)
        return new_arr([n] + sh, dtype or d, body)
    if isinstance(v, SRange):
        n = simp(v.hi - v.lo, E.ctx)
        if v.step.const() != 1:
            raise Unsupported("range with step as array")
        return new_arr([n], "i8", v.lo + formals(1)[0])
    if isinstance(v, range):
        return as_arr(E, list(v)) if len(v) <= 16 else new_arr([len(v)], "i8", P(v.start) + formals(1)[0] * P(v.step))
    if isinstance(v, SList):
        a0 = v.arr(formals(1)[0]) if callable(v.arr) else v.arr
        if isinstance(a0, SArr):
            fs = formals(a0.ndim + 1)
            tmp = [var("li!%d" % i) for i in range(a0.ndim + 1)]
            a1 = v.arr(P(tmp[0]))
            body = a1.get([P(t) for t in tmp[1:]])
            body = subst(body, {t: f for t, f in zip(tmp, fs)})
            sh = [subst(s, {tmp[0]: ZERO}) for s in a1.shape_]
            return new_arr([v.n] + sh, dtype or a1.dtype, body)
    raise Unsupported("cannot convert %r to an array" % (type(v),))


def bodyval(a, idx):
    return a.get(idx)


def same_dim(E, x, y):
    x, y = simp(P(x), E.ctx), simp(P(y), E.ctx)
    if x is y:
        return x
    d = (x - y).const()
    if d is not None and d != 0:
        raise InterpRaise("ValueError", "operands could not be broadcast together")
    f = x.eq(y)
    if not E.ctx.entails(f):
        E.obl("array dimensions agree", f, kind="shape")
        E.assume_local(f)
    return x


def is_one(E, x):
    return P(x).const() == 1


def bshape(E, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for ax in range(n):
        cur = None
        for s in shapes:
            j = ax - (n - len(s))
            if j < 0:
                continue
            d = simp(P(s[j]), E.ctx)
            if is_one(E, d):
                continue
            cur = d if cur is None else same_dim(E, cur, d)
        out.append(ONE if cur is None else cur)
    return out


def bget(E, a, fs, nd):
    """element of a (broadcast to rank nd) at index list fs"""
    idx = []
    off = nd - a.ndim
    for j in range(a.ndim):
        idx.append(ZERO if is_one(E, simp(a.shape_[j], E.ctx)) else fs[off + j])
    return a.get(idx)


def widen(E, v):
    return as_arr(E, v)


def ctx_for(E, shape):
    return E.ctx.extend(*[And(P(0) <= f, f < d) for f, d in zip(formals(len(shape)), shape)])


def elementwise(E, fn, args, dtype):
    """fn over element values (Poly or F) -> value; args SArr or scalars; result SArr (or scalar if all scalars)"""
    msk = [a for a in args if isinstance(a, SMasked)]
    if msk:
        m0 = msk[0]
        parts = []
        for a in args:
            if isinstance(a, SMasked):
                if not same_mask(E, a, m0):
                    raise Unsupported("elementwise operation on different selections")
                parts.append(a.arr)
            elif isinstance(a, SArr) and a.ndim > 0:
                raise Unsupported("selection combined with a full array")
            else:
                parts.append(a)
        r = elementwise(E, fn, parts, dtype)
        return SMasked(r, m0.mask)
    arrs = [as_arr(E, a) for a in args]
    shape = bshape(E, [a.shape_ for a in arrs])
    nd = len(shape)
    fs = formals(nd)
    v = fn(*[bget(E, a, fs, nd) for a in arrs])
    cx = ctx_for(E, shape)
    v = simp_f(v, cx) if isinstance(v, F) else simp(v, cx)
    if nd == 0 and not any(isinstance(a, SArr) for a in args):
        return concretise(v)
    if nd == 0:
        return concretise(v)
    return new_arr(shape, dtype, v)


def same_mask(E, a, b):
    if a.mask is b.mask:
        return True
    x, y = a.mask, b.mask
    if x.ndim != y.ndim:
        return False
    f = Iff(x.body(), y.body())
    return B(x.body()) is B(y.body()) or E.ctx_arr(x.shape_).entails(f)


def _ctx_arr(self, shape):
    return ctx_for(self, shape)


Eng.ctx_arr = _ctx_arr


# ------------------------------------------------------------------ indexing
def norm_index(E, k, dim, check=True, what="index"):
    """integer index -> Poly in [0,dim), generating the bounds obligation"""
    if isinstance(k, np.generic):
        k = k.item()
    if isinstance(k, F):
        k = ind(k)
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, float) or (isinstance(k, Poly) and not k.is_int):
        if isinstance(k, Poly):
            raise InterpRaise("IndexError", "only integers are valid indices")
        raise InterpRaise("IndexError", "only integers are valid indices")
    fr = E.frames[-1].f if E.frames else None
    cy = fr is not None and fr.cy is not None
    wrap = True
    if cy:
        wrap = fr.directives.get("wraparound", True)
    k = simp(P(k), E.ctx)
    dim = simp(P(dim), E.ctx)
    if not check:
        return k
    c = k.const()
    if c is not None and c < 0 and wrap:
        k = dim + k
    elif c is None and wrap and not E.ctx.entails(k >= P(0), quick=True):
        if E.ctx.entails(k < P(0), quick=True):
            k = dim + k
    f = And(P(0) <= k, k < dim)
    if E.ctx.entails(f):
        E.note_obl("%s in bounds" % what)
    else:
        E.obl("%s in bounds" % what, f, kind="bounds")
        E.assume_local(f)
    return k


def _note_obl(self, name):
    """a side obligation already discharged by the solver"""
    if self.trial:
        return
    from interp import Obl
    self.obls.append(Obl(name, "side", True, "z3", "%s:%s" % (self.curname(), self.line), 0.0))


def _assume_local(self, f):
    """an obligation just generated may be assumed afterwards (it is either proved or reported)"""
    self.ctx = self.ctx.extend(f)


Eng.note_obl = _note_obl
Eng.assume_local = _assume_local


def expand_key(a, key):
    key = list(key)
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        used = sum(1 for k in key if k is not None and k is not Ellipsis)
        key[p:p + 1] = [slice(None)] * (a.ndim - used)
    used = sum(1 for k in key if k is not None)
    if used > a.ndim:
        raise InterpRaise("IndexError", "too many indices for array")
    key += [slice(None)] * (a.ndim - used)
    return key


def slice_bounds(E, s, dim):
    st = 1 if s.step is None else concretise(P(s.step)) if not isinstance(s.step, int) else s.step
    dim = simp(P(dim), E.ctx)
    if st == -1 and s.start is None and s.stop is None:
        return dim - 1, dim, -1
    if st is None or not isinstance(st, int) or st < 1:
        raise Unsupported("slice step")

    def clip(v, dflt):
        if v is None:
            return dflt
        v = simp(num(v), E.ctx)
        if not v.is_int:
            raise InterpRaise("TypeError", "slice indices must be integers")
        if E.ctx.entails(v < P(0), quick=True):
            v = v + dim
            if not E.ctx.entails(v >= P(0), quick=True):
                v = Ite(v >= P(0), v, ZERO)
        elif not E.ctx.entails(v >= P(0), quick=True):
            v = Ite(v >= P(0), v, Ite(v + dim >= P(0), v + dim, ZERO))
        if not E.ctx.entails(v <= dim, quick=True):
            v = Ite(v <= dim, v, dim)
        return simp(v, E.ctx)
    lo = clip(s.start, ZERO)
    hi = clip(s.stop, dim)
    n = simp(hi - lo, E.ctx)
    if st > 1:
        n = fdiv(n + st - 1, P(st))
    if not E.ctx.entails(n >= P(0), quick=True):
        n = simp(Ite(n >= P(0), n, ZERO), E.ctx)
    return lo, n, st


def basic(key):
    return all(k is None or isinstance(k, (slice, int, Poly, np.integer, bool)) and not isinstance(k, bool) or
               (isinstance(k, SArr) and k.ndim == 0) for k in key)


def view(E, a, key, check=True):
    """basic indexing -> SArr view"""
    key = expand_key(a, key)
    axmap = {}
    newshape = []
    j = 0
    for k in key:
        if k is None:
            newshape.append(ONE)
            continue
        if isinstance(k, SArr):
            k = k.get(())
        if isinstance(k, slice):
            lo, n, st = slice_bounds(E, k, a.shape_[j])
            axmap[j] = ("ax", len(newshape), lo, st)
            newshape.append(n)
        else:
            axmap[j] = ("fix", norm_index(E, k, a.shape_[j], check))
        j += 1
    axes = []
    for ax in a.axes:
        if ax[0] == "fix":
            axes.append(ax)
            continue
        _, j, off, step = ax
        m = axmap[j]
        if m[0] == "fix":
            axes.append(("fix", off + m[1] * P(step)))
        else:
            axes.append(("ax", m[1], off + m[2] * P(step), step * m[3]))
    r = SArr(a.buf, newshape, axes)
    if getattr(a, "fortran", None) is not None:
        r.fortran = None
    return r


def getitem(E, a, key, check=True):
    if any(isinstance(k, np.ndarray) for k in key):
        key = tuple(as_arr(E, k) if isinstance(k, np.ndarray) else k for k in key)
    if any(isinstance(k, (list, SRange)) for k in key):
        if len(key) == 1 and isinstance(key[0], list) and len(key[0]) == a.ndim and all(isinstance(x, (SArr, list)) for x in key[0]):
            key = tuple(key[0])          # a[[rows, cols]] : numpy<1.23 semantics are an error; keep as tuple for lists of arrays
            raise Unsupported("index list of arrays")
        key = tuple(as_arr(E, k) if isinstance(k, (list, SRange)) else k for k in key)
    if basic(key):
        r = view(E, a, key, check)
        if r.ndim == 0:
            w = E.watch.get(id(a.buf)) if E.watch else None
            if w is not None:
                w([simp(P(q), E.ctx) for q in r.bufidx(())])
            v = r.get(())
            v = simp_f(v, E.ctx) if isinstance(v, F) else simp(v, E.ctx)
            return concretise(v)
        return r
    key = expand_key(a, key)
    # boolean mask over leading axes
    if len([k for k in key if not isinstance(k, slice)]) == 1:
        p = [i for i, k in enumerate(key) if not isinstance(k, slice)][0]
        k = key[p]
        if isinstance(k, SArr) and k.dtype == "b":
            if k.ndim == a.ndim and p == 0 or False:
                pass
            if k.ndim == a.ndim:
                for x, y in zip(k.shape_, a.shape_):
                    same_dim(E, x, y)
                return SMasked(a, k)
    if any(isinstance(k, SArr) and k.dtype == "b" for k in key):
        nb = [k for k in key if isinstance(k, SArr) and k.dtype == "b"]
        if len(nb) == 1 and nb[0].ndim == a.ndim:
            return SMasked(a, nb[0])
        raise Unsupported("boolean row selection")
    if any(isinstance(k, SMasked) for k in key):
        raise Unsupported("indexing with a masked selection")
    # integer arrays
    ia = [i for i, k in enumerate(key) if not isinstance(k, slice) and k is not None]
    if any(k is None for k in key):
        raise Unsupported("newaxis with advanced index")
    if ia != list(range(ia[0], ia[-1] + 1)):
        raise Unsupported("non-adjacent advanced indices")
    arrs = [as_arr(E, key[i]) for i in ia]
    for x in arrs:
        if x.dtype not in INTD:
            raise InterpRaise("IndexError", "arrays used as indices must be of integer (or boolean) type")
    shape = bshape(E, [x.shape_ for x in arrs])
    nd = len(shape)
    out_shape = []
    pos = {}
    for i, k in enumerate(key):
        if i == ia[0]:
            base = len(out_shape)
            out_shape += shape
        if isinstance(k, slice):
            lo, n, st = slice_bounds(E, k, a.shape_[i])
            pos[i] = (len(out_shape), lo, st)
            out_shape.append(n)
    fs = formals(len(out_shape))
    idx = [None] * a.ndim
    for i, (p, lo, st) in pos.items():
        idx[i] = lo + fs[p] * P(st)
    cx0 = E.ctx
    E.ctx = ctx_for(E, out_shape)
    try:
        for i, x in zip(ia, arrs):
            v = bget(E, x, fs[base:base + nd], nd)
            idx[i] = norm_index(E, v, a.shape_[i])
    finally:
        E.ctx = cx0
    return new_arr(out_shape, a.dtype, simp(a.get(idx), ctx_for(E, out_shape)))


def store_value(E, dtype, v, ctx):
    """value converted to the buffer's dtype"""
    if dtype == "b":
        return v if isinstance(v, F) else B(P(v))
    if dtype == "O":
        raise Unsupported("object array store")
    v = ind(v) if isinstance(v, F) else P(v)
    if dtype in INTD and not v.is_int:
        w = simp(v, ctx)
        if not w.is_int:
            w = floor_(w) if ctx.nonneg(w) else Ite(w >= P(0), floor_(w), -floor_(-w))
        v = w
    return v


def range_obl(E, dtype, v, ctx):
    if dtype in DT_RANGE and not E.trial:
        lo, hi = DT_RANGE[dtype]
        c = v.const()
        if c is not None and lo <= c < hi:
            return
        cx0 = E.ctx
        E.ctx = ctx
        try:
            E.obl("value fits the array's %s element type" % dtype, And(P(lo) <= v, v < P(hi)), kind="range")
        finally:
            E.ctx = cx0


def write_view(E, w, valfn, guard=None):
    """write valfn(idx list over w's axes) -> value into the view w (where guard(idx) holds)"""
    if w.buf.readonly:
        raise InterpRaise("ValueError", "assignment destination is read-only")
    bf = formals(len(w.buf.dims))
    cond = []
    idx = [ZERO] * w.ndim
    full = True
    for b, ax in enumerate(w.axes):
        if ax[0] == "fix":
            if P(w.buf.dims[b]).const() == 1 and ax[1] is ZERO:
                continue
            cond.append(bf[b].eq(ax[1]))
            continue
        _, j, off, step = ax
        n = w.shape_[j]
        if step == 1:
            idx[j] = bf[b] - off
            if off is not ZERO:
                cond.append(off <= bf[b])
            if not (off is ZERO and simp(n - w.buf.dims[b], E.ctx) is ZERO):
                cond.append(bf[b] < off + n)
        elif step == -1:
            idx[j] = off - bf[b]
            cond.append(And(bf[b] <= off, off - n < bf[b]))
        else:
            q = fdiv(bf[b] - off, P(step))
            idx[j] = q
            cond.append(And(off <= bf[b], q < n, (bf[b] - off - q * P(step)).eq(ZERO)))
    g = And(*cond)
    cx = ctx_for(E, w.buf.dims)
    g = simp_f(g, cx)
    if g is FALSE:
        return
    v = valfn(idx)
    cg = cx.extend(g)
    if guard is not None:
        gg = simp_f(B(guard(idx)), cg)
        g = And(g, gg)
        cg = cg.extend(gg)
    v = store_value(E, w.buf.dtype, v, cg)
    if not isinstance(v, F):
        # pin index formals that are fixed by the region
        range_obl(E, w.buf.dtype, v, cg)
    nb = Ite(g, v, w.buf.body)
    nb = simp_f(nb, cx) if isinstance(nb, F) else simp(nb, cx)
    E.setcell(("buf", w.buf, None), nb)


def assign_to_view(E, w, v):
    """w[...] = v with broadcasting"""
    if isinstance(v, SCsr):
        v = v.dense
    if isinstance(v, SMasked):
        raise Unsupported("masked value assigned to a region")
    va = as_arr(E, v)
    if va.ndim > w.ndim:
        lead = va.shape_[:va.ndim - w.ndim]
        if not all(is_one(E, d) for d in lead):
            raise InterpRaise("ValueError", "could not broadcast input array")
        va = view(E, va, tuple([0] * len(lead)))
    off = w.ndim - va.ndim
    for j in range(va.ndim):
        if not is_one(E, simp(va.shape_[j], E.ctx)):
            same_dim(E, w.shape_[off + j], va.shape_[j])
    # snapshot the value term (aliasing is resolved by evaluation before the write)
    if va.dtype in FLTD and w.dtype == "b":
        pass
    vb = va.body()
    at = formal_atoms(va.ndim)
    ones = [is_one(E, simp(va.shape_[j], E.ctx)) for j in range(va.ndim)]

    def valfn(idx):
        return subst(vb, {a: (ZERO if o else P(i)) for a, o, i in zip(at, ones, idx[off:])})
    write_view(E, w, valfn)


def _pos_cases(ctx, p, strict=True):
    """p > 0, whatever its conditions are"""
    inds = sorted({x for m, c in p.terms for x, e in m if x.kind == "ind"}, key=lambda x: x.id)
    if not inds:
        return ctx.pos(p) if strict else ctx.nonneg(p)
    x = inds[0]
    for val in (0, 1):
        q = ZERO
        for m, c in p.terms:
            if any(y is x for y, e in m):
                if val:
                    q = q + T._mk_poly({tuple(z for z in m if z[0] is not x): c})
            else:
                q = q + T._mk_poly({m: c})
        if not _pos_cases(ctx, q, strict):
            return False
    return True


def rough(E, v):
    """a value in a run that only finds out what a loop of loops changes"""
    if not isinstance(v, Poly) or v.is_int or v.const() is not None or v.as_atom() is not None:
        return v
    return sel(E.site_name("rough"), [P(q) for q in E.loopvars], "R")


def name_scratch(E, v):
    """a value stored into scratch memory is remembered by its sign alone (a name per write and iteration)"""
    if E.rough:
        return rough(E, v)
    v = simp(P(v), E.ctx)
    if v.const() is not None:
        return v
    if len(v.terms) == 1 and all(x.kind == "sel" and x.args[0].startswith("sc") or x.kind == "sum" for m, c in v.terms for x, e in m):
        return v
    for kind, strict in (("sc+", True), ("sc0", False)):
        if _pos_cases(E.ctx, v, strict):
            nm = E.site_name(kind)
            if nm not in ARR:
                declare_array(nm, "R", (lambda i, nm=nm: [ZERO < sel(nm, i, "R")]) if strict else (lambda i, nm=nm: [sel(nm, i, "R") >= ZERO]))
            return sel(nm, [P(q) for q in E.loopvars], "R")
    return v


def setitem(E, a, key, v):
    if E.rough and isinstance(v, Poly) and a.dtype in FLTD:
        v = rough(E, v)
    if E.scratch and (a.buf.name in E.scratch or isinstance(E.scratch[0], int) and a.buf.id > E.scratch[0]) and isinstance(v, Poly) and a.dtype in FLTD:
        v = name_scratch(E, v)
    key = tuple(as_arr(E, k) if isinstance(k, (np.ndarray, list, SRange)) else k for k in key)
    if basic(key):
        w = view(E, a, key)
        assign_to_view(E, w, v)
        return
    ekey = expand_key(a, key) if not any(isinstance(k, SArr) and k.dtype == "b" for k in key) else list(key)
    if len(key) == 1 and isinstance(key[0], SArr) and key[0].dtype == "b" and key[0].ndim == a.ndim:
        m = key[0]
        mb, at = m.body(), formal_atoms(m.ndim)
        for x, y in zip(m.shape_, a.shape_):
            same_dim(E, x, y)
        if isinstance(v, SMasked):
            if not same_mask(E, v, SMasked(a, m)):
                raise Unsupported("assignment of a different selection")
            vb = v.arr.body()
        else:
            va = as_arr(E, v)
            if va.ndim > 0:
                raise Unsupported("array assigned to a selection")
            vb = va.get(())
        write_view(E, a, lambda idx: subst(vb, {x: P(i) for x, i in zip(at, idx)}),
                   guard=lambda idx: subst(mb, {x: P(i) for x, i in zip(at, idx)}))
        return
    pos = [i for i, k in enumerate(ekey) if isinstance(k, SArr) and k.ndim == 1 and k.dtype in INTD]
    if len(pos) == 1 and getattr(ekey[pos[0]], "distinct", False) and all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(ekey) if i not in pos):
        # distinct positions: every position takes the value given for it
        ax, k = pos[0], ekey[pos[0]]
        n = k.shape_[0]
        q = var(E.site_name("sc"))
        kq = num(k.get([P(q)]))
        cx = E.ctx
        E.ctx = cx.extend(P(0) <= P(q), P(q) < n)
        E.obl("index within the array", And(P(0) <= kq, kq < a.shape_[ax]), kind="bounds")
        E.ctx = cx
        if isinstance(v, SCsr):
            v = v.dense
        va = as_arr(E, v)
        vsh = [n if i == ax else d for i, d in enumerate(a.shape_)]
        off = len(vsh) - va.ndim
        if off < 0:
            raise Unsupported("assignment of more dimensions")
        ones = [is_one(E, simp(d, cx)) and not is_one(E, vsh[off + j]) for j, d in enumerate(va.shape_)]
        for j, d in enumerate(va.shape_):
            if not ones[j]:
                same_dim(E, vsh[off + j], d)
        vb, vat, ab = va.body(), formal_atoms(va.ndim), a.body()
        aat = formal_atoms(a.ndim)

        def valfn(idx):
            ix = list(idx)
            ix[ax] = P(q)
            new = num(subst(vb, {x: (ZERO if o else P(i)) for x, o, i in zip(vat, ones, ix[off:])}))
            old = num(subst(ab, {x: P(i) for x, i in zip(aat, idx)}))
            if kq.as_atom() is not None:      # only where this is the position
                new = simp(subst(new, {kq.as_atom(): P(idx[ax])}), cx)
            return old + mk_sum(q, ZERO, n, ind(kq.eq(P(idx[ax]))) * (store_value(E, a.dtype, new, cx) - old))
        write_view(E, a, valfn)
        return
    raise Unsupported("advanced index assignment")


def inplace(E, a, op, v):
    if getattr(a, "mat", False):
        raise Unsupported("in-place operator on a matrix object")
    r = binary(E, op, a, v)
    if isinstance(r, SArr):
        if r.dtype in FLTD and a.dtype in INTD or (r.dtype == "f8" and a.dtype == "b"):
            raise InterpRaise("UFuncTypeError", "Cannot cast ufunc output to integer in-place")
        assign_to_view(E, a, r)
        return
    assign_to_view(E, a, r)


def smasked_inplace(E, o, k, op, v):
    raise Unsupported("in-place operator on a selection")


# ------------------------------------------------------------------ operators
def _div(x, y):
    return x / y


def binary(E, op, a, b):
    if isinstance(a, SCsr) or isinstance(b, SCsr):
        return csr_binary(E, op, a, b)
    if isinstance(a, SFunc) or isinstance(b, SFunc) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        raise InterpRaise("TypeError", "unsupported operand types")
    if op == "MatMult":
        return dot(E, a, b)
    if getattr(a, "mat", False) or getattr(b, "mat", False):
        if op == "Mult" and arrayish(a) and arrayish(b):
            return dot(E, a, b)
    da = a.dtype if isinstance(a, SArr) else a.arr.dtype if isinstance(a, SMasked) else scalar_dtype(a) if not isinstance(a, (list, tuple)) else as_arr(E, a).dtype
    db = b.dtype if isinstance(b, SArr) else b.arr.dtype if isinstance(b, SMasked) else scalar_dtype(b) if not isinstance(b, (list, tuple)) else as_arr(E, b).dtype
    d = strong(join(da, db))
    if op in ("BitAnd", "BitOr", "BitXor"):
        if d != "b":
            raise Unsupported("bit operation on numbers")
        f = {"BitAnd": lambda x, y: And(B(x), B(y)), "BitOr": lambda x, y: Or(B(x), B(y)), "BitXor": lambda x, y: Not(Iff(B(x), B(y)))}[op]
        return elementwise(E, f, [a, b], "b")
    if op == "Div":
        if d not in FLTD:
            d = "f8"
        return _mat(elementwise(E, lambda x, y: num(x) / num(y), [a, b], d), a, b)
    if op == "FloorDiv":
        return elementwise(E, lambda x, y: (fdiv(num(x), num(y)) if num(x).is_int and num(y).is_int else floor_(num(x) / num(y))), [a, b], d)
    if op == "Mod":
        return elementwise(E, lambda x, y: mod(num(x), num(y)), [a, b], d)
    if op == "Pow":
        return elementwise(E, lambda x, y: E.num_binop("Pow", num(x), num(y)), [a, b], d)
    if d == "b":
        if op == "Add":
            return elementwise(E, lambda x, y: Or(B(x), B(y)), [a, b], "b")
        if op == "Mult":
            return elementwise(E, lambda x, y: And(B(x), B(y)), [a, b], "b")
        raise InterpRaise("TypeError", "numpy boolean subtract")
    f = {"Add": lambda x, y: num(x) + num(y), "Sub": lambda x, y: num(x) - num(y), "Mult": lambda x, y: num(x) * num(y)}.get(op)
    if f is None:
        raise Unsupported("array operator " + op)
    return _mat(elementwise(E, f, [a, b], d), a, b)


def _mat(r, *src):
    if isinstance(r, SArr) and any(getattr(s, "mat", False) for s in src):
        r.mat = True
    return r


def unary(E, op, v):
    if isinstance(v, SCsr):
        if op == "USub":
            return csr_map(E, v, lambda x: -x)
        raise Unsupported("unary on sparse")
    d = v.arr.dtype if isinstance(v, SMasked) else v.dtype
    if op == "USub":
        return _mat(elementwise(E, lambda x: -num(x), [v], d), v)
    if op == "Invert":
        if d == "b":
            return elementwise(E, lambda x: Not(B(x)), [v], "b")
        return elementwise(E, lambda x: -num(x) - 1, [v], d)
    if op == "UAdd":
        return v
    raise Unsupported(op)


def compare(E, op, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op == "Eq":
            return False
        if op == "NotEq":
            return True
    if isinstance(a, SCsr) or isinstance(b, SCsr):
        raise Unsupported("comparison of sparse matrices")
    f = {"Lt": lambda x, y: num(x) < num(y), "LtE": lambda x, y: num(x) <= num(y), "Gt": lambda x, y: num(x) > num(y),
         "GtE": lambda x, y: num(x) >= num(y), "Eq": lambda x, y: num(x).eq(num(y)), "NotEq": lambda x, y: Not(num(x).eq(num(y)))}[op]
    return elementwise(E, f, [a, b], "b")


# ------------------------------------------------------------------ reductions
def reduce_axes(E, a, axis, keepdims, red, dtype):
    """red(x_atom, lo, hi, body)->body, applied to each reduced axis, innermost last axis first"""
    nd = a.ndim
    if axis is None:
        axes = list(range(nd))
    elif isinstance(axis, (tuple, list)):
        axes = [x + nd if x < 0 else x for x in axis]
    else:
        ax = concretise(P(axis)) if isinstance(axis, Poly) else int(axis)
        if ax >= nd or ax < -nd:
            raise InterpRaise("AxisError", "axis out of bounds")
        axes = [ax + nd if ax < 0 else ax]
    names = [var("rx!%d" % i) for i in range(nd)]
    body = a.get([P(n) for n in names])
    ctx = E.ctx.extend(*[And(P(0) <= P(n), P(n) < d) for n, d in zip(names, a.shape_)])
    for j in sorted(axes, reverse=True):
        body = red(names[j], ZERO, a.shape_[j], body)
    rest = [j for j in range(nd) if j not in axes]
    if keepdims:
        m = {names[j]: formals(nd)[j] for j in rest}
        shape = [ONE if j in axes else a.shape_[j] for j in range(nd)]
    else:
        m = {names[j]: f for j, f in zip(rest, formals(len(rest)))}
        shape = [a.shape_[j] for j in rest]
    body = subst(body, m)
    cx = ctx_for(E, shape)
    body = simp_f(body, cx) if isinstance(body, F) else simp(body, cx)
    if not shape:
        return concretise(body) if not isinstance(body, F) else body
    return new_arr(shape, dtype, body)


def np_sum(E, a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, SCsr):
        r = np_sum(E, a.dense, axis)
        if axis is None:
            return r
        r2 = np_sum(E, a.dense, axis, keepdims=True)
        r2.mat = True
        return r2
    if isinstance(a, SMasked):
        a = elementwise(E, lambda x, m: num(x) * ind(B(m)), [a.arr, a.mask], a.arr.dtype)
    a = as_arr(E, a)
    d = dt(dtype) if dtype is not None else ("i8" if a.dtype in INTD or a.dtype == "b" else a.dtype)

    def red(x, lo, hi, body):
        return mk_sum(x, lo, hi, num(body))
    r = reduce_axes(E, a, axis, keepdims, red, d)
    return finish_out(E, r, out)


def finish_out(E, r, out):
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        if isinstance(out, SMasked):
            raise Unsupported("out= selection")
        assign_to_view(E, out, r)
        return out
    return r


def np_minmax(kind):
    def f(E, a, axis=None, out=None, keepdims=False):
        if isinstance(a, SCsr):
            a = a.dense
        if isinstance(a, SMasked):
            raise Unsupported("max of a selection")
        a = as_arr(E, a)

        def red(x, lo, hi, body):
            return T.mk_red(kind, x, lo, hi, num(body))
        return finish_out(E, reduce_axes(E, a, axis, keepdims, red, a.dtype), out)
    return f


def np_argminmax(kind):
    def f(E, a, axis=None, out=None):
        a = as_arr(E, a)
        if axis is None and a.ndim != 1:
            raise Unsupported("flat argmax")

        def red(x, lo, hi, body):
            return T.mk_red(kind, x, lo, hi, num(body))
        return reduce_axes(E, a, axis, False, red, "i8")
    return f


def np_any(E, a, axis=None, out=None, keepdims=False):
    if isinstance(a, (list, tuple)) and all(isinstance(x, SArr) for x in a) and axis == 0:
        r = a[0]
        for x in a[1:]:
            r = binary(E, "BitOr", r, x)
        return r
    a = as_arr(E, a)

    def red(x, lo, hi, body):
        # count of true elements is non-zero
        return Not(mk_sum(x, lo, hi, ind(B(body))).eq(ZERO))
    return reduce_axes(E, a, axis, keepdims, red, "b")


def np_all(E, a, axis=None, out=None, keepdims=False):
    if isinstance(a, (list, tuple)) and all(isinstance(x, SArr) for x in a) and axis == 0:
        r = a[0]
        for x in a[1:]:
            r = binary(E, "BitAnd", r, x)
        return r
    a = as_arr(E, a)

    def red(x, lo, hi, body):
        return mk_sum(x, lo, hi, ind(Not(B(body)))).eq(ZERO)
    return reduce_axes(E, a, axis, keepdims, red, "b")


def np_mean(E, a, axis=None, **kw):
    if isinstance(a, SCsr):
        a = a.dense
    a = as_arr(E, a)
    s = np_sum(E, a, axis)
    n = ONE
    if axis is None:
        for d in a.shape_:
            n = n * d
    else:
        n = a.shape_[axis]
    r = binary(E, "Div", s, concretise(n)) if arrayish(s) else concretise(num(s) / n)
    if isinstance(r, SArr) and a.dtype in FLTD:
        r.buf.dtype = a.dtype
    return r


def dot(E, a, b):
    if isinstance(a, SCsr) or isinstance(b, SCsr):
        return csr_dot(E, a, b)
    if not arrayish(a) and not arrayish(b) and isnum(a) and isnum(b):
        return E.binop("Mult", a, b)
    a, b = as_arr(E, a), as_arr(E, b)
    d = strong(join(a.dtype, b.dtype))
    if a.ndim == 0 or b.ndim == 0:
        return binary(E, "Mult", a, b)
    if b.ndim > 2 or a.ndim > 2:
        raise Unsupported("dot of rank > 2")
    k = var("dk!0")
    ja = a.ndim - 1
    jb = 0
    n = same_dim(E, a.shape_[ja], b.shape_[jb])
    sh = list(a.shape_[:-1]) + list(b.shape_[1:])
    fs = formals(len(sh))
    ia = list(fs[:a.ndim - 1]) + [P(k)]
    ib = [P(k)] + list(fs[a.ndim - 1:])
    # formals of a/b are substituted simultaneously, so overlapping names are fine
    body = mk_sum(k, ZERO, n, num(a.get(ia)) * num(b.get(ib)))
    body = simp(body, ctx_for(E, sh))
    if not sh:
        return concretise(body)
    r = new_arr(sh, d, body)
    return r


# ------------------------------------------------------------------ attributes
def attr(E, o, name):
    if isinstance(o, SMasked):
        if name in ("shape", "size"):
            n = mask_count(E, o.mask)
            return (n,) if name == "shape" else n
        return SBound(o, name)
    if isinstance(o, SCsr):
        return csr_attr(E, o, name)
    if name == "shape":
        return o.shape
    if name == "ndim":
        return o.ndim
    if name == "size":
        n = ONE
        for s in o.shape_:
            n = n * s
        return concretise(n)
    if name == "dtype":
        return npdt(o.dtype)
    if name == "T":
        return transpose(o)
    if name == "A":
        if getattr(o, "mat", False):
            return plain(o)
        raise InterpRaise("AttributeError", "A")
    if name == "A1":
        if getattr(o, "mat", False):
            return reshape(E, plain(o), (-1,))
        raise InterpRaise("AttributeError", "A1")
    if name == "flags":
        raise Unsupported("array flags")
    if name == "base":
        raise Unsupported("array base")
    if name in METHODS:
        return SBound(o, name)
    if hasattr(np.ndarray, name):
        raise Unsupported("ndarray.%s" % name)
    raise InterpRaise("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)


def plain(o):
    r = SArr(o.buf, o.shape_, o.axes)
    return r


def transpose(o):
    n = o.ndim
    r = SArr(o.buf, list(reversed(o.shape_)), [ax if ax[0] == "fix" else ("ax", n - 1 - ax[1], ax[2], ax[3]) for ax in o.axes])
    if getattr(o, "mat", False):
        r.mat = True
    r.fortran = "flip" if getattr(o, "fortran", None) != "flip" else None
    return r


def scalar_attr(E, o, name):
    if name == "dtype":
        return npdt("b" if isinstance(o, F) else "i8" if o.is_int else "f8")
    if name == "shape":
        return ()
    if name == "ndim":
        return 0
    if name in ("item", "sum", "copy", "astype", "max", "min"):
        return SBound(o, name)
    raise Unsupported("attribute %s of a number" % name)


def mask_count(E, m):
    return np_sum(E, elementwise(E, lambda x: ind(B(x)), [m], "i8"))


# ------------------------------------------------------------------ construction
def shape_of(E, s):
    if isinstance(s, (list, tuple)):
        return [dimval(E, x) for x in s]
    if isinstance(s, SArr) and s.ndim == 1:
        return [dimval(E, x) for x in E.iterate_concrete(s)]
    return [dimval(E, s)]


def dimval(E, x):
    if isinstance(x, (float,)) or isinstance(x, Poly) and not x.is_int:
        if isinstance(x, Poly):
            x2 = simp(x, E.ctx)
            if x2.is_int:
                raise InterpRaise("TypeError", "'float' object cannot be interpreted as an integer")
        raise InterpRaise("TypeError", "'float' object cannot be interpreted as an integer")
    p = simp(P(x), E.ctx)
    if not E.ctx.entails(p >= P(0)):
        E.obl("array dimension is not negative", p >= P(0), kind="shape")
        E.assume_local(p >= P(0))
    return p


def np_zeros(E, shape, dtype=None, order=None, _v=0):
    d = dt(dtype)
    sh = shape_of(E, shape)
    return mkorder(new_arr(sh, d, (B(bool(_v)) if d == "b" else P(_v))), order)


def mkorder(a, order):
    if order == "F":
        a.fortran = "flip"
    return a


def np_ones(E, shape, dtype=None, order=None):
    return np_zeros(E, shape, dtype, order, 1)


def np_empty(E, shape=None, dtype=None, order=None):
    d = dt(dtype)
    sh = shape_of(E, shape)
    body = E.fresh_array("uninit", sh, d)
    if d == "b":
        body = body.eq(ONE)
    return mkorder(new_arr(sh, d, body), order)


def np_full(E, shape, fill_value, dtype=None):
    sh = shape_of(E, shape)
    d = dt(dtype) if dtype is not None else strong(scalar_dtype(fill_value))
    return new_arr(sh, d, store_value(E, d, fill_value, E.ctx))


def like(fn):
    def f(E, a, dtype=None, order="K", shape=None, **kw):
        a = as_arr(E, a)
        return fn(E, a.shape, dtype=npdt(a.dtype) if dtype is None else dtype, **kw)
    return f


def astype(E, a, d, copy=True):
    d = dt(d)
    if isinstance(a, SMasked):
        return SMasked(astype(E, a.arr, npdt(d)), a.mask)
    if isinstance(a, SCsr):
        return csr_astype(E, a, d)
    if not isinstance(a, SArr):
        a = as_arr(E, a)
        return store_value(E, d, a.get(()), E.ctx)
    if not copy and a.dtype == d:
        return a
    fs = formals(a.ndim)
    cx = ctx_for(E, a.shape_)
    v = a.body()
    if d == "b":
        v = v if isinstance(v, F) else B(P(v))
    else:
        v = store_value(E, d, v, cx)
        range_obl(E, d, v, cx)
    return new_arr(a.shape_, d, v)


def copy_arr(E, a):
    if isinstance(a, SCsr):
        return csr_copy(E, a)
    if not isinstance(a, SArr):
        return a
    r = new_arr(a.shape_, a.dtype, a.body())
    if getattr(a, "mat", False):
        r.mat = True
    return r


def np_array(E, a, dtype=None, copy=True, order="K", ndmin=0, **kw):
    if isinstance(a, SCsr):
        raise Unsupported("np.array of a sparse matrix")
    if isinstance(a, SMasked):
        return a
    src = as_arr(E, a)
    if dtype is not None:
        return astype(E, src, dtype)
    if isinstance(a, SArr):
        return plain(copy_arr(E, a))
    return src


def np_asarray(E, a, dtype=None, order=None):
    if isinstance(a, SCsr):
        raise Unsupported("np.asarray of a sparse matrix")
    if isinstance(a, SMasked):
        return a
    src = as_arr(E, a)
    if dtype is not None and dt(dtype) != src.dtype:
        return astype(E, src, dtype)
    if getattr(src, "mat", False):
        return plain(src)
    return src


def np_squeeze(E, a, axis=None):
    a = as_arr(E, a)
    if axis is None:
        key = tuple(0 if P(simp(s, E.ctx)).const() == 1 else slice(None) for s in a.shape_)
    else:
        ax = [axis] if isinstance(axis, int) else list(axis)
        ax = [x + a.ndim if x < 0 else x for x in ax]
        for x in ax:
            same_dim(E, a.shape_[x], ONE)
        key = tuple(0 if j in ax else slice(None) for j in range(a.ndim))
    for j, (k, s) in enumerate(zip(key, a.shape_)):
        s = simp(s, E.ctx)
        if k != 0 and s.const() is None and not E.ctx.entails(Not(s.eq(ONE)), quick=True) and axis is None:
            # a symbolic extent that may be 1: squeeze would drop it
            E.squeezed.append(s)
    if all(k == 0 for k in key):
        return new_arr([], a.dtype, a.get([ZERO] * a.ndim))
    return view(E, a, key)


def flat_coords(f, shape, order="C"):
    """index list of the f-th element"""
    dims = list(shape)
    out = []
    if order == "C":
        rest = f
        for d in reversed(dims[1:]):
            out.append(mod(rest, d))
            rest = fdiv(rest, d)
        out.append(rest)
        out.reverse()
    else:
        rest = f
        for d in dims[:-1]:
            out.append(mod(rest, d))
            rest = fdiv(rest, d)
        out.append(rest)
    return out


def flat_index(idx, shape, order="C"):
    r = ZERO
    if order == "C":
        for i, d in zip(idx, shape):
            r = r * P(d) + P(i)
    else:
        for i, d in reversed(list(zip(idx, shape))):
            r = r * P(d) + P(i)
    return r


def reshape(E, a, shape, order="C"):
    a = as_arr(E, a)
    order = order or "C"
    if order not in ("C", "F"):
        raise Unsupported("reshape order " + str(order))
    if isinstance(shape, (int, Poly)):
        shape = (shape,)
    total = ONE
    for s in a.shape_:
        total = total * s
    sh = []
    for s in shape:
        sh.append(None if (isinstance(s, int) and s == -1) else simp(P(s), E.ctx))
    known = ONE
    for s in sh:
        if s is not None:
            known = known * s
    if any(s is None for s in sh):
        q = simp(total / known, E.ctx)
        if not q.is_int:
            q = fdiv(total, known)
        sh = [q if s is None else s for s in sh]
    else:
        same_dim(E, known, total)
    # pure axis insertion/removal of unit axes keeps the view
    core_a = [(j, s) for j, s in enumerate(a.shape_) if P(s).const() != 1]
    core_s = [(j, s) for j, s in enumerate(sh) if s.const() != 1]
    if len(core_a) == len(core_s) and all(simp(x[1] - y[1], E.ctx) is ZERO for x, y in zip(core_a, core_s)):
        m = {x[0]: y[0] for x, y in zip(core_a, core_s)}
        axes = []
        for ax in a.axes:
            if ax[0] == "fix":
                axes.append(ax)
            elif ax[1] in m:
                axes.append(("ax", m[ax[1]], ax[2], ax[3]))
            else:
                axes.append(("fix", ax[2]))
        return SArr(a.buf, sh, axes)
    fs = formals(len(sh))
    f = flat_index(fs, sh, order)
    cx = ctx_for(E, sh)
    idx = [simp(i, cx) for i in flat_coords(f, a.shape_, order)]
    return new_arr(sh, a.dtype, simp(num(a.get(idx)), cx))


def isfortran(E, a):
    """F-ordered and not C-ordered; memory order is tracked for transposes and order='F' allocations only"""
    if not isinstance(a, SArr):
        return False
    return a.ndim == 2 and getattr(a, "fortran", None) == "flip"


def np_fill(E, a, v):
    assign_to_view(E, a, v)
    return None


def ufunc1(fn, keepint=False):
    def f(E, x, out=None, where=None, dtype=None, **kw):
        if where is not None and where is not True:
            raise Unsupported("ufunc where=")
        if isinstance(x, SCsr):
            raise Unsupported("ufunc of a sparse matrix")
        if not arrayish(x) and not isinstance(x, (list, tuple, np.ndarray)):
            r = fn(num(x))
            return finish_out(E, r if not isinstance(r, Poly) else concretise(simp(r, E.ctx)), out)
        if isinstance(x, (list, tuple, np.ndarray)):
            x = as_arr(E, x)
        d = x.arr.dtype if isinstance(x, SMasked) else x.dtype
        if not keepint and d not in FLTD:
            d = "f8"
        r = _mat(elementwise(E, lambda v: fn(num(v)), [x], d), x)
        return finish_out(E, r, out)
    return f


def ufunc2(op):
    def f(E, x, y, out=None, **kw):
        if kw.get("where") is not None:
            raise Unsupported("ufunc where=")
        return finish_out(E, E.binop(op, x, y), out)
    return f


def np_maxmin2(kind):
    def f(E, x, y, out=None):
        d = strong(join(*[v.dtype if isinstance(v, SArr) else scalar_dtype(v) for v in (x, y)]))
        fn = (lambda a, b: Ite(num(a) >= num(b), num(a), num(b))) if kind == "max" else (lambda a, b: Ite(num(a) <= num(b), num(a), num(b)))
        return finish_out(E, elementwise(E, fn, [x, y], d), out)
    return f


def np_where(E, c, x=None, y=None):
    if x is None:
        return (filtered(E, c),)
    d = strong(join(*[v.dtype if isinstance(v, SArr) else scalar_dtype(v) for v in (x, y)]))
    return elementwise(E, lambda g, a, b: Ite(B(g), num(a), num(b)), [c, x, y], d)


def np_arange(E, *a, dtype=None):
    a = [x for x in a]
    if len(a) == 1:
        lo, hi, st = ZERO, num(a[0]), 1
    else:
        lo, hi = num(a[0]), num(a[1])
        st = a[2] if len(a) > 2 else 1
    if st != 1 or not lo.is_int or not hi.is_int:
        raise Unsupported("arange with step")
    n = simp(hi - lo, E.ctx)
    if not E.ctx.entails(n >= P(0)):
        n = Ite(n >= P(0), n, ZERO)
    return new_arr([n], dt(dtype, "i8"), lo + formals(1)[0])


def filtered(E, c):
    """the increasing indices at which a 1-d condition holds; ghost rank: where an index stands in the result"""
    from smt import declare_array, ARR, MONO
    if E.loopvars:
        raise Unsupported("np.where(condition) in a loop")
    c = as_arr(E, c)
    if c.ndim != 1:
        raise Unsupported("np.where(condition) of rank %d" % c.ndim)
    N = c.shape_[0]
    f0 = formals(1)
    body = simp_f(B(c.get(f0)), ctx_for(E, [N]))
    cond = lambda i: apply_body(body, [i])
    wn, rn = E.site_name("where"), E.site_name("rank")
    n = P(var(E.site_name("nwhere"), "I"))
    E.assume(n >= P(0), n <= N)

    def wf(idx):
        j = idx[0]
        w = sel(wn, [j], "I")
        return [Implies(And(P(0) <= j, j < n), And(P(0) <= w, w < N, cond(w), sel(rn, [w], "I").eq(j)))]

    def rf(idx):
        i = idx[0]
        r = sel(rn, [i], "I")
        return [Implies(And(P(0) <= i, i < N, cond(i)), And(P(0) <= r, r < n, sel(wn, [r], "I").eq(i)))]

    def rrw(args, ctx):
        a = args[0].as_atom()
        if a is not None and a.kind == "sel" and a.args[0] == wn:
            j = a.args[1][0] if isinstance(a.args[1], tuple) else a.args[1]
            if ctx.entails(And(P(0) <= j, j < n)):
                return j
        return None
    declare_array(wn, "I", wf)
    declare_array(rn, "I", rf, rewrite=rrw)
    for w in E.witnesses:
        E.assume(*rf([P(w)]))
    r = new_arr([n], "i8", sel(wn, formals(1), "I"))
    r.buf.ghost = (lambda j: sel(wn, [P(j)], "I"), lambda i: sel(rn, [P(i)], "I"), n)
    E.filters.append(r.buf.ghost)
    return r


def linspace(E, a, b, num_=50, **kw):
    a, b, n = num(a), num(b), num(num_)
    d = simp(b - a, E.ctx)
    f = formals(1)[0]
    if simp(d - (n - 1), E.ctx) is ZERO:
        return new_arr([n], "f8", a + f)
    if not E.ctx.entails(n > P(1)):
        raise Unsupported("linspace")
    return new_arr([n], "f8", a + f * d / (n - 1))


def np_clip(E, a, lo=None, hi=None, out=None):
    r = a
    if lo is not None:
        r = np_maxmin2("max")(E, r, lo)
    if hi is not None:
        r = np_maxmin2("min")(E, r, hi)
    return finish_out(E, r, out)


def permutation(E, n):
    """an arbitrary permutation of 0..n-1 (with its inverse)"""
    from smt import declare_array
    if E.loopvars:
        raise Unsupported("random permutation in a loop")
    pn, qn = E.site_name("perm"), E.site_name("invperm")

    def mk(x, y):
        def facts(idx):
            j = idx[0]
            w = sel(x, [j], "I")
            return [Implies(And(P(0) <= j, j < n), And(P(0) <= w, w < n, sel(y, [w], "I").eq(j)))]

        def rw(args, ctx):
            a = args[0].as_atom()
            if a is not None and a.kind == "sel" and a.args[0] == y:
                j = a.args[1][0] if isinstance(a.args[1], tuple) else a.args[1]
                if ctx.entails(And(P(0) <= j, j < n)):
                    return j
            return None
        declare_array(x, "I", facts, rewrite=rw)
    mk(pn, qn)
    mk(qn, pn)
    return pn, qn


def rd_shuffle(E, a):
    if not isinstance(a, SArr) or a.ndim != 1:
        raise Unsupported("shuffle of rank other than one")
    n = a.shape_[0]
    pn, qn = permutation(E, n)
    old = copy_arr(E, a)
    write_view(E, a, lambda idx: old.get([sel(pn, [idx[0]], "I")]))
    g = getattr(a.buf, "ghost", None)
    E.shuffles.append((lambda j: old.get([sel(pn, [P(j)], "I")]), (lambda i: sel(qn, [g[1](i)], "I")) if g else (lambda i: sel(qn, [P(i)], "I")), n))


def rd_normal(E, loc=0.0, scale=1.0, size=None):
    if size is None:
        return E.fresh("rndn", "R")
    sh = shape_of(E, size)
    return new_arr(sh, "f8", E.fresh_array("rndn", sh, "f8"))


def np_isscalar(E, x):
    return isinstance(x, (int, float, bool, Poly, str, np.generic, F))


def np_diag(E, a, k=0):
    if isinstance(a, SArr) and a.ndim == 2:
        f = formals(1)[0]
        same_dim(E, a.shape_[0], a.shape_[1])
        return new_arr([a.shape_[0]], a.dtype, a.get([f, f]))
    a = as_arr(E, a)
    if a.ndim != 1:
        raise Unsupported("diag")
    i, j = formals(2)
    return new_arr([a.shape_[0]] * 2, a.dtype, ind(i.eq(j)) * num(a.get([i])))


def np_eye(E, n, dtype=None, M=None):
    i, j = formals(2)
    return new_arr([P(n), P(n)], dt(dtype), ind(i.eq(j)))


def np_concat(axis0):
    def f(E, parts, axis=None):
        ax = axis0 if axis0 is not None else (axis or 0)
        ps = [as_arr(E, p) for p in E.iterate_concrete(parts)]
        if axis0 == 1 and ps[0].ndim == 1:
            ax = 0
        if axis0 == 0:
            ps = [p if p.ndim > 1 else SArr(p.buf, [ONE] + p.shape_, [a if a[0] == "fix" else ("ax", a[1] + 1, a[2], a[3]) for a in p.axes]) for p in ps]
        d = ps[0].dtype
        for p in ps[1:]:
            d = join(d, p.dtype)
        nd = ps[0].ndim
        fs = formals(nd)
        off = ZERO
        pieces = []
        for p in ps:
            for j in range(nd):
                if j != ax:
                    same_dim(E, p.shape_[j], ps[0].shape_[j])
            idx = list(fs)
            idx[ax] = fs[ax] - off
            pieces.append((off, num(p.get(idx)) if d != "b" else p.get(idx)))
            off = off + p.shape_[ax]
        body = pieces[0][1]
        for o, b in pieces[1:]:
            body = Ite(fs[ax] >= o, b, body)
        sh = list(ps[0].shape_)
        sh[ax] = off
        return new_arr(sh, d, simp(body, ctx_for(E, sh)) if d != "b" else body)
    return f


def np_norm(E, a, ord=None, axis=None):
    raise Unsupported("norm")


def np_isnan(E, x):
    """values are reals: never NaN (assumption recorded)"""
    E.assumed.add("floating point values are finite reals (isnan/isinf are False)")
    if arrayish(x):
        return elementwise(E, lambda v: FALSE, [x], "b")
    return False


def np_outer(E, a, b):
    a, b = as_arr(E, a), as_arr(E, b)
    i, j = formals(2)
    return new_arr([a.shape_[0], b.shape_[0]], strong(join(a.dtype, b.dtype)), num(a.get([i])) * num(b.get([j])))


def np_cumsum(E, a, axis=None, **kw):
    a = as_arr(E, a)
    if a.ndim != 1:
        raise Unsupported("cumsum")
    t = var("cs!0")
    return new_arr(a.shape_, a.dtype, mk_sum(t, ZERO, formals(1)[0] + 1, num(a.get([P(t)]))))


def np_round(E, a, decimals=0, out=None):
    def rnd(v):
        if v.is_int:
            return v
        return roundv(E, v)
    return finish_out(E, ufunc1(rnd)(E, a), out)


def roundv(E, v):
    """nearest integer (either way at ties)"""
    return P(T._mk_atom("app", ("round", v), "I"))


# ------------------------------------------------------------------ random numbers: arbitrary values in range
def rnd_real(E, size, lo, hi, strict_hi=True):
    f = lambda idx, v: [P(lo) <= v, v < P(hi) if strict_hi else v <= P(hi)]
    if size is None:
        return E.fresh("rnd", "R", facts=lambda v: [P(lo) <= v, v < P(hi)])
    sh = shape_of(E, size)
    return new_arr(sh, "f8", E.fresh_array("rnd", sh, "f8", facts=f))


def rd_random(E, size=None):
    return rnd_real(E, size, 0, 1)


def rd_rand(E, *dims):
    return rnd_real(E, dims if dims else None, 0, 1)


def rd_randint(E, low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    lo, hi = num(low), num(high)
    if size is None:
        return E.fresh("rndi", "I", facts=lambda v: [lo <= v, v < hi])
    sh = shape_of(E, size)
    d = dt(dtype, "i8")
    return new_arr(sh, d, E.fresh_array("rndi", sh, d, facts=lambda idx, v: [lo <= v, v < hi]))


def rd_dirichlet(E, alpha, size=None):
    alpha = as_arr(E, alpha)
    K = alpha.shape_[0]
    lead = [] if size is None else shape_of(E, size)
    sh = lead + [K]
    body = E.fresh_array("dirichlet", sh, "f8", facts=lambda idx, v: [v > P(0)])
    nm = body.as_atom().args[0]
    info = ARR[nm]

    def rule(x, args, lo, hi, ctx):
        if args[-1].as_atom() is x and all(x not in q.deep for q in args[:-1]) and lo is ZERO and simp(hi - K, ctx) is ZERO:
            return ONE
        return None
    info.sumrule = rule
    note_draw(E, "dirichlet", alpha, lead, K, body)
    return new_arr(sh, "f8", body)


def note_draw(E, kind, par, lead, K, body):
    """ghost: the parameters every random vector was drawn with, per iteration of the loops around"""
    if E.trial:
        return
    nm = body.as_atom().args[0]
    nlv = len(E.loopvars)
    par = plain(par)
    E.draws[nm] = (kind, simp(num(par.get(formals(1))), E.ctx.extend(P(0) <= formals(1)[0], formals(1)[0] < K)), list(E.loopvars), nm, len(lead), K)


def rd_multinomial(E, n, pvals, size=None):
    pvals = as_arr(E, pvals)
    K = pvals.shape_[0]
    lead = [] if size is None else shape_of(E, size)
    sh = lead + [K]
    n = num(n)
    body = E.fresh_array("multinomial", sh, "i8", facts=lambda idx, v: [v >= P(0), v <= n])
    info = ARR[body.as_atom().args[0]]

    def rule(x, args, lo, hi, ctx):
        if args[-1].as_atom() is x and all(x not in q.deep for q in args[:-1]) and lo is ZERO and simp(hi - K, ctx) is ZERO:
            return n
        return None
    info.sumrule = rule
    note_draw(E, "multinomial", pvals, lead, K, body)
    return new_arr(sh, "i8", body)


def rd_seed(E, *a):
    return None


class SRandom:
    """numpy RandomState / Generator"""


def rd_permutation(E, n):
    if isinstance(n, SArr):
        r = copy_arr(E, n)
        rd_shuffle(E, r)
        return r
    pn, qn = permutation(E, num(n))
    return new_arr([num(n)], "i8", sel(pn, formals(1), "I"))


RANDOM = {"multinomial": rd_multinomial, "random": rd_random, "random_sample": rd_random, "rand": rd_rand, "randint": rd_randint, "dirichlet": rd_dirichlet, "seed": rd_seed,
          "uniform": lambda E, low=0.0, high=1.0, size=None: rnd_real(E, size, low, high), "normal": lambda E, *a, **k: rd_normal(E, *a, **k),
          "shuffle": lambda E, a: rd_shuffle(E, a), "permutation": rd_permutation}


# ------------------------------------------------------------------ sparse matrices
def csr_attr(E, o, name):
    if name == "shape":
        return o.shape
    if name == "ndim":
        return 2
    if name == "dtype":
        return npdt(o.dtype_)
    if name in ("indptr", "indices", "data"):
        v = getattr(o, name)
        if v is None:
            raise Unsupported("storage of sparse matrix %s is not modelled" % o.name)
        if name == "indices" and getattr(o, "onerow", False) and getattr(o, "canonical", False):
            v.distinct = True
        return v
    if name == "T":
        return csr_transpose(o)
    if name == "nnz":
        if o.data is not None:
            return concretise(o.data.shape_[0])
        raise Unsupported("nnz")
    if name == "A":
        return copy_arr(E, o.dense)
    if name == "format":
        return o.fmt
    if name in CSR_METHODS:
        return SBound(o, name)
    if hasattr(ssp.csr_matrix((1, 1)), name):
        raise Unsupported("sparse matrix attribute " + name)
    raise InterpRaise("AttributeError", name)


def csr_transpose(o):
    d = transpose(o.dense)
    d.fortran = None
    return SCsr(list(reversed(o.shape_)), o.dtype_, dense=d, fmt="csc" if o.fmt == "csr" else "csr", name="T")


def csr_dense_body(indptr, indices, data, dtype):
    i, j = formals(2)
    p = var("cp!0")
    return mk_sum(p, num(indptr.get([i])), num(indptr.get([i + 1])),
                  ind(num(indices.get([P(p)])).eq(j)) * num(data.get([P(p)])))


class LazyDense:
    """dense view of a matrix given by its storage: follows in-place changes of the data array"""


def csr_storage(E, shape, indptr, indices, data, fmt="csr", name="csr"):
    m = SCsr(shape, data.dtype, indptr, indices, data, None, fmt, name)
    return m


def _dense(self):
    if self._dense_ is not None:
        return self._dense_
    if self.data is None:
        return None
    return new_arr(self.shape_, self.dtype_, csr_dense_body(self.indptr, self.indices, self.data, self.dtype_), "dense(%s)" % self.name)


def _set_dense(self, v):
    self._dense_ = v


SCsr.dense = property(_dense, _set_dense)


def csr_from_dense(E, a, fmt="csr", dtype=None):
    a = as_arr(E, a)
    if a.ndim == 1:
        a = view(E, a, (None, slice(None)))
    if dtype is not None:
        a = astype(E, a, dtype)
    else:
        a = copy_arr(E, a)
    return SCsr(a.shape_, a.dtype, dense=a, fmt=fmt, name="sp")


def csr_ctor(fmt):
    def f(E, args, kwargs):
        a = args[0]
        shape = kwargs.get("shape", args[1] if len(args) > 1 else None)
        dtype = kwargs.get("dtype", args[2] if len(args) > 2 else None)
        if isinstance(a, SCsr):
            r = csr_copy(E, a) if kwargs.get("copy") else SCsr(a.shape_, a.dtype_, a.indptr, a.indices, a.data, a._dense_, fmt, a.name)
            r.canonical, r.onerow = getattr(a, "canonical", False), getattr(a, "onerow", False)
            return r if dtype is None else csr_astype(E, r, dt(dtype))
        if isinstance(a, SArr):
            return csr_from_dense(E, a, fmt, dtype)
        if isinstance(a, tuple) and len(a) == 3 and fmt == "csr":
            data, indices, indptr = [as_arr(E, x) for x in a]
            sh = shape_of(E, shape)
            n = data.shape_[0]
            same_dim(E, indices.shape_[0], n)
            same_dim(E, indptr.shape_[0], sh[0] + 1)
            # scipy's check_format: indptr[0]==0, indptr[-1]<=nnz
            E.obl("csr row pointers start at 0", num(indptr.get([ZERO])).eq(ZERO), kind="csr")
            E.obl("csr row pointers end within the data", num(indptr.get([sh[0]])) <= n, kind="csr")
            if dtype is not None:
                data = astype(E, data, dtype)
            return csr_storage(E, sh, indptr, indices, data)
        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple):
            data, (rows, cols) = as_arr(E, a[0]), [as_arr(E, x) for x in a[1]]
            if shape is None:
                raise Unsupported("coo matrix of inferred shape")
            sh = shape_of(E, shape)
            n = data.shape_[0]
            same_dim(E, rows.shape_[0], n)
            same_dim(E, cols.shape_[0], n)
            q = var("cq!0")
            i, j = formals(2)
            cx = E.ctx
            qv = var(E.site_name("co"))
            c2 = cx.extend(P(0) <= P(qv), P(qv) < n)
            E.ctx = c2
            try:
                E.obl("coordinate row in range", And(P(0) <= num(rows.get([P(qv)])), num(rows.get([P(qv)])) < sh[0]), kind="csr")
                E.obl("coordinate column in range", And(P(0) <= num(cols.get([P(qv)])), num(cols.get([P(qv)])) < sh[1]), kind="csr")
            finally:
                E.ctx = cx
            body = mk_sum(q, ZERO, n, ind(num(rows.get([P(q)])).eq(i)) * ind(num(cols.get([P(q)])).eq(j)) * num(data.get([P(q)])))
            m = SCsr(sh, data.dtype if dtype is None else dt(dtype), dense=new_arr(sh, data.dtype, body), fmt=fmt, name="coo")
            m.coo = (rows, cols, data)
            return m
        if isinstance(a, tuple) and len(a) == 2 and all(isinstance(x, (int, Poly)) for x in a):
            sh = shape_of(E, a)
            return SCsr(sh, dt(dtype), dense=new_arr(sh, dt(dtype), ZERO), fmt=fmt, name="zero")
        if isinstance(a, np.ndarray):
            return csr_from_dense(E, as_arr(E, a), fmt, dtype)
        raise Unsupported("sparse constructor")
    return f


def csr_copy(E, a):
    m = SCsr(a.shape_, a.dtype_, *[copy_arr(E, x) if x is not None else None for x in (a.indptr, a.indices, a.data)],
             dense=copy_arr(E, a._dense_) if a._dense_ is not None else None, fmt=a.fmt, name=a.name)
    m.canonical, m.onerow = getattr(a, "canonical", False), getattr(a, "onerow", False)
    return m


def csr_astype(E, a, d):
    r = csr_copy(E, a)
    r.dtype_ = d
    if r.data is not None:
        r.data = astype(E, r.data, npdt(d))
    if r._dense_ is not None:
        r._dense_ = astype(E, r._dense_, npdt(d))
    return r


def csr_map(E, a, fn, dtype=None):
    """fn(0)=0"""
    r = csr_copy(E, a)
    if dtype:
        r.dtype_ = dtype
    if r.data is not None:
        r.data = elementwise(E, lambda x: fn(num(x)), [r.data], dtype or r.data.dtype)
    if r._dense_ is not None:
        r._dense_ = elementwise(E, lambda x: fn(num(x)), [r._dense_], dtype or r._dense_.dtype)
    return r


class SDiag(SCsr):
    """a diagonal matrix"""
    diag = None


def sparse_diags(E, diagonals, offsets=0, shape=None, format=None, dtype=None):
    d = as_arr(E, diagonals)
    if num(offsets) is not ZERO or shape is not None or dtype is not None or d.ndim != 1:
        raise Unsupported("diagonals of this form")
    d = plain(d)
    n = d.shape_[0]
    i, j = formals(2)
    m = SDiag([n, n], d.dtype, dense=new_arr([n, n], d.dtype, ind(i.eq(j)) * num(d.get([i]))), fmt=format or "dia", name="diag")
    m.diag = copy_arr(E, d)
    return m


def csr_dot(E, a, b):
    if isinstance(a, SDiag):
        db = b.dense if isinstance(b, SCsr) else as_arr(E, b)
        db = plain(db)
        if db.ndim == 2:
            same_dim(E, a.shape_[1], db.shape_[0])
            i, j = formals(2)
            d = join(a.dtype_, db.dtype)
            r = new_arr(db.shape_, d, num(a.diag.get([i])) * num(db.get([i, j])))
            return SCsr(r.shape_, d, dense=r, fmt="csr", name="prod") if isinstance(b, SCsr) else r
    da = a.dense if isinstance(a, SCsr) else as_arr(E, a)
    db = b.dense if isinstance(b, SCsr) else as_arr(E, b)
    r = dot(E, plain(da), plain(db))
    if isinstance(a, SCsr) and isinstance(b, SCsr):
        return SCsr(r.shape_, r.dtype, dense=r, fmt="csr", name="prod")
    return r


def csr_binary(E, op, a, b):
    if op == "MatMult":
        return csr_dot(E, a, b)
    if op == "Mult":
        if arrayish(a) and arrayish(b):
            return csr_dot(E, a, b)
        s, m = (a, b) if isinstance(b, SCsr) else (b, a)
        if not isnum(s):
            raise Unsupported("sparse times object")
        return csr_map(E, m, lambda x: x * num(s), strong(join(m.dtype_, scalar_dtype(s))))
    if op == "Div" and isinstance(a, SCsr) and not arrayish(b):
        d = strong(join(a.dtype_, scalar_dtype(b)))
        return csr_map(E, a, lambda x: x / num(b), d if d in FLTD else "f8")
    if op in ("Add", "Sub"):
        da = a.dense if isinstance(a, SCsr) else as_arr(E, a)
        db = b.dense if isinstance(b, SCsr) else as_arr(E, b)
        if not arrayish(b) or not arrayish(a):
            raise InterpRaise("NotImplementedError", "adding a nonzero scalar to a sparse matrix is not supported")
        r = binary(E, op, plain(da), plain(db))
        if isinstance(a, SCsr) and isinstance(b, SCsr):
            return SCsr(r.shape_, r.dtype, dense=r, name="sum")
        r.mat = True
        return r
    raise Unsupported("sparse operator " + op)


def csr_getitem(E, o, k):
    d = o.dense
    if not isinstance(k, tuple):
        k = (k,)
    key = expand_key(d, k)
    r = getitem(E, plain(d), tuple(key))
    if not isinstance(r, SArr):
        return r
    if all(isinstance(x, slice) for x in key):
        lo0, n0, s0 = slice_bounds(E, key[0], d.shape_[0])
        lo1, n1, s1 = slice_bounds(E, key[1], d.shape_[1])
        if o.data is not None and s0 == 1 and s1 == 1 and lo1 is ZERO and simp(n1 - d.shape_[1], E.ctx) is ZERO:
            p0 = simp(num(o.indptr.get([lo0])), E.ctx)
            f = formals(1)[0]
            cnt = simp(num(o.indptr.get([lo0 + n0])) - p0, E.ctx)
            ip = new_arr([n0 + 1], "i4", simp(num(o.indptr.get([f + lo0])) - p0, ctx_for(E, [n0 + 1])))
            ix = new_arr([cnt], "i4", num(o.indices.get([f + p0])))
            da = new_arr([cnt], o.data.dtype, num(o.data.get([f + p0])))
            m = csr_storage(E, [n0, n1], ip, ix, da, o.fmt, "rows(%s)" % o.name)
            m.canonical = getattr(o, "canonical", False)
            m.onerow = n0 is ONE
            return m
        return SCsr(r.shape_, o.dtype_, dense=copy_arr(E, r), fmt=o.fmt, name="slice")
    if r.ndim == 1:
        # integer row/column of a sparse matrix stays 2-d
        if o.data is not None and not isinstance(key[0], (slice, SArr)) and isinstance(key[1], slice) and key[1] == slice(None) and E.ctx.entails(P(key[0]) >= ZERO):
            return csr_getitem(E, o, (slice(key[0], P(key[0]) + ONE), slice(None)))
        if not isinstance(key[0], (slice, SArr)):
            r2 = getitem(E, plain(d), (slice(*[None] * 3) if False else as_arr(E, [key[0]]), key[1]))
        elif not isinstance(key[1], (slice, SArr)):
            r2 = getitem(E, plain(d), (key[0], as_arr(E, [key[1]])))
        else:
            raise Unsupported("sparse fancy indexing")
        return SCsr(r2.shape_, o.dtype_, dense=r2, fmt=o.fmt, name="row")
    return SCsr(r.shape_, o.dtype_, dense=r, fmt=o.fmt, name="rows")


def csr_multiply(E, a, b):
    da = a.dense if isinstance(a, SCsr) else as_arr(E, a)
    db = b.dense if isinstance(b, SCsr) else b
    if not arrayish(db):
        return csr_binary(E, "Mult", a, b)
    r = binary(E, "Mult", plain(da), plain(db) if isinstance(db, SArr) else db)
    return SCsr(r.shape_, r.dtype, dense=r, fmt="csr", name="mult")


CSR_METHODS = {
    "dot": lambda E, o, b: csr_dot(E, o, b),
    "sum": lambda E, o, axis=None, dtype=None, out=None: np_sum(E, o, axis),
    "mean": lambda E, o, axis=None: _mk_mat(np_mean(E, o.dense, axis)),
    "max": lambda E, o, axis=None: np_minmax("max")(E, o.dense, axis),
    "min": lambda E, o, axis=None: np_minmax("min")(E, o.dense, axis),
    "copy": lambda E, o: csr_copy(E, o),
    "astype": lambda E, o, d, **k: csr_astype(E, o, dt(d)),
    "tocsr": lambda E, o, copy=False: o if o.fmt == "csr" else _asfmt(o, "csr"),
    "tocsc": lambda E, o, copy=False: _asfmt(o, "csc"),
    "tocoo": lambda E, o, copy=False: _asfmt(o, "coo"),
    "todense": lambda E, o: _mk_mat(copy_arr(E, o.dense)),
    "toarray": lambda E, o: copy_arr(E, o.dense),
    "multiply": csr_multiply,
    "transpose": lambda E, o: csr_transpose(o),
    "power": lambda E, o, n: csr_map(E, o, lambda x: x ** n),
    "sort_indices": lambda E, o: None,
    "sum_duplicates": lambda E, o: None,
    "eliminate_zeros": lambda E, o: None if o.data is None else _uns("eliminate_zeros with storage"),
}


def _uns(s):
    raise Unsupported(s)


def _asfmt(o, f):
    if o.fmt == f:
        return o
    return SCsr(o.shape_, o.dtype_, dense=o.dense, fmt=f, name=o.name)


def _mk_mat(a):
    if isinstance(a, SArr):
        a.mat = True
    return a


# ------------------------------------------------------------------ methods
def m_sort(E, o, axis=-1, **k):
    raise Unsupported("sort")


METHODS = {
    "sum": np_sum, "mean": np_mean, "max": np_minmax("max"), "min": np_minmax("min"),
    "argmax": np_argminmax("argmax"), "argmin": np_argminmax("argmin"), "any": np_any, "all": np_all,
    "dot": dot, "copy": lambda E, o, order="C": copy_arr(E, o), "astype": lambda E, o, d, copy=True, **k: astype(E, o, d, copy),
    "fill": np_fill, "squeeze": np_squeeze, "transpose": lambda E, o, *a: transpose(o) if not a else _uns("transpose axes"),
    "reshape": lambda E, o, *s, order="C": reshape(E, o, s[0] if len(s) == 1 else s, order),
    "ravel": lambda E, o, order="C": reshape(E, o, (-1,), order), "flatten": lambda E, o, order="C": copy_arr(E, reshape(E, o, (-1,), order)),
    "tolist": lambda E, o: _tolist(E, o), "item": lambda E, o, *a: getitem(E, o, a) if a else o.get([ZERO] * o.ndim),
    "cumsum": np_cumsum, "sort": m_sort, "round": np_round, "repeat": lambda E, o, *a, **k: _uns("repeat"), "nonzero": lambda E, o: _uns("nonzero"),
    "argsort": lambda E, o, *a, **k: _uns("argsort"), "trace": lambda E, o: np_sum(E, np_diag(E, o)),
    "diagonal": lambda E, o: np_diag(E, o), "clip": lambda E, o, a=None, b=None, out=None: np_clip(E, o, a, b, out), "toarray": None, "prod": None, "std": None, "var": None,
    "setflags": lambda E, o, **k: None,
}
for _k in [k for k, v in METHODS.items() if v is None]:
    del METHODS[_k]


def _tolist(E, o):
    r = copy_arr(E, o)
    r.is_list = True
    return r


def call_method(E, o, name, args, kwargs):
    if isinstance(o, SCsr):
        return CSR_METHODS[name](E, o, *args, **kwargs)
    if isinstance(o, SMasked):
        if name in ("sum",):
            return np_sum(E, o, *args, **kwargs)
        if name == "copy":
            return SMasked(copy_arr(E, o.arr), o.mask)
        raise Unsupported("method %s of a selection" % name)
    if isinstance(o, SRandom):
        return RANDOM[name](E, *args, **kwargs)
    if isinstance(o, SArr):
        return METHODS[name](E, o, *args, **kwargs)
    if isinstance(o, (Poly, F)):
        if name == "astype":
            return astype(E, o, args[0])
        return o
    if isinstance(o, list):
        l = list(o)
        if name == "append":
            l.append(args[0])
            E.setcell(("seq", o, None), l)
            return None
        if name == "extend":
            l.extend(E.iterate_concrete(args[0]))
            E.setcell(("seq", o, None), l)
            return None
        if name == "insert":
            l.insert(*args)
            E.setcell(("seq", o, None), l)
            return None
        if name == "pop":
            try:
                r = l.pop(*args)
            except IndexError as ex:
                raise InterpRaise("IndexError", str(ex))
            E.setcell(("seq", o, None), l)
            return r
        if name in ("index", "count", "copy"):
            try:
                return getattr(l, name)(*args)
            except ValueError as ex:
                raise InterpRaise("ValueError", str(ex))
        raise Unsupported("list.%s" % name)
    if isinstance(o, dict):
        if name in ("get", "keys", "values", "items", "copy"):
            return getattr(o, name)(*args)
        if name == "pop":
            if args[0] in o:
                v = o[args[0]]
                from interp import _MISSING
                E.setcell(("map", o, args[0]), _MISSING)
                return v
            if len(args) > 1:
                return args[1]
            raise InterpRaise("KeyError", str(args[0]))
        if name == "update":
            for k, v in dict(*args, **kwargs).items():
                E.setcell(("map", o, k), v)
            return None
        if name == "setdefault":
            if args[0] not in o:
                E.setcell(("map", o, args[0]), args[1] if len(args) > 1 else None)
            return o[args[0]]
        raise Unsupported("dict.%s" % name)
    if isinstance(o, set):
        if any(isinstance(a, (Poly, F)) for a in args):
            raise Unsupported("set of symbolic values")
        if name in ("add", "update", "discard", "remove"):
            raise Unsupported("set mutation")
        return getattr(o, name)(*args)
    if isinstance(o, str):
        if any(arrayish(a) or isinstance(a, (Poly, F)) for a in args) or name == "format":
            return "<formatted>"
        return getattr(o, name)(*args, **kwargs)
    if isinstance(o, tuple):
        return getattr(o, name)(*args, **kwargs)
    raise Unsupported("method %s of %r" % (name, type(o)))


# ------------------------------------------------------------------ builtins
def b_len(E, x):
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise InterpRaise("TypeError", "len() of unsized object")
        return concretise(x.shape_[0])
    if isinstance(x, SCsr):
        raise InterpRaise("TypeError", "sparse matrix length is ambiguous")
    if isinstance(x, SList):
        return concretise(x.n)
    if isinstance(x, SMasked):
        return mask_count(E, x.mask)
    if isinstance(x, SRange):
        return concretise(simp(x.hi - x.lo, E.ctx))
    if isinstance(x, Poly) or isinstance(x, (int, float)):
        raise InterpRaise("TypeError", "len() of a number")
    try:
        return len(x)
    except TypeError as ex:
        raise InterpRaise("TypeError", str(ex))


def b_range(E, *a):
    for x in a:
        if isinstance(x, float) or isinstance(x, Poly) and not x.is_int:
            raise InterpRaise("TypeError", "'float' object cannot be interpreted as an integer")
    a = [int(x) if isinstance(x, np.integer) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(a[0], a[1])
    st = a[2]
    return SRange(a[0], a[1], st)


def b_int(E, x=0, *a):
    if isinstance(x, SArr) and x.ndim == 0:
        x = x.get(())
    if isinstance(x, (Poly,)):
        return E.trunc(x)
    if isinstance(x, F):
        return ind(x)
    if isinstance(x, SArr):
        raise InterpRaise("TypeError", "only size-1 arrays can be converted")
    return int(x, *a)


def b_float(E, x=0.0):
    if isinstance(x, SArr):
        if x.ndim == 0:
            return x.get(())
        raise InterpRaise("TypeError", "only size-1 arrays can be converted")
    if isinstance(x, Poly):
        return x
    if isinstance(x, F):
        return ind(x)
    return float(x)


def b_abs(E, x):
    if arrayish(x):
        return ufunc1(lambda v: app("abs", v), True)(E, x)
    if isinstance(x, Poly):
        return simp(app("abs", x), E.ctx)
    return abs(x)


def b_minmax(kind):
    def f(E, *a, **kw):
        if kw:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            if isinstance(a[0], SArr):
                return np_minmax(kind)(E, a[0])
            a = E.iterate_concrete(a[0])
        if all(not isinstance(x, (Poly, F)) for x in a):
            return (max if kind == "max" else min)(a)
        r = num(a[0])
        for x in a[1:]:
            x = num(x)
            c = (x > r) if kind == "max" else (x < r)
            r = simp(Ite(c, x, r), E.ctx)
        return concretise(r)
    return f


def b_isinstance(E, o, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    for c in cs:
        if isinstance(o, SArr):
            if getattr(o, "is_list", False):
                if c is list:
                    return True
            elif c is np.ndarray or (c is np.matrix and getattr(o, "mat", False)):
                return True
        elif isinstance(o, SCsr):
            if c in (ssp.csr_matrix, ssp.spmatrix) and (c is not ssp.csr_matrix or o.fmt == "csr"):
                return True
        elif isinstance(o, Poly):
            if c is int and o.is_int or c is float and not o.is_int:
                return True
        elif isinstance(o, F):
            if c is bool:
                return True
        elif isinstance(c, type) and isinstance(o, c):
            return True
    return False


def b_sum(E, x, start=0):
    if isinstance(x, SArr):
        return np_sum(E, x, 0)
    if isinstance(x, SMasked):
        return np_sum(E, x)
    r = start
    for v in E.iterate_concrete(x):
        r = E.binop("Add", r, v)
    return r


def b_zip(E, *a):
    if all(isinstance(x, (list, tuple, range, str, dict)) or hasattr(x, "__next__") for x in a):
        return list(zip(*a))
    import loops
    return loops.SZip(list(a))


def b_enumerate(E, x, start=0):
    if isinstance(x, (list, tuple, range, str, dict)) or hasattr(x, "__next__"):
        return list(enumerate(x, start))
    return SEnum(x, start)


def b_type(E, x):
    if isinstance(x, SArr):
        return np.ndarray
    if isinstance(x, SCsr):
        return ssp.csr_matrix
    if isinstance(x, Poly):
        return int if x.is_int else float
    return type(x)


def b_any_all(kind):
    def f(E, x):
        if isinstance(x, SArr):
            return (np_any if kind == "any" else np_all)(E, x)
        r = FALSE if kind == "any" else TRUE
        for v in E.iterate_concrete(x):
            t = E.truth(v)
            t = B(t)
            r = Or(r, t) if kind == "any" else And(r, t)
        return True if r is TRUE else False if r is FALSE else r
    return f


def b_list(E, x=()):
    if isinstance(x, SArr):
        n = concretise(simp(x.shape_[0], E.ctx))
        if isinstance(n, int):
            return E.iterate_concrete(x)
        return _tolist(E, x)
    if isinstance(x, SRange):
        r = as_arr(E, x)
        r.is_list = True
        return r
    return list(E.iterate_concrete(x))


def b_tuple(E, x=()):
    return tuple(E.iterate_concrete(x))


def b_getattr(E, o, name, *d):
    try:
        return E.getattr(o, name)
    except InterpRaise:
        if d:
            return d[0]
        raise


def b_hasattr(E, o, name):
    try:
        E.getattr(o, name)
        return True
    except InterpRaise:
        return False


def b_round(E, x, nd=0):
    if isinstance(x, Poly):
        return x if x.is_int else roundv(E, x)
    return round(x, nd) if nd else round(x)


def b_print(E, *a, **k):
    E.printed += 1
    return None


def b_map(E, f, *a):
    return [E.call(f, list(x), {}) for x in zip(*[E.iterate_concrete(y) for y in a])]


def b_sorted(E, x, **kw):
    l = E.iterate_concrete(x)
    if any(isinstance(v, (Poly, F)) for v in l):
        raise Unsupported("sorting symbolic values")
    return sorted(l, **kw)


def m_floor(E, x):
    if isinstance(x, Poly):
        return floor_(simp(x, E.ctx))
    return math.floor(x)


def m_ceil(E, x):
    if isinstance(x, Poly):
        return -floor_(-simp(x, E.ctx))
    return math.ceil(x)


def m_log(E, x, *b):
    if b:
        raise Unsupported("log with base")
    return ln(num(x))


def ignore(E, *a, **k):
    return None


NATIVE = {}


def py_deepcopy(E, x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if x is None or isinstance(x, (Poly, F, int, float, str, bool, bytes, type, types.FunctionType, types.ModuleType, frozenset, np.generic, np.dtype)):
        return x
    if isinstance(x, SArr):
        r = copy_arr(E, x)
        r.is_list = getattr(x, "is_list", False)
    elif isinstance(x, SCsr):
        r = csr_copy(E, x)
    elif isinstance(x, np.ndarray):
        r = x.copy()
    elif isinstance(x, list):
        r = [py_deepcopy(E, y, memo) for y in x]
    elif isinstance(x, dict):
        r = {k: py_deepcopy(E, y, memo) for k, y in x.items()}
    elif isinstance(x, tuple):
        y = [py_deepcopy(E, y, memo) for y in x]
        r = type(x)(*y) if hasattr(x, "_fields") else tuple(y)
    else:
        raise Unsupported("deep copy of %s" % type(x))
    memo[id(x)] = r
    return r


def py_copy(E, x):
    if isinstance(x, (SArr, SCsr, np.ndarray)) or x is None or isinstance(x, (Poly, F, int, float, str, bool, type)):
        return py_deepcopy(E, x)
    if isinstance(x, (list, dict)):
        return x.copy()
    if isinstance(x, tuple):
        return x
    raise Unsupported("copy of %s" % type(x))


def reg(f, h):
    NATIVE[id(f)] = (f, h)


def _setup():
    r = reg
    lg = ufunc1(lambda v: ln(v))
    for f, h in [(np.sum, np_sum), (np.mean, np_mean), (np.max, np_minmax("max")), (np.amax, np_minmax("max")),
                 (np.min, np_minmax("min")), (np.amin, np_minmax("min")), (np.argmax, np_argminmax("argmax")),
                 (np.argmin, np_argminmax("argmin")), (np.any, np_any), (np.all, np_all), (np.dot, dot),
                 (np.zeros, np_zeros), (np.ones, np_ones), (np.empty, np_empty), (np.full, np_full),
                 (np.zeros_like, like(np_zeros)), (np.ones_like, like(np_ones)), (np.empty_like, like(np_empty)),
                 (np.array, np_array), (np.asarray, np_asarray), (np.copy, lambda E, a, **k: copy_arr(E, as_arr(E, a))),
                 (np.squeeze, np_squeeze), (np.reshape, lambda E, a, s, order="C": reshape(E, a, s, order)),
                 (np.ravel, lambda E, a, order="C": reshape(E, a, (-1,), order)),
                 (np.isfortran, isfortran), (np.log, lg), (np.exp, ufunc1(lambda v: exp(v))),
                 (np.sqrt, ufunc1(lambda v: app("sqrt", v))), (np.abs, lambda E, x, **k: csr_map(E, x, lambda v: app("abs", v)) if isinstance(x, SCsr) else ufunc1(lambda v: app("abs", v), True)(E, x, **k)),
                 (np.fabs, ufunc1(lambda v: app("abs", v))),
                 (np.matmul, dot),
                 (np.log1p, ufunc1(lambda v: ln(v + 1))), (np.expm1, ufunc1(lambda v: exp(v) - 1)),
                 (np.square, ufunc1(lambda v: v * v, True)), (np.reciprocal, ufunc1(lambda v: ONE / v)),
                 (np.negative, ufunc1(lambda v: -v, True)),
                 (scsp.digamma, ufunc1(lambda v: app("psi", v))), (scsp.psi, ufunc1(lambda v: app("psi", v))),
                 (scsp.logsumexp, lambda E, a, axis=None, keepdims=False: ufunc1(lambda v: ln(v))(E, np_sum(E, ufunc1(lambda v: exp(v))(E, as_arr(E, a)), axis=axis, keepdims=keepdims))),
                 (scsp.gammaln, ufunc1(lambda v: app("lgamma", v))), (scsp.loggamma, ufunc1(lambda v: app("lgamma", v))),
                 (np.add, ufunc2("Add")), (np.subtract, ufunc2("Sub")), (np.multiply, ufunc2("Mult")), (np.divide, ufunc2("Div")),
                 (np.true_divide, ufunc2("Div")), (np.power, ufunc2("Pow")), (np.mod, ufunc2("Mod")), (np.floor_divide, ufunc2("FloorDiv")),
                 (np.maximum, np_maxmin2("max")), (np.minimum, np_maxmin2("min")), (np.linspace, lambda E, *a, **k: linspace(E, *a, **k)), (np.clip, lambda E, *a, **k: np_clip(E, *a, **k)), (np.shape, lambda E, a: as_arr(E, a).shape), (np.where, np_where), (np.arange, np_arange),
                 (np.isscalar, np_isscalar), (np.diag, np_diag), (np.eye, np_eye), (np.outer, np_outer), (np.cumsum, np_cumsum),
                 (np.vstack, np_concat(0)), (np.hstack, np_concat(1)), (np.concatenate, np_concat(None)),
                 (np.isnan, np_isnan), (np.isinf, np_isnan), (np.around, np_round), (np.round, np_round),
                 (np.floor, ufunc1(lambda v: floor_(v))), (np.ceil, ufunc1(lambda v: -floor_(-v))),
                 (np.transpose, lambda E, a, axes=None: transpose(as_arr(E, a)) if axes is None else _uns("axes")),
                 (np.trace, lambda E, a: np_sum(E, np_diag(E, a))), (np.shape, lambda E, a: as_arr(E, a).shape),
                 (np.logical_and, lambda E, a, b: binary(E, "BitAnd", a, b)), (np.logical_or, lambda E, a, b: binary(E, "BitOr", a, b)),
                 (np.logical_not, lambda E, a: unary(E, "Invert", a)),
                 (np.ascontiguousarray, lambda E, a, dtype=None: copy_arr(E, as_arr(E, a)) if isfortran(E, a) else np_asarray(E, a, dtype)),
                 (np.newaxis, None),
                 (np.expand_dims, lambda E, a, axis: view(E, as_arr(E, a), tuple([slice(None)] * axis + [None]) if axis >= 0 else _uns("neg axis"))),
                 (np.atleast_2d, lambda E, a: a if as_arr(E, a).ndim >= 2 else view(E, as_arr(E, a), (None, slice(None)))),
                 (np.count_nonzero, lambda E, a: mask_count(E, as_arr(E, a))),
                 (np.random.random, rd_random), (np.random.rand, rd_rand), (np.random.uniform, lambda E, low=0.0, high=1.0, size=None: rnd_real(E, size, low, high)),
                 (np.random.randint, rd_randint), (np.random.dirichlet, rd_dirichlet), (np.random.multinomial, rd_multinomial), (np.random.seed, rd_seed),
                 (np.random.permutation, rd_permutation), (np.set_printoptions, ignore), (np.seterr, ignore),
                 (ssp.diags, sparse_diags),
                 (ssp.isspmatrix_csr, lambda E, x: isinstance(x, SCsr) and x.fmt == "csr"),
                 (ssp.issparse, lambda E, x: isinstance(x, SCsr)), (ssp.isspmatrix, lambda E, x: isinstance(x, SCsr)),
                 (len, b_len), (range, b_range), (int, b_int), (float, b_float), (abs, b_abs), (max, b_minmax("max")), (min, b_minmax("min")),
                 (isinstance, b_isinstance), (sum, b_sum), (zip, b_zip), (enumerate, b_enumerate), (type, b_type),
                 (any, b_any_all("any")), (all, b_any_all("all")), (list, b_list), (tuple, b_tuple), (getattr, b_getattr), (hasattr, b_hasattr),
                 (round, b_round), (print, b_print), (map, b_map), (sorted, b_sorted), (str, lambda E, *a: "<str>" if a and (arrayish(a[0]) or isinstance(a[0], (Poly, F))) else str(*a)),
                 (repr, lambda E, *a: "<repr>"), (bool, lambda E, x=False: E.truth(x)), (set, lambda E, x=(): set(E.iterate_concrete(x))),
                 (dict, lambda E, *a, **k: dict(*a, **k)), (id, lambda E, x: id(x)), (callable, lambda E, f: callable(f) or isinstance(f, (SFunc, SBound, FInfo))),
                 (slice, lambda E, *a: slice(*a)), (math.floor, m_floor), (math.ceil, m_ceil), (math.log, m_log),
                 (math.exp, lambda E, x: exp(num(x))), (math.sqrt, lambda E, x: app("sqrt", num(x))), (math.fabs, b_abs),
                 (math.isnan, np_isnan), (math.isinf, np_isnan), (math.lgamma, lambda E, x: app("lgamma", num(x))),
                 (pytime.time, lambda E: E.fresh("time", "R")), (sys.stdout.write, ignore), (sys.stderr.write, ignore), (sys.stdout.flush, ignore),
                 (pyrandom.random, lambda E: E.fresh("rnd", "R", facts=lambda v: [P(0) <= v, v < P(1)])),
                 (logging.info, ignore), (logging.debug, ignore), (logging.warning, ignore),
                 (slice, lambda E, *a: slice(*a)), (object, lambda E: SObjFresh("object")),
                 (pycopy.deepcopy, py_deepcopy), (pycopy.copy, py_copy),
                 ]:
        if h is not None:
            r(f, h)


_setup()

_CLASS = {}


def class_model(cls):
    if not _CLASS:
        for f in ("csr", "csc", "coo", "lil"):
            _CLASS[getattr(ssp, f + "_matrix")] = csr_ctor(f)
        _CLASS[np.ndarray] = lambda E, a, k: np_empty(E, *a, **k)
        _CLASS[np.random.RandomState] = lambda E, a, k: SRandom()
        for t in (np.float64, np.float32, np.int32, np.int64, np.uint8, np.uint16, np.int16, np.int8, np.bool_):
            _CLASS[t] = (lambda t: lambda E, a, k: astype(E, a[0], t) if a and (arrayish(a[0]) or isinstance(a[0], (Poly, F))) else
                         (float(a[0]) if issubclass(t, np.floating) else int(a[0]) if issubclass(t, np.integer) else bool(a[0])))(t)
        for t in (int, float, bool, list, tuple, dict, set, str, range, zip, enumerate, map, type, slice, object):
            h = NATIVE.get(id(t))
            if h:
                _CLASS[t] = (lambda h: lambda E, a, k: h[1](E, *a, **k))(h)
        _CLASS[np.matrix] = lambda E, a, k: _mk_mat(as_arr(E, a[0]))
    return _CLASS.get(cls)


def call_native(E, f, args, kwargs):
    ent = NATIVE.get(id(f))
    if ent is not None and ent[0] is f:
        try:
            return ent[1](E, *args, **kwargs)
        except TypeError as ex:
            if "argument" in str(ex):
                raise Unsupported("call of %s: %s" % (getattr(f, "__name__", f), ex))
            raise
    self = getattr(f, "__self__", None)
    nm = getattr(f, "__name__", "")
    if isinstance(self, np.random.RandomState):
        h = RANDOM.get(nm)
        if h is not None:
            return h(E, *args, **kwargs)
        raise Unsupported("random " + nm)
    if isinstance(self, SRandom) or isinstance(f, SObjFresh):
        raise Unsupported("random state method")
    if getattr(f, "__module__", None) in ("logging", "warnings", "time") or (self is not None and type(self).__module__ in ("logging", "_io")):
        return None
    if f is sys.stdout.flush or nm in ("write", "flush") and type(self).__name__ in ("TextIOWrapper", "EncodedFile", "StringIO", "_io.TextIOWrapper"):
        return None
    sym = lambda v: arrayish(v) or isinstance(v, (Poly, F, Undef, SFunc, SBound, SRange, SList)) or \
        isinstance(v, (list, tuple)) and any(sym(x) for x in v) or isinstance(v, dict) and any(sym(x) for x in v.values())
    if not any(sym(a) for a in list(args) + list(kwargs.values())):
        mod = getattr(f, "__module__", "") or ""
        if mod.split(".")[0] in ("numpy", "math", "builtins", "_operator", "functools", "itertools", "collections", "os", "posixpath", "enum", "typing") \
                and nm not in ("open", "exec", "eval", "system", "remove", "rmtree", "__import__"):
            try:
                return f(*args, **kwargs)
            except Exception as ex:
                raise InterpRaise(type(ex).__name__, str(ex))
    if not callable(f):
        raise InterpRaise("TypeError", "object is not callable")
    raise Unsupported("call of %s.%s" % (getattr(f, "__module__", "?"), getattr(f, "__qualname__", nm or repr(f))))


# ------------------------------------------------------------------ libc
_lconst = {}


def libc_const(nm):
    if not _lconst:
        _lconst["RAND_MAX"] = 2147483647
        tiny = sel("DBL_MIN", (), "R")
    if nm == "RAND_MAX":
        return 2147483647
    from fractions import Fraction
    if nm == "DBL_MIN":
        return P(Fraction(2) ** -1022)
    if nm == "FLT_MIN":
        return P(Fraction(2) ** -126)
    if nm == "DBL_MAX":
        return P(Fraction(sys.float_info.max))
    if nm == "FLT_MAX":
        return P((2 - Fraction(2) ** -23) * Fraction(2) ** 127)
    raise Unsupported(nm)


def libc(E, nm, args):
    if nm == "rand":
        E.assumed.add("rand() returns an arbitrary integer in [0, RAND_MAX]")
        return E.fresh("rand", "I", facts=lambda v: [P(0) <= v, v <= P(2147483647)])
    if nm == "srand" or nm == "free":
        return None
    if nm == "malloc":
        E.assumed.add("malloc does not fail")
        return ("malloc", args[0])
    if nm in ("log",):
        return ln(num(args[0]))
    if nm in ("exp", "fastexp", "FastExp"):
        return exp(num(args[0]))
    if nm == "sqrt":
        return app("sqrt", num(args[0]))
    if nm == "fabs":
        return app("abs", num(args[0]))
    if nm == "gsl_sf_psi":
        E.assumed.add("gsl_sf_psi is the digamma function")
        return app("psi", num(args[0]))
    if nm == "exp_approx":
        E.assumed.add("the exponential of fastexp.h is positive (an approximation of exp; machine range not modelled)")
        return app("exp_approx", num(args[0]))
    raise Unsupported("C function " + nm)
