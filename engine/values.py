"""Symbolic values: arrays are views on heap buffers whose content is a term over formal indices."""
from terms import *
import terms as T


class Unsupported(Exception):
    """the construct (or argument) is outside what the verifier models: the obligation stays undecided"""


class InterpRaise(Exception):
    """the interpreted program raised"""

    def __init__(self, exc, msg=""):
        Exception.__init__(self, "%s: %s" % (exc, msg))
        self.exc, self.msg = exc, msg


class Undef:
    """value that exists on some paths only; any use is Unsupported"""

    def __init__(self, why="undefined variable"):
        self.why = why

    def __repr__(self):
        return "<undef %s>" % self.why


_FORM = [var("#%d" % i) for i in range(8)]


def formals(n):
    return [P(a) for a in _FORM[:n]]


def formal_atoms(n):
    return _FORM[:n]


def apply_body(body, idx):
    return subst(body, {a: P(i) for a, i in zip(_FORM, idx)})


def isnum(v):
    return isinstance(v, (bool, int, float, Poly, Fraction)) and not isinstance(v, F)


def issym(v):
    return isinstance(v, (Poly, F, SArr, SCsr))


INTD = {"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"}
FLTD = {"f4", "f8", "f2"}
DT_RANGE = {"u1": (0, 256), "u2": (0, 65536), "i1": (-128, 128), "i2": (-32768, 32768)}


def concretise(p):
    """P -> python number where constant"""
    if isinstance(p, Poly):
        c = p.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return p


class Buf:
    _n = 0

    def __init__(self, dims, dtype, body, name=None):
        Buf._n += 1
        self.id = Buf._n
        self.dims = [P(d) for d in dims]
        self.dtype = dtype
        self.body = body
        self.name = name or "buf%d" % self.id
        self.epoch = 0
        self.readonly = False

    def __repr__(self):
        return "<Buf %s %s %s>" % (self.name, self.dims, self.dtype)


class SArr:
    """strided view: buffer axis b is  ('fix', p)  or ('ax', j, off, step)  of the view's axis j"""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, buf, shape=None, axes=None):
        self.buf = buf
        if shape is None:
            shape = list(buf.dims)
            axes = [("ax", j, ZERO, 1) for j in range(len(shape))]
        self.shape_ = [P(s) for s in shape]
        self.axes = axes

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def dtype(self):
        return self.buf.dtype

    def bufidx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                out.append(a[2] + P(idx[a[1]]) * P(a[3]))
        return out

    def get(self, idx):
        return apply_body(self.buf.body, self.bufidx([P(i) for i in idx]))

    def body(self):
        """content over formals of the view"""
        return self.get(formals(self.ndim))

    def whole(self):
        return len(self.axes) == len(self.shape_) and all(
            a[0] == "ax" and a[1] == j and a[2] is ZERO and a[3] == 1 and self.shape_[j] is self.buf.dims[j]
            for j, a in enumerate(self.axes))

    def __getitem__(self, idx):
        """specification-side read (no bounds obligation)"""
        if not isinstance(idx, tuple):
            idx = (idx,)
        return self.get(idx)

    @property
    def shape(self):
        return tuple(concretise(s) for s in self.shape_)

    def __repr__(self):
        return "<SArr %s shape %s>" % (self.buf.name, self.shape_)


def new_arr(dims, dtype, body, name=None):
    return SArr(Buf(dims, dtype, body, name))


class SCsr:
    """CSR matrix: .shape, and arrays indptr/indices/data when known, and dense element view elem(i,j)"""

    def __init__(self, shape, dtype, indptr=None, indices=None, data=None, dense=None, fmt="csr", name=None, nnzpat=None):
        self.shape_ = [P(s) for s in shape]
        self.dtype_ = dtype
        self.indptr, self.indices, self.data = indptr, indices, data
        self._dense_ = dense        # SArr (2-d) or None: derived from the storage
        self.fmt = fmt
        self.name = name
        self.nnzpat = nnzpat

    @property
    def shape(self):
        return tuple(concretise(s) for s in self.shape_)

    ndim = 2

    def __getitem__(self, idx):
        return self.dense[idx]

    def __repr__(self):
        return "<SCsr %s %s>" % (self.name, self.shape_)


class SList:
    """list/tuple of symbolic length: item(i) over formal #0"""

    def __init__(self, n, arr):
        self.n, self.arr = n, arr


class SObjFresh:
    """an opaque object: only identity"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name


def join_dtype(a, b):
    order = ["b", "u1", "u2", "i4", "i8", "f4", "f8"]
    if a == b:
        return a
    if a == "O" or b == "O":
        return "O"
    ia = order.index(a) if a in order else 4
    ib = order.index(b) if b in order else 4
    if a in FLTD and b in INTD or b in FLTD and a in INTD:
        return "f8"
    return order[max(ia, ib)]
