from spec import contract

VT = "sidetopics.util.vt_fast."
V = "sidetopics.util.vectrans."
DT = {"f8": "f8", "f4": "f4"}


@contract("C05", targets=lambda d: [VT + "vec_transpose_%sr" % d], variants=["f8", "f4"])
def dense_kernel(v, d):
    r, c, p, m = sizes(v)
    A = v.arr("A", (r, c), d)
    out = v.call(VT + "vec_transpose_%sr" % d, A, p)
    v.has_shape("result has c*p rows and r/p columns", out, (c * p, m))
    v.forall("element (i,j) moves to row j*p + i mod p, column i div p", [r, c],
             lambda i, j: v.eq(out[j * p + v.mod(i, p), v.fdiv(i, p)], A[i, j]))


def moved(v, name, out, A, r, c, p, m):
    v.has_shape(name + ": result has c*p rows and r/p columns", out, (c * p, m))
    D = v.dense(A)
    O = v.dense(out)
    v.forall(name + ": element (i,j) moves to row j*p + i mod p, column i div p", [r, c],
             lambda i, j: v.eq(O[j * p + v.mod(i, p), v.fdiv(i, p)], D[i, j]))


def sizes(v):
    c, p, m = v.size("c"), v.size("p"), v.size("m")
    return m * p, c, p, m


@contract("C05", targets=lambda d: [VT + "sparse_vec_transpose_%sr" % d], variants=["f8", "f4", "i4"])
def sparse_kernel(v, d):
    r, c, p, m = sizes(v)
    A = v.csr("A", (r, c), d)
    out = v.call(VT + "sparse_vec_transpose_%sr" % d, A.data, A.indices, A.indptr, r, c, p)
    moved(v, d, out, A, r, c, p, m)


@contract("C05", targets=[V + "vec_transpose_csr", V + "_vec_transpose_csr_jit"], variants=["f8", "f4", "i4", "i8"])
def sparse_wrapper(v, d):
    r, c, p, m = sizes(v)
    A = v.csr("A", (r, c), d)
    out = v.call(V + "vec_transpose_csr", A, p)
    moved(v, d, out, A, r, c, p, m)


@contract("C05", targets=[V + "vec_transpose"], variants=["f8", "f4", "i4", "i8"])
def dense_wrapper(v, d):
    r, c, p, m = sizes(v)
    A = v.arr("A", (r, c), d)
    out = v.call(V + "vec_transpose", A, p)
    moved(v, d, out, A, r, c, p, m)
    if not v.sym:
        v.ensure("the result keeps the element type", out.dtype == A.dtype)


@contract("C05", targets=[V + "sp_vec_trans_matrix", V + "vec"])
def transpose_matrix(v):
    r, c = v.size("r"), v.size("c")
    A = v.arr("A", (r, c), "f8")
    T = v.call(V + "sp_vec_trans_matrix", (r, c))
    v.has_shape("square of order r*c", T, (r * c, r * c))
    x = v.call(V + "vec", A)
    v.has_shape("one column", x, (r * c, 1))
    v.forall("vec stacks the columns", [r, c], lambda i, j: v.eq(x[i + j * r, 0], A[i, j]))
    D = v.dense(T)
    y = v.call(V + "vec", v.T(A))
    v.forall("row i*c + j of the matrix selects position i + j*r", [r, c, r * c],
             lambda i, j, q: v.eq(D[i * c + j, q], v.ind(v.eq(q, i + j * r))))
    v.forall("T vec(A) = vec(A transposed)", [r, c], lambda i, j: v.eq(v.sum(r * c, lambda q: D[i * c + j, q] * x[q, 0]), y[i * c + j, 0]))
