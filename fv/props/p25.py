"""P25 factorisations, null vectors and determinants are exact."""
import itertools
from fractions import Fraction
import numpy as np
import scipy.sparse as sps
from hypothesis import strategies as st
from ..gens import sizes, seeds, EPS
from ..harness import Group, require, fail
from .p24 import square, sq, SING, KINDS, singular, cond, keep, same

RULE = """Cases are real and complex matrices of all shapes (dense random, integer, triangular, permutation-like, graded, rank deficient), Hessenberg
matrices with zero subdiagonals, pairs of numbers of all magnitudes, permutations. Non-trivial: the matrix had at least two rows
and columns, or the permutation moved something."""
MORE = 4                                             # quick runs: this many times the cases below
ORACLE = """products of the factors, exact rational determinants of integer matrices, numpy's slogdet, the definition of a null vector,
brute-force cycle counts"""


def rect(s):
    """A rectangular matrix from its description."""
    r = np.random.default_rng(s["seed"])
    m, n = s["m"], s["n"]
    k = s["kind"]
    if k == "int":
        A = r.integers(-3, 4, (m, n)).astype(float)
    elif k == "low":
        q = int(r.integers(1, max(2, min(m, n))))
        A = r.integers(-2, 3, (m, q)).astype(float) @ r.integers(-2, 3, (q, n)).astype(float)
    elif k == "sparse":
        A = r.standard_normal((m, n)) * (r.random((m, n)) < 0.4)
    elif k == "tri":
        A = np.triu(r.integers(-2, 3, (m, n)).astype(float))
    elif k == "perm":
        A = np.zeros((m, n))
        q = min(m, n)
        A[r.permutation(m)[:q], r.permutation(n)[:q]] = r.choice([1.0, -1.0, 2.0], q)
    elif k == "graded":
        A = r.standard_normal((m, n)) * 2.0 ** r.integers(-8, 9, (1, n))
    else:
        A = r.standard_normal((m, n))
    if s["dtype"] == "complex":
        A = A * (1 + 1j * r.integers(-2, 3, (m, n)))
    elif s["dtype"] == "int":
        A = np.round(A).astype(int)
    return A


shape = st.fixed_dictionaries({"m": sizes(8, 1, 14), "n": sizes(8, 1, 14), "seed": seeds, "dtype": st.sampled_from(["float", "float", "float", "complex", "int"]),
                               "kind": st.sampled_from(["normal", "int", "low", "sparse", "tri", "perm", "graded"])})


# ------------------------------------------------------------------ LU with full pivoting

def check_lucp(case):
    from funpy.linalg.lucp import lucp
    A = rect(case["A"])
    if case["square"]:
        k = min(A.shape)
        A = A[:k, :k].copy()
    n, m = A.shape
    if case["A"]["kind"] == "low" and case["A"]["dtype"] == "complex":
        return []
    a0, = keep(A)
    L, U, p, q = lucp(A, full=case["full"], **({} if case["fmt"] is None else {"format": case["fmt"]}))
    if not case["full"]:
        require(sps.issparse(L) and sps.issparse(U) and L.format == U.format == (case["fmt"] or "csr"), "factors are %s and %s", getattr(L, "format", type(L)), getattr(U, "format", type(U)))
        L, U = L.toarray(), U.toarray()
    k = min(n, m)
    require(L.shape == (n, k) and U.shape == (k, m), "factors have shapes %s and %s", L.shape, U.shape)
    require(sorted(p) == list(range(n)) and sorted(q) == list(range(m)), "pivots are not permutations: %s, %s", p, q)
    require(np.array_equal(np.triu(L), np.eye(n, k)), "first factor is not unit lower triangular")
    require(np.array_equal(np.tril(U, -1), np.zeros((k, m))), "second factor is not upper triangular")
    require(np.all(np.abs(L) <= 1 + 1e-12), "multiplier of size %.17g", np.abs(L).max())
    size = np.abs(A).max()
    res = np.abs(L @ U - A[np.ix_(p, q)]).max()
    S = np.linalg.svd(A, compute_uv=False)
    drop = 1e-7 * (size + 1) if S[-1] < 1e-6 * max(1, size) else 0      # pivots below the threshold end the elimination
    require(res <= 40 * k * EPS * size * k + drop, "product of the factors is off by %.3g", res)
    if 1 < n <= m and not drop:
        d = np.abs(np.diag(U))
        require(np.all(d[0] >= size * (1 - 1e-15)), "first pivot %.17g is not the largest entry %.17g", d[0], size)
    same((A,), (a0,), "lucp")
    return [case["A"]["kind"], case["A"]["dtype"], "tall" if n > m else "wide" if m > n else "square"] if min(n, m) > 1 and size else []


lucp_case = st.fixed_dictionaries({"A": shape, "square": st.booleans(), "full": st.booleans(), "fmt": st.sampled_from([None, "csr", "csc"])})


# ------------------------------------------------------------------ null vectors

def check_nullvec(case):
    from funpy.linalg import right_null_vector
    from funpy.linalg.nullspace import null_vector, left_null_vector
    got = singular(case["A"])
    if got is None:
        return []
    A = got[0]
    if case["cplx"]:
        r = np.random.default_rng(case["A"]["seed"] + 1)
        n = A.shape[0]
        A = (A * np.exp(1j * r.standard_normal((n, 1)))) @ np.diag(np.exp(1j * r.standard_normal(n)))
    n = A.shape[0]
    a0, = keep(A)
    norm = case["norm"]
    kw = {} if norm is None else {"normalize": norm}
    both = null_vector(A, left=True, **kw)
    require(isinstance(both, tuple) and len(both) == 2, "both null vectors: %s", type(both))
    for v, B, what in ((right_null_vector(A, **kw), A, "right null vector"), (left_null_vector(A, **kw), A.conj().T, "left null vector"),
                       (both[0], A, "right null vector"), (both[1], A.conj().T, "left null vector")):
        v = np.asarray(v)
        require(v.shape == (n,), "%s has shape %s", what, v.shape)
        s = np.linalg.norm(v)
        require(abs(s - 1) < 1e-13 if norm is not False else s > 0.9, "%s has length %.17g", what, s)
        require(np.abs(B @ v).max() <= 1e-11 * n * s * np.abs(A).max(), "%s: residual %.3g", what, np.abs(B @ v).max())
    same((A,), (a0,), "null_vector")
    return [case["A"]["kind"], "cplx" if case["cplx"] else "real", "norm=%s" % norm]


null_case = st.fixed_dictionaries({"A": sq(SING, 8, 2, st.just(0)), "cplx": st.booleans(), "norm": st.sampled_from([None, True, False])})


# ------------------------------------------------------------------ determinants

def exact_det(A):
    """The determinant of an integer matrix, exactly (Bareiss)."""
    M = [[int(v) for v in row] for row in A]
    n, sign, prev = len(M), 1, 1
    for k in range(n - 1):
        if M[k][k] == 0:
            for i in range(k + 1, n):
                if M[i][k]:
                    M[k], M[i], sign = M[i], M[k], -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                M[i][j] = (M[i][j] * M[k][k] - M[i][k] * M[k][j]) // prev
        prev = M[k][k]
    return sign * M[-1][-1]


def reference(A):
    """Sign and logarithm of the determinant, and the relative accuracy it can have."""
    n = A.shape[0]
    if np.array_equal(A, np.round(A)) and np.abs(A).max() < 1e6:
        d = exact_det(A)
        if d == 0:
            return 0, -np.inf, 0
        import math
        return (1 if d > 0 else -1), math.log(abs(d)), cond(A)
    s, l = np.linalg.slogdet(A)
    return s, l, cond(A)


def agrees(v, s, l, c, n, what):
    require(np.ndim(v) == 0, "%s: shape %s", what, np.shape(v))
    v = np.longdouble(v)
    r = np.longdouble(s) * np.exp(np.longdouble(l))
    require(abs(v - r) <= 1e-13 * n * n * (c + 10) * abs(r), "%s: %.17g instead of %.17g", what, v, r)


def check_det(case):
    from funpy.linalg import QR, QRCholesky
    from funpy.linalg.helpers import logdet, Determinant, logdet_detail_superlu
    from funpy.linalg.qr import qr
    A = square(case["A"])
    n = A.shape[0]
    s, l, c = reference(A)
    a0, = keep(A)
    labels = [case["A"]["kind"], "n=%s" % ("1" if n == 1 else "2-5" if n < 6 else "6+"), "positive" if s > 0 else "negative" if s < 0 else "zero"]
    if s == 0 or c > 1e9:
        if s == 0:
            v = QR(A).det()
            require(np.isfinite(v) and abs(v) <= 1e-10 * max(1.0, np.prod(np.linalg.norm(A, axis=0))), "determinant of a singular matrix: %r", v)
        return labels if s == 0 and n > 1 else []
    q, ch = QR(A), QRCholesky(A, rank=n)
    agrees(q.det(), s, l, c, n, "determinant by QR")
    agrees(ch.det(), s, l, c, n, "determinant by QR (pseudo-inverse solver)")
    require(q.det_sign() == s, "sign of the determinant: %r instead of %r", q.det_sign(), s)
    for fmt in (sps.csc_matrix, sps.csr_matrix):
        M = fmt(A)
        if case["perm"]:
            r = np.random.default_rng(case["A"]["seed"] + 3)
            P, Q = r.permutation(n), r.permutation(n)
            M = fmt(A[np.ix_(P, Q)])
            par = np.linalg.det(np.eye(n)[P]) * np.linalg.det(np.eye(n)[Q])
        else:
            par = 1
        sg, lg = logdet(M)
        require(np.isrealobj(sg) and sg == round(s * par), "sign of the determinant of a sparse matrix: %r instead of %r", sg, s * par)
        require(abs(lg - l) <= 1e-13 * n * n * (c + 10) * max(1, abs(l)), "log-determinant of a sparse matrix: %.17g instead of %.17g", lg, l)
        d = Determinant(logdet=lg, sign=sg)
        require(d() == (sg, lg), "stored determinant: %s", d())
        agrees(d.det() * par, s, l, c * max(1, abs(l)), n, "stored determinant")
    for piv in (True, False):
        out = qr(A, pivoting=piv)
        k = out[-1]
        require(round(np.linalg.det(out[0])) == (-1) ** k, "orthogonal factor has determinant %.3g but %d reflections are counted", np.linalg.det(out[0]), k)
    same((A,), (a0,), "determinant")
    return labels if n > 1 else []


det_case = st.fixed_dictionaries({"A": sq(KINDS + SING[1:3], 8, 1), "perm": st.booleans()}).filter(lambda c: c["A"]["n"] > 1 or c["A"]["kind"] in KINDS)


def check_sparse(case):
    """Sparse matrices for which the column ordering of the factorisation matters."""
    from funpy.linalg.helpers import logdet
    r = np.random.default_rng(case["seed"])
    n = case["n"]
    D = r.integers(-3, 4, (n, n)).astype(float) * (r.random((n, n)) < case["dens"])
    D += np.diag(r.choice([-2.0, 1.0, 3.0, 5.0], n))[r.permutation(n)]
    c = cond(D)
    if c > 1e8:
        return []
    s, l = np.linalg.slogdet(D)
    M = sps.csc_matrix(D) if case["csc"] else sps.csr_matrix(D)
    m0 = M.toarray()
    sg, lg = logdet(M)
    require(sg == s, "sign of the determinant of a sparse matrix: %r instead of %r", sg, s)
    require(abs(lg - l) <= 1e-13 * n * n * c * max(1, abs(l)), "log-determinant of a sparse matrix: %.17g instead of %.17g", lg, l)
    require(np.array_equal(M.toarray(), m0), "logdet changed its matrix")
    return ["n=%s" % ("2-9" if n < 10 else "10+")] if n > 1 else []


sparse_case = st.fixed_dictionaries({"n": sizes(20, 2, 40), "seed": seeds, "dens": st.sampled_from([0.05, 0.15, 0.3, 0.7]), "csc": st.booleans()})


# ------------------------------------------------------------------ wide matrices: determinants of the remaining columns

def check_wide(case):
    from funpy.linalg import QR, QRCholesky
    A = rect({**case["A"], "m": case["m"], "n": case["m"] + 1, "dtype": "float"})
    m = case["m"]
    S = np.linalg.svd(A, compute_uv=False)
    if S[-1] < 1e-4 * S[0] or S[0] == 0:
        return []
    a0, = keep(A)
    ch, q = QRCholesky(A, rank=m), QR(A, tol=1e-12 * S[0])
    j = ch.internal_embedding_parameter
    require(0 <= j <= m, "embedding parameter %r", j)
    B = np.delete(A, j, 1)
    c = cond(B)
    labels = [case["A"]["kind"]]
    if c < 1e6:
        s, l, _ = reference(B)
        agrees(ch.det(), s, l, c, m, "determinant without the column of the embedding parameter")
        agrees(q.det(), s, l, c, m, "determinant without the last pivot column")
        require(q.det_sign() == s, "sign of the determinant: %r instead of %r", q.det_sign(), s)
    C = A[:, :-1]
    c = cond(C)
    if c < 1e6:
        s, l, _ = reference(C)
        agrees(ch.detH(), s, l, c * 10, m, "determinant without the last column")
        labels.append("last column")
    same((A,), (a0,), "determinant")
    return labels if m > 1 else []


wide_case = st.fixed_dictionaries({"A": shape, "m": sizes(8, 1, 12)})


# ------------------------------------------------------------------ Hessenberg matrices

def check_hess(case):
    from funpy.linalg.helpers import slogdet_hessenberg, detH
    r = np.random.default_rng(case["seed"])
    n = case["n"]
    H = np.triu(r.integers(-3, 4, (n, n)).astype(float) if case["ints"] else r.standard_normal((n, n)), -1)
    for i in case["zero"]:
        if n > 1:
            H[1 + i % (n - 1), i % (n - 1)] = 0
    if case["zdiag"] and n > 1:
        H[-1, -1] = 0
    H *= 2.0 ** case["scale"]
    c = cond(H)
    if c > 1e7:
        return []
    h0, = keep(H)
    s, l = np.linalg.slogdet(H)
    sg, lg = slogdet_hessenberg(H)
    require(sg == s, "sign %r instead of %r", sg, s)
    require(abs(lg - l) <= 1e-13 * n * n * c * max(1, abs(l)), "log-determinant %.17g instead of %.17g", lg, l)
    v = detH(H)
    grow = np.prod(np.abs(H).sum(1)) / np.exp(l)      # the recursion adds up products of entries
    require(abs(v - s * np.exp(l)) <= 1e-12 * n * n * (c + grow) * np.exp(l), "determinant %.17g instead of %.17g", v, s * np.exp(l))
    same((H,), (h0,), "Hessenberg determinant")
    return ["zero subdiagonal" if case["zero"] else "full", "scale=%d" % case["scale"]] if n > 1 else []


hess_case = st.fixed_dictionaries({"n": sizes(10, 1), "seed": seeds, "ints": st.booleans(), "zero": st.lists(st.integers(0, 9), max_size=2),
                                   "zdiag": st.booleans(), "scale": st.sampled_from([0, 0, 4, -4, 30, -30])})


def check_givens(case):
    from funpy.linalg.helpers import givensAlgorithm
    f, g = (m * 10.0 ** e for m, e in case["fg"])
    c, s, r = givensAlgorithm(f, g)
    h = float(np.hypot(np.longdouble(f), np.longdouble(g)))
    require(np.all(np.isfinite([c, s, r])), "not finite: %r", (c, s, r))
    require(abs(c * c + s * s - 1) <= 8 * EPS, "not a rotation: c = %.17g, s = %.17g", c, s)
    require(abs(abs(r) - h) <= 8 * EPS * h + 1e-320, "r = %.17g instead of %.17g", r, h)
    if h:
        require(abs(c * (f / h) + s * (g / h) - r / h) <= 16 * EPS, "c f + s g = %.17g instead of %.17g", c * f + s * g, r)
        require(abs(c * (g / h) - s * (f / h)) <= 16 * EPS, "c g - s f = %.3g", c * g - s * f)
    return ["zero" if not (f and g) else "scaled" if max(abs(f), abs(g)) >= 1e15 or max(abs(f), abs(g)) <= 1e-15 else "plain", "f>g" if abs(f) > abs(g) else "f<=g"]


mant = st.one_of(st.sampled_from([0.0, 1.0, -1.0]), st.floats(1, 10), st.floats(-10, -1))
givens_case = st.fixed_dictionaries({"fg": st.tuples(st.tuples(mant, st.one_of(st.integers(-3, 3), st.integers(-250, 250))).map(list),
                                                     st.tuples(mant, st.one_of(st.integers(-3, 3), st.integers(-250, 250))).map(list)).map(list)})


def check_swaps(case):
    from funpy.linalg.helpers import minimumSwaps, permutation_vector_to_matrix
    p = case["p"]
    n = len(p)
    arg = np.array(p) if case["arr"] else list(p)
    k = minimumSwaps(arg)
    require(list(arg) == p, "minimumSwaps changed its argument")
    seen, cyc = set(), 0
    for i in range(n):
        if i not in seen:
            cyc += 1
            while i not in seen:
                seen.add(i)
                i = p[i]
    require(k == n - cyc, "%d swaps for a permutation with %d cycles of %d entries", k, cyc, n)
    M = permutation_vector_to_matrix(arg).toarray()
    R = np.zeros((n, n))
    R[p, range(n)] = 1
    require(np.array_equal(M, R), "permutation matrix differs")
    if n < 9:
        require(round(np.linalg.det(M)) == (-1) ** k, "parity differs from the determinant")
    return ["moved"] if p != sorted(p) else []


swaps_case = st.fixed_dictionaries({"p": st.integers(1, 12).flatmap(lambda n: st.permutations(list(range(n)))), "arr": st.booleans()})


# ------------------------------------------------------------------ QR with a count of the reflections

def check_qr(case):
    from funpy.linalg.qr import qr
    A = rect(case["A"])
    if np.iscomplexobj(A):
        A = A.real.copy()
    M, N = A.shape
    size = max(1e-300, float(np.abs(A).max()))
    a0, = keep(A)
    mode, piv = case["mode"], case["piv"]
    out = qr(A, mode=mode, pivoting=piv)
    same((A,), (a0,), "qr")
    rest = list(out)
    if mode == "r":
        R = rest[0]
        p = rest[1] if piv else np.arange(N)
        require(R.shape == (M, N), "triangular factor has shape %s", R.shape)
        require(np.abs(R.T @ R - A[:, p].T @ A[:, p]).max() <= 1e-13 * M * N * size**2, "triangular factor has another Gram matrix")
        return [mode, "pivoting" if piv else "plain"] if min(M, N) > 1 else []
    Q, R = rest[0], rest[1]
    p = rest[2] if piv else np.arange(N)
    k = rest[-1]
    K = min(M, N) if mode == "economic" else M
    require(Q.shape == (M, K) and R.shape == (K, N), "factors have shapes %s and %s", Q.shape, R.shape)
    require(np.array_equal(np.tril(R, -1), np.zeros_like(R)), "second factor is not upper triangular")
    require(sorted(p) == list(range(N)), "pivots are not a permutation")
    require(np.abs(Q.T @ Q - np.eye(K)).max() <= 1e-13 * M, "first factor is not orthogonal")
    require(np.abs(Q @ R - A[:, p]).max() <= 1e-13 * M * N * size, "product of the factors is off by %.3g", np.abs(Q @ R - A[:, p]).max())
    if piv:
        d = np.abs(np.diag(R))
        require(np.all(d[1:] <= d[:-1] * (1 + 1e-10) + 1e-13 * size), "diagonal of the triangular factor is not decreasing")
    if K == M:
        require(round(np.linalg.det(Q)) == (-1) ** int(k), "orthogonal factor has determinant %.3g but %d reflections are counted", np.linalg.det(Q), k)
    return [mode, "pivoting" if piv else "plain", "tall" if M > N else "wide" if M < N else "square"] if min(M, N) > 1 else []


qr_case = st.fixed_dictionaries({"A": shape, "mode": st.sampled_from(["full", "full", "economic", "r"]), "piv": st.booleans()})

GROUPS = [
    Group("lucp", lucp_case, check_lucp, quick=700),
    Group("null", null_case, check_nullvec, quick=500),
    Group("det", det_case, check_det, quick=700, weight=2),
    Group("sparse", sparse_case, check_sparse, quick=400),
    Group("wide", wide_case, check_wide, quick=500),
    Group("hess", hess_case, check_hess, quick=500),
    Group("givens", givens_case, check_givens, quick=600),
    Group("swaps", swaps_case, check_swaps, quick=400),
    Group("qr", qr_case, check_qr, quick=600),
]
