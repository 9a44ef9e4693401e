"""P19 sparse and structured-matrix helpers match dense linear algebra."""
import numpy as np
import scipy.sparse as sps
import scipy.linalg as sla
from fractions import Fraction
from hypothesis import strategies as st
from ..gens import sizes, seeds, EPS
from ..harness import Group, require, fail

RULE = """Cases are sparse matrices (shape, density, values, empty rows and columns, explicitly stored zeros, unsorted or repeated column
indices, real and complex), index sets, orders, first columns and rows of Toeplitz and Hankel matrices on both sides of the size at
which the construction changes, block lists and sizes. Non-trivial: the matrix or vector had a non-zero entry and the operation
had something to do (a row to delete, an order that is not the identity, ...)."""
MORE = 2                                             # quick runs: this many times the cases below
ORACLE = """the same operation on the dense matrix with numpy, scipy.linalg.toeplitz / hankel, and exact integer arithmetic for the
size helpers"""


def build(s, fmt):
    """A sparse matrix from its description, and its dense counterpart."""
    r = np.random.default_rng(s["seed"])
    m, n = s["m"], s["n"]
    D = r.standard_normal((m, n)) if not s["ints"] else r.integers(-3, 4, (m, n)).astype(float)
    D *= r.random((m, n)) < s["dens"]
    if s["cplx"]:
        D = D * (1 + 1j * r.integers(-2, 3, (m, n)))
    for i in s["norow"]:
        D[i % m] = 0
    for j in s["nocol"]:
        D[:, j % n] = 0
    keep = D != 0
    if s["zeros"]:
        keep |= r.random((m, n)) < 0.2        # explicitly stored zeros
    i, j = np.nonzero(keep)
    v = D[i, j]
    if s["dup"] and i.size:                      # entries stored in two parts (exact halves)
        i, j, v = np.concatenate([i, i]), np.concatenate([j, j]), np.concatenate([v / 2, v / 2])
    if fmt == "coo":
        return sps.coo_matrix((v, (i, j)), shape=(m, n)), D
    key = i if fmt == "csr" else j
    o = r.permutation(i.size)
    if s["sorted"]:
        o = np.lexsort((j, i) if fmt == "csr" else (i, j))
    i, j, v, key = i[o], j[o], v[o], key[o]
    o = np.argsort(key, kind="stable")
    i, j, v, key = i[o], j[o], v[o], key[o]
    ptr = np.concatenate([[0], np.cumsum(np.bincount(key, minlength=m if fmt == "csr" else n))])
    cls = sps.csr_matrix if fmt == "csr" else sps.csc_matrix
    return cls((v, j if fmt == "csr" else i, ptr), shape=(m, n)), D


def snap(M):
    return M.shape, M.data.copy(), M.indices.copy(), M.indptr.copy()


def unchanged(M, s, what):
    require(M.shape == s[0] and np.array_equal(M.data, s[1]) and np.array_equal(M.indices, s[2]) and np.array_equal(M.indptr, s[3]),
            "%s changed the matrix it was given", what)


def dense(M):
    return np.asarray(M.todense()) if sps.issparse(M) else np.asarray(M)


def sound(M):
    """The stored structure of a sparse matrix is valid."""
    ptr, ind = M.indptr, M.indices
    major, minor = (M.shape if M.format == "csr" else M.shape[::-1])
    require(len(ptr) == major + 1 and ptr[0] == 0 and np.all(np.diff(ptr) >= 0), "index pointer is not valid: %s", ptr[:8])
    require(ptr[-1] == len(ind) == len(M.data), "%d pointers, %d indices and %d values", ptr[-1], len(ind), len(M.data))
    require(len(ind) == 0 or (ind.min() >= 0 and ind.max() < minor), "index out of range")


def same(M, R, what, cls=None, tol=0.0):
    if cls is not None:
        require(isinstance(M, cls), "%s: result is a %s", what, type(M).__name__)
    if sps.issparse(M) and M.format in ("csr", "csc"):
        sound(M)
    A = dense(M)
    require(A.shape == R.shape, "%s: shape %s instead of %s", what, A.shape, R.shape)
    if tol:
        require(np.all(np.abs(A - R) <= tol), "%s: off by %.3g", what, np.abs(A - R).max() if A.size else 0)
    else:
        require(np.array_equal(A, R), "%s: differs from the dense result at %s", what, np.argwhere(A != R)[:3].tolist())


CSR, CSC = sps.csr_matrix, sps.csc_matrix


def check_del(case):
    from funpy.colloc.sparse.csr import delete_row_csr, delete_rows_csr
    from funpy.colloc.sparse.csc import delete_col_csc, delete_cols_csc
    from funpy.colloc.ultraS.matrices import delete_rows, delete_cols
    from funpy.colloc.trigcolloc.matrices import delete_rows as tdelete_rows
    axis = case["axis"]
    M, D = build(case["M"], "csr" if axis == 0 else "csc")
    N = D.shape[axis]
    idx = sorted({int(k) % N for k in case["idx"]})
    idx = idx[:max(0, N - 1)] if case["leave"] else idx
    if case["rev"]:
        idx = idx[::-1]
    R = np.delete(D, idx, axis=axis)
    cls = (CSR, CSC)[axis]
    how = {"list": list(idx), "array": np.array(idx, dtype=int), "neg": [k - N for k in idx]}[case["how"]]
    s = snap(M)
    many = (delete_rows_csr, delete_cols_csc)[axis]
    out = many(M, how)
    same(out, R, "deleting %s %s" % (("rows", "columns")[axis], idx), cls)
    unchanged(M, s, many.__name__)
    for fn in ((delete_rows, tdelete_rows), (delete_cols,))[axis]:
        same(fn(M, how), R, "deleting from a sparse matrix", cls)
        unchanged(M, s, "deleting from a sparse matrix")
        d0 = D.copy()
        same(fn(D, np.asarray(how, dtype=int)), R, "deleting from a dense matrix")
        require(np.array_equal(D, d0), "deleting from a dense matrix changed it")
    # a result can be used further
    if R.size:
        y = np.arange(1.0, R.shape[1] + 1)
        require(np.allclose(out @ y, R @ y, rtol=1e-12, atol=1e-9), "the result multiplies vectors wrongly")
    if idx:
        one = (delete_row_csr, delete_col_csc)[axis]
        B, _ = build(case["M"], "csr" if axis == 0 else "csc")
        r = one(B, idx[0])                      # in place
        same(B if r is None else r, np.delete(D, idx[0], axis=axis), "deleting %s %d of %d" % (("row", "column")[axis], idx[0], N), cls)
    for fn, bad in ((many, M.tocoo()), (many, M.tocsc() if axis == 0 else M.tocsr())):
        try:
            fn(bad, how)
            fail("%s accepts a %s matrix", fn.__name__, bad.format)
        except ValueError:
            pass
    return [("rows", "columns")[axis], "%d of %d" % (len(idx), N) if N < 4 else "some", "empty result" if len(idx) == N else "left"] if idx and D.any() else []


def check_order(case):
    from funpy.colloc.sparse.csr import flip_rows, csr_vappend
    from funpy.colloc.sparse.csc import flip_cols
    axis = case["axis"]
    M, D = build(case["M"], case["fmt"])
    N = D.shape[axis]
    order = np.random.default_rng(case["seed"]).permutation(N)
    if case["rot"]:
        order = np.roll(np.arange(N), case["rot"])
    R = np.take(D, order, axis=axis)
    o = order.tolist() if case["aslist"] else order
    keep = order.copy()
    s = dense(M)
    out = (flip_rows, flip_cols)[axis](M, o)
    same(out, R, "reordering the %s to %s" % (("rows", "columns")[axis], order[:6]), (CSR, CSC)[axis])
    require(np.array_equal(order, keep) and np.array_equal(dense(M), s), "reordering changed its inputs")
    # appending rows
    A, DA = build(case["M"], "csr")
    B, DB = build(dict(case["B"], n=case["M"]["n"]), "csr")
    sb = snap(B)
    C = csr_vappend(A, B)
    same(C, np.vstack([DA, DB]), "appending rows", CSR)
    unchanged(B, sb, "csr_vappend")
    for bad in ((A.tocsc(), B), (A, B.tocsc())):
        try:
            csr_vappend(*bad)
            fail("csr_vappend accepts a matrix that is not csr")
        except ValueError:
            pass
    return [("rows", "columns")[axis], case["fmt"]] if D.any() and not np.array_equal(order, np.arange(N)) else []


def check_zeros(case):
    from funpy.colloc.sparse.csr import eliminate_zeros
    from funpy.colloc.sparse.csc import eliminate_zeros_csc
    fmt = case["fmt"]
    M, D = build(dict(case["M"], dup=False), fmt)
    r = np.random.default_rng(case["seed"])
    if case["tiny"]:
        M.data = np.where(r.random(M.data.size) < 0.4, np.sign(r.standard_normal(M.data.size)) * 10.0**r.uniform(-20, -12, M.data.size), M.data)
        D = dense(M)
    eps = case["eps"]
    lim = EPS if eps is None else eps
    R = np.where(np.abs(D) < lim, 0, D)
    fn = eliminate_zeros_csc if fmt == "csc" and case["own"] else eliminate_zeros
    out = fn(M) if eps is None else fn(M, eps)
    same(out, R, "dropping entries below %g" % lim, CSR if fmt == "csr" else CSC)
    require(out.nnz == np.count_nonzero(R), "%d entries stored for %d non-zeros", out.nnz, np.count_nonzero(R))
    try:
        fn(sps.coo_matrix(D))
        fail("accepts a coo matrix")
    except ValueError:
        pass
    return [fmt, "dropped" if (D != R).any() or case["M"]["zeros"] else "kept"] if D.any() else []


def vec(s, n):
    r = np.random.default_rng(s["seed"])
    v = r.standard_normal(n) if not s["ints"] else r.integers(-3, 4, n).astype(float)
    k = s["kind"]
    if k == "one":
        v = np.where(np.arange(n) == s["at"] % n, 2.5, 0.0)
    elif k == "few":
        v = v * (r.random(n) < 0.2)
    elif k == "zero":
        v = np.zeros(n)
    elif k == "nofirst":
        v[0] = 0
    elif k == "last":
        v[:-1] = 0
    if s["cplx"]:
        v = v * np.exp(1j * r.uniform(0, 6, n))
    return v


def fmt_ok(M, fmt, what):
    require(sps.issparse(M), "%s is not sparse", what)
    if fmt is not None:
        require(M.format == fmt, "%s has format %s instead of %s", what, M.format, fmt)


def check_toeplitz(case):
    from funpy.colloc.ultraS.transform import sptoeplitz_fast, sptoeplitz, sphankel
    n, m, fmt = case["n"], case["m"], case["fmt"]
    c, r = vec(case["c"], m), vec(case["r"], n)
    r = r.astype(complex) if np.iscomplexobj(c) else r
    c = c.astype(r.dtype)
    r[0] = c[0]
    c0, r0 = c.copy(), r.copy()
    T = sptoeplitz(c, r, format=fmt)
    require(np.array_equal(c, c0) and np.array_equal(r, r0), "building a Toeplitz matrix changed its first %s", "column" if not np.array_equal(c, c0) else "row")
    fmt_ok(T, fmt, "Toeplitz matrix")
    same(T, sla.toeplitz(c0, r0), "%d x %d Toeplitz matrix" % (m, n))
    T = sptoeplitz_fast(c.reshape(-1, 1) if case["col"] else c, format=fmt)
    require(np.array_equal(c, c0), "building a symmetric Toeplitz matrix changed its first column")
    fmt_ok(T, fmt, "symmetric Toeplitz matrix")
    same(T, sla.toeplitz(c0, c0), "symmetric Toeplitz matrix of size %d" % m)
    H = sphankel(c.reshape(-1, 1) if case["col"] else c)
    require(np.array_equal(c, c0), "building a Hankel matrix changed its first column")
    fmt_ok(H, "csr", "Hankel matrix")
    same(H, sla.hankel(c0), "Hankel matrix of size %d" % m)
    return ["square" if n == m else "wide" if n > m else "tall", "large" if max(m, n) >= 100 else "small", "zero corner" if c0[0] == 0 else "corner"] if c0.any() or r0.any() else []


def check_blocks(case):
    from funpy.colloc.ultraS.matrices import reduceOne, blockmat, zeromat
    from funpy.colloc.trigcolloc.matrices import blockmat as tblockmat
    from funpy.colloc.trigspec.matrices import blockmat as sblockmat
    adj, N, k = case["adj"], case["N"], len(case["blocks"])
    fmt = "csc" if adj else "csr"
    p = min(case["p"], N - 1)
    A, S, DA, DS = np.empty(k, object), np.empty(k, object), [], []
    for i, b in enumerate(case["blocks"]):
        A[i], d = build(dict(b, m=N, n=N), fmt)
        DA.append(d)
        S[i], d = build(dict(b, m=N, n=N, seed=b["seed"] + 1), fmt)
        DS.append(d)
    snaps = [snap(M) for M in list(A) + list(S)]
    ids = [id(M) for M in A]
    PA, P, PS = reduceOne(A, S, p, N, adjoint=adj)
    cut = slice(0, N - p)
    red = (lambda d: d[:, cut]) if adj else (lambda d: d[cut])
    same(PA, np.vstack([red(d) for d in DA]), "reducing %d blocks of size %d by %d" % (k, N, p))
    same(PS, np.vstack([red(d) for d in DS]), "reducing the second set of blocks")
    same(P, red(np.eye(N)), "projection")
    require([id(M) for M in A] == ids, "reducing replaced the blocks it was given")
    for M, s in zip(list(A) + list(S), snaps):
        unchanged(M, s, "reducing")
    # block matrices
    q = case["q"]
    B = np.empty((k, q), object)
    R = []
    rng = np.random.default_rng(case["seed"])
    hs, ws = rng.integers(1, 6, k), rng.integers(2, 6, q)
    for i in range(k):
        row = []
        for j in range(q):
            M, d = build(dict(case["blocks"][i], m=int(hs[i]), n=int(ws[j]), seed=case["seed"] + 7 * i + j), case["bfmt"])
            B[i, j] = M
            row.append(d)
        R.append(np.hstack(row))
    for fn in (blockmat, tblockmat, sblockmat):
        M = fn(B, format="csr")
        fmt_ok(M, "csr", "block matrix")
        same(M, np.vstack(R), "block matrix")
    V = np.empty(k, object)
    for i in range(k):
        V[i] = rng.standard_normal((int(hs[i]), 1))
    for fn in (blockmat, tblockmat, sblockmat):
        same(fn(V), np.vstack(list(V)), "block vector")
    z = zeromat((int(hs[0]), int(ws[0])), format=fmt)
    fmt_ok(z, fmt, "zero matrix")
    same(z, np.zeros((int(hs[0]), int(ws[0]))), "zero matrix")
    return ["adjoint" if adj else "plain", "p=%d" % p, "%d blocks" % k] if any(d.any() for d in DA) else []


def check_bc(case):
    from funpy.colloc.tools import remove_bc, replace_bc, get_bc
    e, bw = case["e"], case["bw"]
    n = bw + case["more"]
    x = np.random.default_rng(case["seed"]).standard_normal(n * e)
    if case["cplx"]:
        x = x + 1j * x[::-1]
    x0 = x.copy()
    X = x.reshape((n, e), order="F")
    z = x.reshape((n * e, 1)) if False else x
    out = remove_bc(z, e, bw)
    require(out.shape == (n - bw, e) and out.dtype == x.dtype and np.array_equal(out, X[bw:]), "remove_bc(n=%d, %d equations, width %d)", n, e, bw)
    ref = np.vstack([X[bw:], np.zeros((bw, e))])
    out = replace_bc(z, e, bw)
    require(out.dtype == x.dtype and np.array_equal(out, ref.flatten(order="F")), "replace_bc(n=%d, %d equations, width %d)", n, e, bw)
    out = replace_bc(z, e, bw, reshape=True)
    require(out.shape == (n, e) and np.array_equal(out, ref), "replace_bc reshaped (n=%d, %d equations, width %d)", n, e, bw)
    if not case["cplx"]:
        out = get_bc(z, e, bw)
        require(np.array_equal(out, X[:bw].flatten(order="F")), "get_bc(n=%d, %d equations, width %d)", n, e, bw)
    require(np.array_equal(x, x0), "input changed")
    return ["%d equations" % e, "width %d" % bw] if case["more"] else []


def check_sizes(case):
    from funpy.colloc.tools import findNextPowerOf2
    from funpy.support.tools import findNextPowerOf2 as fn2
    from funpy.support import round_up
    from funpy.colloc.adapt import SolverAdaptive
    n = case["n"]
    ref = 2
    while ref < n:
        ref *= 2
    for f in (findNextPowerOf2, fn2):
        require(f(n) == ref, "next power of two of %d: %s instead of %d", n, f(n), ref)
        require(f(np.int64(n)) == ref, "next power of two of int64 %d", n)
    num, div = n, case["div"]
    r = round_up(num, div)
    require(r % div == 0 and num <= r < num + div, "round_up(%d, %d) = %s", num, div, r)
    # discretisation sizes
    lo, nmax, nmin = case["lo"], case["nmax"], case["nmin"]
    s = SolverAdaptive(None, n_max=nmax, n_min=nmin)
    require(np.array_equal(s.n_disc(constant=True), [1]), "sizes for a constant")
    up = 1 + 2**nmax if case["up"] is None else case["up"]
    d = s.n_disc(lower_bd=lo) if case["up"] is None else s.n_disc(lower_bd=lo, upper_bd=up)
    require(d.ndim == 1 and d.size > 0 and np.all(np.diff(d) > 0), "sizes %s do not increase", d)
    ref = sorted({max(lo, min(up, 1 + 2**k)) for k in range(min(7, nmin), nmax + 1)})
    require(d.tolist() == ref, "sizes %s instead of %s", d, ref)
    return ["n<=2" if n <= 2 else "power" if ref and n & (n - 1) == 0 else "n", "lo=%s" % (lo > up)]


def check_misc(case):
    from funpy.support.tools import secant, find_nearest, find_nearest_idx, moving_average
    r = np.random.default_rng(case["seed"])
    n = case["n"]
    a = r.integers(-9, 10, n).astype(float) if case["ints"] else r.standard_normal(n)
    a0 = a.copy()
    v = float(a[case["k"] % n] + (0.25 if case["off"] else 0))
    arg = a.tolist() if case["aslist"] else a
    i = find_nearest_idx(arg, v)
    best = np.min(np.abs(a - v))
    require(abs(a[i] - v) == best and i == np.flatnonzero(np.abs(a - v) == best)[0], "nearest entry of %s to %g: index %d", a[:5], v, i)
    require(find_nearest(arg, v) == a[i], "nearest value")
    w = min(case["w"], n)
    out = moving_average(arg, n=w)
    ref = np.array([np.mean(a[j:j + w]) for j in range(n - w + 1)])
    require(out.shape == ref.shape and np.all(np.abs(out - ref) <= 1e-14 * (n + 2) * (np.abs(a).sum() + 1)), "moving average of %d over %d", n, w)
    require(np.array_equal(a, a0), "input changed")
    # the secant step is exact for linear functions and between the arguments when the signs differ
    root, sl, s1, s2 = case["root"], case["sl"], case["s1"], case["s1"] + case["ds"]
    x = secant(s1, sl * (s1 - root), s2, sl * (s2 - root))
    require(abs(x - root) <= 1e-12 * (1 + abs(root) + abs(s1) + abs(s2)) * max(1, (abs(s1) + abs(s2) + abs(root)) / abs(case["ds"])), "secant step %g for the root %g of a line", x, root)
    y1, y2 = case["y1"], -case["y2"]
    x = secant(s1, y1, s2, y2)
    require(min(s1, s2) - 1e-9 <= x <= max(s1, s2) + 1e-9, "secant step leaves the bracket")
    return ["w=%d" % w if w < 4 else "w", "n=%d" % n if n < 3 else "n"]


idxs = st.lists(st.integers(0, 30), max_size=6)
mats = lambda hi=14: st.fixed_dictionaries({"m": st.integers(1, hi), "n": st.integers(1, hi), "dens": st.sampled_from([0.05, 0.2, 0.5, 1.0]), "seed": seeds,
                                            "ints": st.booleans(), "cplx": st.sampled_from([False, False, False, True]), "norow": st.lists(st.integers(0, 20), max_size=3),
                                            "nocol": st.lists(st.integers(0, 20), max_size=3), "zeros": st.booleans(), "dup": st.sampled_from([False, False, True]), "sorted": st.booleans()})
vecs = st.fixed_dictionaries({"seed": seeds, "ints": st.booleans(), "kind": st.sampled_from(["full", "one", "few", "few", "zero", "nofirst", "nofirst", "last"]), "at": st.integers(0, 200), "cplx": st.sampled_from([False, False, True])})
lens = st.one_of(st.integers(1, 6), st.integers(1, 40), st.integers(90, 140), st.sampled_from([99, 100, 101]))
fmts = st.sampled_from([None, "csr", "csc", "lil", "coo", "dia"])
GROUPS = [
    Group("delete", st.fixed_dictionaries({"M": mats(), "axis": st.integers(0, 1), "idx": idxs, "leave": st.booleans(), "rev": st.booleans(), "how": st.sampled_from(["list", "array", "neg"])}), check_del, 1500),
    Group("order", st.fixed_dictionaries({"M": mats(), "B": mats(), "axis": st.integers(0, 1), "fmt": st.sampled_from(["csr", "csc", "coo"]), "seed": seeds, "rot": st.sampled_from([0, 0, 1, -1, 2]), "aslist": st.booleans()}), check_order, 1000),
    Group("zeros", st.fixed_dictionaries({"M": mats(), "fmt": st.sampled_from(["csr", "csc"]), "seed": seeds, "tiny": st.booleans(), "eps": st.sampled_from([None, None, 1e-13, 1e-15, 0.5]), "own": st.booleans()}), check_zeros, 600),
    Group("toeplitz", lens.flatmap(lambda m: st.fixed_dictionaries({"m": st.just(m), "n": st.one_of(st.just(m), st.just(m), lens), "c": vecs, "r": vecs, "fmt": fmts, "col": st.booleans()})), check_toeplitz, 1000),
    Group("blocks", st.fixed_dictionaries({"adj": st.booleans(), "N": st.integers(1, 10), "p": st.integers(0, 4), "blocks": st.lists(mats(), min_size=1, max_size=3), "q": st.integers(1, 3), "seed": seeds, "bfmt": st.sampled_from(["csr", "csc"])}), check_blocks, 700),
    Group("bc", st.fixed_dictionaries({"e": st.integers(1, 4), "bw": st.integers(1, 4), "more": st.integers(0, 8), "seed": seeds, "cplx": st.booleans()}), check_bc, 300),
    Group("sizes", st.fixed_dictionaries({"n": st.one_of(st.integers(0, 70), st.integers(0, 10**6), st.integers(0, 40).map(lambda k: 2**k), st.integers(2, 40).map(lambda k: 2**k + 1), st.integers(2, 40).map(lambda k: 2**k - 1)),
                                          "div": st.integers(1, 50), "lo": st.one_of(st.integers(1, 40), st.integers(1, 5000)), "nmax": st.integers(7, 14), "nmin": st.integers(1, 9), "up": st.one_of(st.none(), st.integers(2, 20000))}), check_sizes, 800),
    Group("misc", st.fixed_dictionaries({"seed": seeds, "n": st.integers(1, 20), "ints": st.booleans(), "k": st.integers(0, 30), "off": st.booleans(), "aslist": st.booleans(), "w": st.integers(1, 6),
                                         "root": st.floats(-5, 5), "sl": st.sampled_from([1.0, -2.0, 0.3, 50.0]), "s1": st.floats(-5, 5), "ds": st.sampled_from([1.0, -0.5, 0.01, 3.0]), "y1": st.floats(0.01, 5), "y2": st.floats(0.01, 5)}), check_misc, 500),
]
