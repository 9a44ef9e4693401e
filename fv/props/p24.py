"""P24 dense and bordered linear solvers solve their systems."""
import contextlib
import io
import numpy as np
import scipy.sparse as sps
import scipy.sparse.linalg as spla
from hypothesis import strategies as st
from ..gens import sizes, seeds, EPS
from ..harness import Group, require, fail

RULE = """Cases are real matrices (dense, integer, triangular, permutation-like, diagonal, symmetric, graded, nearly singular, exactly rank
deficient through a product of thin factors, through repeated or zero rows and columns), borders of width one to four, right-hand
sides, sequences of border updates, starting guesses and tolerances. Non-trivial: the system had at least two unknowns and a
condition number below the stated bound, so that an accurate answer exists."""
MORE = 3                                             # quick runs: this many times the cases below
ORACLE = """the residual of the assembled dense system (backward error), numpy's dense and least-squares solutions, and bitwise
comparison of every argument before and after"""

KINDS = ["normal", "normal", "int", "int", "tri", "low", "perm", "diag", "sym", "graded", "ortho", "band"]


def square(s):
    """A square matrix from its description."""
    r = np.random.default_rng(s["seed"])
    n, k = s["n"], s["kind"]
    if k == "normal":
        A = r.standard_normal((n, n))
    elif k == "int":
        A = r.integers(-4, 5, (n, n)).astype(float)
    elif k in ("tri", "low"):
        A = np.triu(r.integers(-3, 4, (n, n)).astype(float), 1) + np.diag(r.choice([-2.0, -1.0, 1.0, 3.0], n))
        A = A if k == "tri" else A.T.copy()
    elif k == "perm":
        A = np.eye(n)[r.permutation(n)] * r.choice([-1.0, 1.0, 2.0], n)
    elif k == "diag":
        A = np.diag(r.choice([-1.0, 1.0, 0.5, 4.0, -3.0], n))
    elif k == "sym":
        A = r.standard_normal((n, n))
        A = A + A.T
    elif k == "graded":
        A = r.standard_normal((n, n)) * 2.0 ** r.integers(-6, 7, (n, 1))
    elif k == "ortho":
        A = np.linalg.qr(r.standard_normal((n, n)))[0]
    elif k == "band":
        A = np.triu(np.tril(r.standard_normal((n, n)), 1), -1) + 3 * np.eye(n)[r.permutation(n)]
    elif k == "thin":                                # rank n - 1
        A = r.standard_normal((n, n - 1)) @ r.standard_normal((n - 1, n))
    elif k == "ithin":
        A = r.integers(-2, 3, (n, n - 1)).astype(float) @ r.integers(-2, 3, (n - 1, n)).astype(float)
    elif k in ("zcol", "zrow", "dcol", "drow"):
        A = r.standard_normal((n, n))
        i, j = int(r.integers(n)), int(r.integers(n))
        if k == "zcol":
            A[:, i] = 0
        elif k == "zrow":
            A[i] = 0
        elif k == "dcol":
            A[:, i] = 2 * A[:, (i + 1) % n]
        else:
            A[i] = -A[(i + 1) % n]
    elif k == "lap":                                 # periodic second difference
        A = 2 * np.eye(n) - np.roll(np.eye(n), 1, 0) - np.roll(np.eye(n), -1, 0)
    elif k == "dperm":
        A = np.eye(n)[r.permutation(n)] * r.choice([-1.0, 1.0, 2.0], n)
        A[:, int(r.integers(n))] = 0
    return A * 2.0 ** s.get("scale", 0)


SING = ["thin", "thin", "ithin", "zcol", "zrow", "dcol", "drow", "lap", "dperm"]
scales = st.sampled_from([0, 0, 0, 3, -3, 12, -12])


def sq(kinds=KINDS, hi=8, lo=1, scale=scales):
    return st.fixed_dictionaries({"n": sizes(hi, lo, 16), "kind": st.sampled_from(kinds), "seed": seeds, "scale": scale})


def vec(seed, n, kind="normal"):
    r = np.random.default_rng(seed)
    if kind == "int":
        return r.integers(-3, 4, n).astype(float)
    if kind == "unit":
        v = np.zeros(n)
        v[int(r.integers(n))] = 1
        return v
    return r.standard_normal(n)


VK = st.sampled_from(["normal", "normal", "int", "unit"])


def solves(M, x, f, what, big=1.0):
    """x solves M x = f: small backward error, and close to numpy's solution."""
    require(isinstance(x, np.ndarray) and x.shape == (M.shape[1],), "%s: result has shape %s", what, np.shape(x))
    require(np.all(np.isfinite(x)), "%s: result is not finite", what)
    n = max(M.shape)
    res = np.abs(M @ x - f).max()
    size = np.abs(M).sum(1).max() * np.abs(x).max() + np.abs(f).max()
    require(res <= 2e3 * n * EPS * big * size, "%s: residual %.3g for a system of size %.3g", what, res, size)


def keep(*arrays):
    return [a.copy() for a in arrays]


def same(arrays, old, what):
    for a, o in zip(arrays, old):
        require(np.array_equal(a, o), "%s changed its arguments", what)


def phases(A, seed):
    """A complex matrix with the singular values of A."""
    r = np.random.default_rng(seed + 77)
    w = lambda k: np.exp(2j * np.pi * (r.integers(0, 8, k) / 8 if seed % 2 else r.random(k)))
    return w(A.shape[0])[:, None] * A * w(A.shape[1])


def cond(M):
    try:
        return np.linalg.cond(M)
    except np.linalg.LinAlgError:
        return np.inf


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


# ------------------------------------------------------------------ QR of a nonsingular matrix

def check_qr(case):
    from funpy.linalg import QR
    A = square(case["A"])
    n = A.shape[0]
    if cond(A) > 1e9:
        return []
    arg = {"dense": A, "fort": np.asfortranarray(A), "csr": sps.csr_matrix(A), "csc": sps.csc_matrix(A)}[case["how"]]
    a0, = keep(A)
    q = QR(arg, tol=1e-13 * np.abs(A).max())
    require(not q.is_singular, "a matrix of condition %.3g counts as singular", cond(A))
    require(tuple(q.shape) == (n, n), "shape %s", q.shape)
    for k, kind in enumerate(case["rhs"]):
        b = vec(case["A"]["seed"] + k + 1, n, kind)
        b0, = keep(b)
        solves(A, q.solve(b), b, "QR solve")
        solves(A.T, q.solve_adj(b), b, "QR transposed solve")
        same((b,), (b0,), "QR solve")
    same((A,), (a0,), "QR")
    return ["n=%s" % ("1" if n == 1 else "2-5" if n < 6 else "6+"), case["how"], case["A"]["kind"]] if n > 1 else []


qr_case = st.fixed_dictionaries({"A": sq(), "how": st.sampled_from(["dense", "dense", "fort", "csr", "csc"]),
                                 "rhs": st.lists(VK, min_size=1, max_size=3)})


# ------------------------------------------------------------------ a singular matrix: null vectors, particular solutions

def singular(s):
    """A singular matrix with a one-dimensional null space, or None; with its null vectors."""
    A = square(s)
    U, S, V = np.linalg.svd(A)
    if A.shape[0] < 2 or S[0] == 0 or S[-2] < 1e-3 * S[0] or S[-1] > 1e-14 * S[0] * A.shape[0]:
        return None
    return A, V[-1], U[:, -1]


def check_null(case):
    from funpy.linalg import QR
    got = singular(case["A"])
    if got is None:
        return []
    A, phi0, psi0 = got
    n = A.shape[0]
    size = np.abs(A).max()
    a0, = keep(A)
    q = QR(A, tol=1e-9 * size)
    require(q.is_singular, "a singular matrix does not count as singular")
    phi, psi = q.null()
    for v, v0, B, what in ((phi, phi0, A, "right"), (psi, psi0, A.T, "left")):
        require(np.shape(v) == (n,) and np.all(np.isfinite(v)), "%s null vector has shape %s", what, np.shape(v))
        nv = np.abs(v).max()
        require(nv > 0.1, "%s null vector is zero", what)
        require(np.abs(B @ v).max() <= 1e-11 * n * size * nv, "%s null vector: residual %.3g", what, np.abs(B @ v).max())
    p2, s2 = q.null()
    require(np.array_equal(p2, phi) and np.array_equal(s2, psi), "null vectors differ between calls")
    y = vec(case["seed"], n, case["kind"])
    for B, meth, what in ((A, q.particular, "particular solution"), (A.T, q.particular_adj, "particular solution of the transposed")):
        f = B @ y
        f0, = keep(f)
        solves(B, meth(f), f, what, 1e3)
        same((f,), (f0,), what)
    if case["bad"]:                                   # not in the range: refused
        for B, meth, left in ((A, q.particular, psi0), (A.T, q.particular_adj, phi0)):
            f = B @ y + left * max(1.0, size)
            try:
                meth(f)
            except RuntimeWarning:
                pass
            else:
                fail("a right-hand side out of the range is accepted")
    same((A,), (a0,), "QR")
    return [case["A"]["kind"], "bad" if case["bad"] else "ok"]


null_case = st.fixed_dictionaries({"A": sq(SING, 8, 2), "seed": seeds, "kind": VK, "bad": st.booleans()})


# ------------------------------------------------------------------ one border

def bordered(A, b, c, d):
    return np.block([[A, c[:, None]], [b[None], np.array([[d]])]])


def near(s, eps):
    got = singular(s)
    if got is None:
        return None
    A, phi, psi = got
    r = np.random.default_rng(s["seed"] + 99)
    return A + eps * np.abs(A).max() * r.standard_normal(A.shape)


def check_bem(case):
    from funpy.linalg import QR, BEM
    s = case["A"]
    if case["type"] == "sing":
        got = singular(s)
        A = got[0] if got else None
    elif case["type"] == "near":
        A = near(s, 10.0 ** case["eps"])
    else:
        A = square(s)
        A = A if cond(A) < 1e7 else None
    if A is None:
        return []
    n = A.shape[0]
    size = np.abs(A).max()
    b, c = vec(case["seed"], n, case["kb"]) * size, vec(case["seed"] + 1, n, case["kc"]) * size
    d = float(case["d"]) * size
    M = bordered(A, b, c, d)
    if cond(M) > 1e6:
        return []
    a0 = A.copy()
    sing = case["type"] == "sing"
    solver = QR(A, tol=(1e-9 if sing else 1e-13) * size)
    if solver.is_singular != sing:
        return []
    S = BEM(solver, b, c, d)
    require(tuple(S.shape) == (n + 1, n + 1) and S.is_singular == sing, "shape %s, singular %s", S.shape, S.is_singular)
    labels = {case["type"], "n=1" if n == 1 else "n>1"}
    e = np.eye(n + 1)[-1]
    # backward errors of the solves with A enter through A^-1 applied twice for nearly singular blocks
    big = 1e3
    for step in [None] + case["steps"]:
        if step is not None:
            w = vec(step["seed"], n, step["kind"]) * size
            dd = float(step["d"]) * size
            nb, nc = (w, c) if step["which"] == "row" else (b, w)
            N = bordered(A, nb, nc, dd)
            if cond(N) > 1e6:
                continue
            b, c, d, M = nb, nc, dd, N
            (S.update_row if step["which"] == "row" else S.update_col)(w, d)
            labels.add("update " + step["which"])
        f = vec(case["seed"] + 7, n + 1, case["kf"]) * (size if sing else 1)
        args = keep(b, c, f)
        solves(M, S.solve(f), f, "bordered solve", big)
        solves(M.T, S.solve_adj(f), f, "transposed bordered solve", big)
        solves(M, S.solve_null(), e, "bordered null solve", big)
        solves(M.T, S.solve_null_adj(), e, "transposed bordered null solve", big)
        if not sing:
            solves(M, S.nullspace(), e, "null vector of the upper rows", big)
            solves(M.T, S.nullspace_adj(), e, "null vector of the left columns", big)
        g = f[:n]
        solves(M, S.solve_zero(g), np.append(g, 0), "bordered solve with zero last entry", big)
        x = S.min_norm(g)
        solves(M[:n], x, g, "minimum norm solution", big)
        r = np.linalg.lstsq(M[:n], g, rcond=None)[0]
        require(np.abs(x - r).max() <= 1e-12 * big * cond(M) * max(np.abs(r).max(), np.abs(g).max() / size), "minimum norm solution: off by %.3g", np.abs(x - r).max())
        if not sing and case["type"] == "reg":
            D = np.linalg.slogdet(M)
            v = S.det()
            require(abs(float(v) - D[0] * np.exp(D[1])) <= 1e-12 * n * n * cond(A) * cond(M) * np.exp(D[1]), "determinant %r instead of %.17g", v, D[0] * np.exp(D[1]))
        same((b, c, f, A), args + [a0], "bordered solve")
    return sorted(labels)


step = st.fixed_dictionaries({"which": st.sampled_from(["row", "col"]), "seed": seeds, "kind": VK, "d": st.sampled_from([0, 0, 1, -2, 0.5])})
bem_case = st.one_of([
    st.fixed_dictionaries({"A": sq(kinds, 8, lo), "type": st.just(t), "eps": st.integers(-11, -5), "seed": seeds, "kb": VK, "kc": VK, "kf": VK,
                           "d": st.sampled_from([0, 0, 1, -2, 0.5]), "steps": st.lists(step, max_size=3)})
    for t, kinds, lo in (("reg", KINDS, 1), ("sing", SING, 2), ("near", SING, 2))])


# ------------------------------------------------------------------ several borders

def check_bemw(case):
    from funpy.linalg import QR, BEMW
    A = square(case["A"]) if case["eps"] is None else near(case["A"], 10.0 ** case["eps"])
    if A is None:
        return []
    n, m = A.shape[0], len(case["borders"])
    size = np.abs(A).max()
    if not size or case["eps"] is None and cond(A) > 1e6:
        return []
    bs = [vec(s["seed"], n + k, s["kb"]) * size for k, s in enumerate(case["borders"])]
    cs = [vec(s["seed"] + 1, n + k, s["kc"]) * size for k, s in enumerate(case["borders"])]
    ds = [float(s["d"]) * size for s in case["borders"]]

    def assemble(bs, cs, ds):
        M = A
        for b, c, d in zip(bs, cs, ds):
            M = bordered(M, b, c, d)
            if cond(M) > 1e5:
                return None
        return M

    M = assemble(bs, cs, ds)
    if M is None:
        return []
    a0 = A.copy()
    solver = QR(A, tol=1e-13 * size)
    if solver.is_singular:
        return []
    S = BEMW(solver, list(bs), list(cs), list(ds))
    require(tuple(S.shape) == (n + m, n + m), "shape %s", S.shape)
    labels = {"m=%d" % m}
    for step in [None] + case["steps"]:
        if step is not None:
            j = step["j"] % m
            w, d = vec(step["seed"], n + j, step["kind"]) * size, float(step["d"]) * size
            nb, nc, nd = list(bs), list(cs), list(ds)
            (nb if step["which"] == "row" else nc)[j] = w
            nd[j] = d
            N = assemble(nb, nc, nd)
            if N is None:
                continue
            bs, cs, ds, M = nb, nc, nd, N
            (S.update_row if step["which"] == "row" else S.update_col)(j, w, d)
            labels.add("update " + step["which"])
        f = vec(case["seed"], n + m, case["kf"])
        if case["intrhs"]:
            f = np.round(f * 3).astype(int)
        e = np.eye(n + m)[-1]
        args = keep(f, *bs, *cs)
        big = 1e4
        solves(M, S.solve(f), f, "solve with %d borders" % m, big)
        solves(M.T, S.solve_adj(f), f, "transposed solve with %d borders" % m, big)
        solves(M, S.solve_null(), e, "null solve with %d borders" % m, big)
        solves(M.T, S.solve_null_adj(), e, "transposed null solve with %d borders" % m, big)
        g = f[:-1]
        solves(M, S.solve_zero(g), np.append(g, 0), "solve with zero last entry", big)
        solves(M.T, S.solve_zero_adj(g), np.append(g, 0), "transposed solve with zero last entry", big)
        x = S.min_norm(g)
        r = np.linalg.lstsq(M[:-1], g, rcond=None)[0]
        require(np.abs(x - r).max() <= 1e-9 * cond(M) * max(np.abs(r).max(), np.abs(g).max() / size), "minimum norm solution: off by %.3g", np.abs(x - r).max())
        same([f] + bs + cs + [A], args + [a0], "solve with borders")
    return sorted(labels)


border = st.fixed_dictionaries({"seed": seeds, "kb": VK, "kc": VK, "d": st.sampled_from([0, 1, -2, 0.5, 3])})
bemw_case = lambda A, eps: st.fixed_dictionaries({"A": A, "eps": eps, "borders": st.lists(border, min_size=1, max_size=4), "seed": seeds, "kf": VK, "intrhs": st.booleans(),
                                   "steps": st.lists(st.fixed_dictionaries({"j": st.integers(0, 3), "which": st.sampled_from(["row", "col"]),
                                                                           "seed": seeds, "kind": VK, "d": st.sampled_from([0, 1, -2, 0.5])}), max_size=2)})


# ------------------------------------------------------------------ bordered solves through one factorisation of the block

def check_brd(case):
    from funpy.linalg import BMatrix, brd_solve as B
    sing = case["sing"]
    if sing:
        got = singular(case["A"])
        if got is None:
            return []
        A = got[0]
    else:
        A = square(case["A"])
        if np.linalg.svd(A, compute_uv=False)[-1] < 5e-2:
            return []
    n = A.shape[0]
    size = max(1.0, np.abs(A).max())
    b, c = vec(case["seed"], n, case["kb"]) * size, vec(case["seed"] + 1, n, case["kc"]) * size
    d = float(case["d"]) * size
    M = bordered(A, b, c, d)
    if cond(M) > 1e5:
        return []
    f = vec(case["seed"] + 7, n + 1, case["kf"])
    e = np.eye(n + 1)[-1]
    args = keep(A, b, c, f)
    big = 1e4
    S = quiet(BMatrix, A, b, c, d)
    require(S.is_singular == sing, "singular: %s", S.is_singular)
    require(tuple(S.shape) == M.shape and np.array_equal(S.mat, M), "the assembled matrix differs")
    y = S._matvec(f)
    require(np.abs(y - M @ f).max() <= 1e-13 * n * size * np.abs(f).max() * 10, "product with the bordered matrix is off by %.3g", np.abs(y - M @ f).max())
    solves(M, quiet(S.solve, f), f, "bordered solve by QR", big)
    solves(M, quiet(S.solve_null), e, "bordered null solve by QR", big)
    C = sps.csc_matrix(A)
    labels = ["sing" if sing else "reg", case["A"]["kind"]]
    solves(M, quiet(B.brd_null_simp, C, b, c, d), e, "bordered null solve by LU", big)
    v, w = quiet(B.brd_null, C, b, c, d)
    solves(M, v, e, "bordered null solve by LU", big)
    solves(M.T, w, e, "transposed bordered null solve by LU", big)
    if sing:
        lu = B.LUCP(A.copy())
        for fn in (B.brd_solve, B.brd_solve_detail):
            x, phi, psi = quiet(fn, lu, b, c, d, f.copy(), verify=False)
            solves(M, x, f, "bordered solve by LU", big)
            for N, p in ((A, phi), (A.T, psi)):
                require(np.abs(p).max() > 0 and np.abs(N @ p).max() <= 1e-11 * n * size * np.abs(p).max(), "null vector: residual %.3g", np.abs(N @ p).max())
        p = B.nullvector(C)
        require(np.abs(p).max() > 0 and np.abs(A @ p).max() <= 1e-11 * n * size * np.abs(p).max(), "null vector: residual %.3g", np.abs(A @ p).max())
    else:
        solves(M, B.solve(C, b, c, d, f), f, "bordered solve by sparse LU", big)
    same((A, b, c, f), args, "bordered solve")
    require(np.array_equal(C.toarray(), A), "bordered solve changed its matrix")
    return labels if n > 1 else []


brd_case = st.one_of([st.fixed_dictionaries({"A": sq(kinds, 8, lo, st.just(0)), "sing": st.just(sing), "seed": seeds, "kb": VK, "kc": VK, "kf": VK,
                                             "d": st.sampled_from([0, 0, 1, -2, 0.5])})
                      for sing, kinds, lo in ((False, KINDS, 1), (True, SING, 2))])


# ------------------------------------------------------------------ pseudoinverse

def check_chol(case):
    from funpy.linalg import QRCholesky
    r = np.random.default_rng(case["seed"])
    n, t = case["n"], case["type"]
    if t == "square":
        A = square({"n": n, "kind": case["kind"], "seed": case["seed"], "scale": 0})
        rank = n
    elif t == "def":
        rank = max(1, n - 1 - case["drop"] % max(1, n - 1))
        if n < 2:
            return []
        if case["kind"] in ("int", "perm"):
            A = r.integers(-2, 3, (n, rank)).astype(float) @ r.integers(-2, 3, (rank, n)).astype(float)
        else:
            A = r.standard_normal((n, rank)) @ r.standard_normal((rank, n))
    else:
        m = max(1, n - 1 - case["drop"] % max(1, n - 1))
        if n < 2:
            return []
        A = r.integers(-3, 4, (m, n)).astype(float) if case["kind"] in ("int", "perm") else r.standard_normal((m, n))
        if case["kind"] == "diag":
            A[:, r.integers(n)] = 0
        rank = m
    A = A * 10.0 ** case["scale"]
    if case["complex"]:
        A = phases(A, case["seed"])
    S = np.linalg.svd(A, compute_uv=False)
    if S[0] == 0 or S[rank - 1] < 1e-4 * S[0] or (rank < S.size and S[rank] > 1e-13 * S[0]):
        return []
    a0 = A.copy()
    q = QRCholesky(A)
    require(q.rank == rank, "rank %d of a %s matrix of size %.3g counts as %d", rank, A.shape, S[0], q.rank)
    for k, kind in enumerate(case["rhs"]):
        b = vec(case["seed"] + k + 1, A.shape[0], kind)
        if case["complex"] and k % 2 == 0:
            b = phases(b[:, None], case["seed"])[:, 0]
        b0, = keep(b)
        x = q.solve(b)
        ref = np.linalg.pinv(A, rcond=1e-8) @ b
        require(np.shape(x) == (A.shape[1],), "result has shape %s", np.shape(x))
        c = S[0] / S[rank - 1]
        require(np.abs(x - ref).max() <= 1e-12 * n * c * c * max(np.abs(ref).max(), np.abs(b).max() / S[0]), "%s: off by %.3g (pseudo-inverse solution %.3g)", t, np.abs(x - ref).max(), np.abs(ref).max())
        same((b,), (b0,), "solve")
    if t == "wide" and A.shape[0] == n - 1 and not case["complex"]:
        v = q.tangent_vector()
        require(v.size == n and abs(np.linalg.norm(v) - 1) < 1e-12, "tangent vector has length %.17g", np.linalg.norm(v))
        require(np.abs(A @ v.ravel()).max() <= 1e-12 * n * S[0] * c, "tangent vector is not annihilated: %.3g", np.abs(A @ v.ravel()).max())
        t = "tangent"
    same((A,), (a0,), "QRCholesky")
    return [t, "scale=%d" % case["scale"], "complex" if case["complex"] else "real"] if n > 1 else []


chol_case = st.fixed_dictionaries({"n": sizes(8, 1, 16), "kind": st.sampled_from(KINDS), "seed": seeds, "drop": st.sampled_from([0, 0, 0, 1, 2, 3]),
                                   "type": st.sampled_from(["square", "def", "wide", "wide"]), "scale": st.sampled_from([0, 0, 0, 1, -2, 4, -4, 8, -8]), "complex": st.booleans(),
                                   "rhs": st.lists(VK, min_size=1, max_size=2)})


# ------------------------------------------------------------------ the exact solver used by Newton's method

class Operator(spla.LinearOperator):
    """A linear operator that can give its matrix."""

    def __init__(self, M):
        super().__init__(M.dtype, M.shape)
        self.M = M

    def _matvec(self, x):
        return self.M @ x

    def to_matrix(self):
        return self.M


def check_exact(case):
    from funpy.linalg import ExactLinearSolver
    from funpy.linalg.lu_solve import DenseLUSolver
    A = square(case["A"])
    n = A.shape[0]
    if cond(A) > 1e8:
        return []
    how, meth = case["how"], case["method"]
    if meth == "qr" and how in ("csr", "csc", "opsparse"):
        return []
    if case["complex"] and not case["realmat"]:
        A = phases(A, case["A"]["seed"])
    arg = {"dense": A, "csr": sps.csr_matrix(A), "csc": sps.csc_matrix(A), "op": Operator(A), "opsparse": Operator(sps.csr_matrix(A))}[how]
    b = vec(case["A"]["seed"] + 1, n, case["kb"])
    if case["complex"]:
        b = phases(b[:, None], case["A"]["seed"])[:, 0]
    args = keep(A, b)
    kw = {} if meth is None else {"method": meth}
    P = np.eye(n)[np.random.default_rng(case["A"]["seed"]).permutation(n)]
    if case["proj"]:
        kw["proj"] = lambda x: P @ x
    if case["to_fun"]:
        kw["to_fun"] = lambda x: ("function", x)
    s = ExactLinearSolver(arg, **kw)
    for b_ in (b, 2 * b, b):
        x, ok = s.solve(b_)
        require(ok is True, "success: %r", ok)
        if case["to_fun"]:
            require(isinstance(x, tuple) and x[0] == "function", "result is not converted")
            x = x[1]
        if case["proj"]:
            x = P.T @ x
        solves(A, x, b_, "exact solve", 10)
    solves(A, DenseLUSolver(A).solve(b), b, "dense LU solve", 10)
    same((A, b), args, "exact solver")
    try:
        ExactLinearSolver(A, method="lanczos")
    except RuntimeError:
        pass
    else:
        fail("an unknown method is accepted")
    return [how, str(meth), "complex" if case["complex"] else "real"] if n > 1 else []


exact_case = st.fixed_dictionaries({"A": sq(), "how": st.sampled_from(["dense", "csr", "csc", "op", "opsparse"]),
                                    "method": st.sampled_from([None, "lu", "LU", "qr", "QR"]), "kb": VK, "complex": st.booleans(), "realmat": st.booleans(), "proj": st.booleans(), "to_fun": st.booleans()})


# ------------------------------------------------------------------ the iterative solver

def check_gbit(case):
    from funpy.linalg import gbit
    r = np.random.default_rng(case["seed"])
    n = case["n"]
    if case["kind"] == "close":                       # close to the preconditioner
        P = np.diag(r.choice([0.5, 1.0, 2.0, -1.5], n))
        A = np.linalg.inv(P) + case["eps"] * r.standard_normal((n, n)) / np.sqrt(n)
    elif case["kind"] == "spd":
        Q = r.standard_normal((n, n)) / np.sqrt(n)
        A = np.eye(n) + Q @ Q.T
        P = np.eye(n)
    elif case["kind"] == "general":
        A = r.standard_normal((n, n)) / np.sqrt(n) + np.eye(n) * r.choice([0.0, 1.0, 2.0])
        P = np.eye(n)
    else:                                             # the preconditioner is the inverse
        A = square({"n": n, "kind": "normal", "seed": case["seed"]})
        if cond(A) > 1e4:
            return []
        P = np.linalg.inv(A)
    # errors are measured in the preconditioned system
    T = P @ A
    if cond(T) > 1e4:
        return []
    b = vec(case["seed"] + 1, n, case["kb"])
    As, Ps = sps.csr_matrix(A), sps.csr_matrix(P)
    y = vec(case["seed"] + 2, n) * case["guess"] if case["guess"] else None
    args = keep(b)
    tol = 10.0 ** case["tol"]
    kw = {} if case["imax"] is None else {"i_max": case["imax"]}
    it = {} if case["maxit"] is None else {"max_iter": case["maxit"]}
    x, ok, its, nmat, npre = gbit(As, Ps, b, y=None if y is None else y.copy(), tol=tol, giant_simple=case["simple"] and y is None, **kw, **it)
    same((b,), args, "gbit")
    require(np.array_equal(As.toarray(), A), "gbit changed its matrix")
    require(np.shape(x) == (n,), "result has shape %s", np.shape(x))
    require(its <= (case["maxit"] if case["maxit"] is not None else 2000) + 1, "%d iterations with a limit of %s", its, case["maxit"])
    require(nmat >= its and npre >= its, "%d iterations, %d products, %d preconditioner products", its, nmat, npre)
    ref = np.linalg.solve(A, b)
    labels = [case["kind"], "success" if ok else "failure"]
    size = np.linalg.norm(ref)
    if ok and size:
        err = np.linalg.norm(x - ref) / size
        require(err <= max(tol, 1e-12 * cond(T)) * (1 + cond(T)), "success with relative error %.3g for a tolerance of %.3g", err, tol)
    easy = case["kind"] == "inverse" or (case["kind"] == "close" and np.linalg.norm(np.eye(n) - T, 2) < 0.5)
    if easy and tol >= 1e-9 and case["maxit"] is None and np.linalg.norm(b) > 0:
        require(ok, "no success after %d iterations although the preconditioned matrix is close to the identity", its)
    return labels if n > 1 and np.linalg.norm(b) > 0 else []


gbit_case = st.fixed_dictionaries({"n": sizes(12, 1, 30), "kind": st.sampled_from(["close", "close", "inverse", "spd", "general"]), "seed": seeds,
                                   "eps": st.sampled_from([0.01, 0.1, 0.2, 0.4]), "kb": VK, "guess": st.sampled_from([0, 0, 1, 100]),
                                   "tol": st.integers(-12, -2), "imax": st.sampled_from([None, None, 2, 5, 30]), "maxit": st.sampled_from([None, None, None, 1, 3, 10]),
                                   "simple": st.booleans()})


# ------------------------------------------------------------------ folds

def check_fold(case):
    from funpy.linalg import QR
    from funpy.linalg.fold_solve import FoldSolver
    got = singular(case["A"])
    if got is None:
        return []
    A, phi, psi = got
    n = A.shape[0]
    r = np.random.default_rng(case["seed"])
    B = r.standard_normal((n, n))
    c1, c2 = vec(case["seed"] + 1, n, case["k1"]), vec(case["seed"] + 2, n, case["k2"])
    q = QR(A, tol=1e-9)
    p = q.null()[0]
    M = np.zeros((2 * n + 1, 2 * n + 1))
    M[:n, :n] = M[n:-1, n:-1] = A
    M[n:-1, :n] = B
    M[:n, -1], M[n:-1, -1], M[-1, n:-1] = c1, c2, p
    if cond(M) > 1e5:
        return []
    F = FoldSolver(q, lambda v: v, lambda v: B @ v, c1, c2)
    require(F.is_singular is False, "a fold system counts as singular")
    f = vec(case["seed"] + 3, 2 * n + 1, case["kf"])
    args = keep(f, c1, c2, A)
    solves(M, F.solve(f), f, "fold solve", 1e6)
    same((f, c1, c2, A), args, "fold solve")
    return [case["A"]["kind"]]


fold_case = st.fixed_dictionaries({"A": sq(SING, 7, 2, st.just(0)), "seed": seeds, "k1": VK, "k2": VK, "kf": VK})

GROUPS = [
    Group("qr", qr_case, check_qr, quick=500),
    Group("null", null_case, check_null, quick=500),
    Group("bem", bem_case, check_bem, quick=900, weight=3),
    Group("bemw", bemw_case(sq(KINDS, 6), st.none()), check_bemw, quick=600, weight=2),
    Group("bemw-near", bemw_case(sq(SING, 6, 2), st.integers(-11, -5)), check_bemw, quick=400, weight=2),
    Group("brd", brd_case, check_brd, quick=600, weight=2),
    Group("chol", chol_case, check_chol, quick=700),
    Group("exact", exact_case, check_exact, quick=400),
    Group("gbit", gbit_case, check_gbit, quick=500, weight=2),
    Group("fold", fold_case, check_fold, quick=300),
]
