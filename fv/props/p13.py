"""P13 QR factorisation of function columns."""
import numpy as np
from hypothesis import strategies as st
from ..gens import rspec, arr, domains, xpts, DENSE, zof, cheb_at, cheb_tol, sup, as2d, relbad, EPS, sizes, seeds
from ..harness import Group, require
from .p08 import gram

RULE = """Cases are column sets (lengths down to one less than, equal to and above the number of columns, scales per column, graded
and nearly dependent columns) and intervals. Non-trivial: at least two columns."""
MORE = 4                                             # quick runs: this many times the cases below
ORACLE = "exact Gram matrix of the returned coefficients, triangularity, and Q R against the defining series in extended precision"


def check_qr(case):
    import funpy
    from funpy import Fun
    dom = case["dom"]
    n, m = case["n"], case["m"]
    rng = np.random.default_rng(case["seed"])
    if case["what"] == "square":
        n = m
    elif case["what"] == "tall":
        n = m + n
    else:
        n = max(n, m)
    c = arr({"n": n, "m": m, "seed": case["seed"], "env": case["env"], "rho": 0.6, "scale": 1.0, "cplx": False})
    c[np.arange(m), np.arange(m)] += np.where(rng.uniform(size=m) < 0.5, 1.0, -1.0)     # keeps the columns independent
    if case["near"]:
        for j in range(1, m):
            c[:, j] = c[:, j - 1] + case["near"] * c[:, j]
    if case["legendre"]:                                     # already orthogonal columns
        c = np.zeros((n, m), order="F")
        for j in range(m):
            c[:j + 1, j] = np.polynomial.chebyshev.poly2cheb(np.polynomial.legendre.leg2poly([0] * j + [1]))
        c = c[:, rng.permutation(m)] if case["perm"] else c
    scales = np.asarray((case["scales"] * m)[:m], dtype=float)
    c = np.asfortranarray(c * scales * case["scale"])
    if np.linalg.svd(c / np.maximum(sup(c), 1e-300), compute_uv=False)[-1] < 1e-9:
        return []
    f = Fun(coeffs=c.copy(order="F"), domain=list(dom), simplify=False)
    Q, R = funpy.qr(f)
    R = np.asarray(R)
    require(R.shape == (m, m), "R has shape %s for %d columns", R.shape, m)
    require(isinstance(Q, Fun) and Q.m == m, "Q is a %s of %s columns", type(Q).__name__, getattr(Q, "m", None))
    require(np.array_equal(np.asarray(Q.domain, float), np.asarray(dom, float)), "Q lives on %s", Q.domain)
    require(not np.any(np.tril(R, -1)), "R is not upper triangular: %s", R.tolist())
    q = np.asarray(Q.coeffs)
    half = (dom[1] - dom[0]) / 2
    G = gram(q, q, half).astype(float).reshape(m, m)
    E = np.abs(G - np.eye(m)).max()
    # nearly dependent columns: rounding in the data is amplified by (size of the column) / (what is left of it)
    amp = np.max(np.abs(c).sum(axis=0) * np.sqrt(half) / np.maximum(np.abs(np.diag(R)), 1e-300)) if m > 1 else 1.0
    require(E <= 1e-12 * (n + m) + 100 * EPS * amp * np.sqrt(n + m), "the columns of Q are not orthonormal: largest deviation %.3g (length %d, %d columns)", E, n, m)
    x = np.array(xpts(DENSE, dom))
    z = zof(x, dom)
    F = cheb_at(c, z).astype(float)
    qr = as2d(Q(x), x.size, m) @ R
    L = np.sqrt((dom[1] - dom[0]) / 2)
    big = np.max(np.abs(q).sum(axis=0)) * L
    tol = 1e-12 * (n + m) * sup(c) * max(1, big) + cheb_tol(c, dom)
    bad = relbad(qr, F, tol)
    require(bad is None, "Q R differs from the columns: %s", bad)
    bad = relbad(as2d(f(x), x.size, m), F, cheb_tol(c, dom) + 1e-300)
    require(bad is None, "the factorisation changed the function: %s", bad)
    return ["m=%d" % m if m < 4 else "m>=4", "n=m" if n == m else "n>m"]


GROUPS = [Group("qr", st.fixed_dictionaries({
    "n": sizes(40), "m": st.one_of(st.integers(1, 4), st.integers(1, 9)), "what": st.sampled_from(["square", "tall", "any"]), "seed": seeds,
    "env": st.sampled_from(["flat", "flat", "geo", "even", "odd", "int"]), "near": st.sampled_from([0, 0, 0, 1e-1, 1e-2]),
    "legendre": st.sampled_from([False, False, False, True]), "perm": st.booleans(),
    "scales": st.lists(st.sampled_from([1.0, 1.0, -2.0, 0.1, 1e-4, 1e-9, 1e5]), min_size=1, max_size=4),
    "scale": st.sampled_from([1.0, 1.0, 1e-8, 1e8, 1e-3, 1e12]), "dom": domains}), check_qr, 2500)]
