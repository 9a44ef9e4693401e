"""P17 Fourier discretisation matrices represent their operators."""
import numpy as np
from hypothesis import strategies as st
from ..gens import tspec, tarr, domains, xpts, DENSE, trig_at, freqs, sup, relbad, EPS, LD, CLD, PI, sizes
from ..harness import Group, require, fail
from .p07 import der
from .p08 import pad_trig

RULE = """Cases are matrix sizes (even and odd), derivative orders, sparse formats, Fourier coefficient arrays, multipliers shorter, equal
and longer than the matrix, sensing radii and intervals (one or several pieces). Non-trivial: a non-zero trigonometric polynomial was
differentiated, integrated, multiplied or aggregated."""
MORE = 4                                             # quick runs: this many times the cases below
ORACLE = """extended-precision mode-by-mode derivative, integral, product and nonlocal integral of the represented function; values of the exact
derivative at the grid points"""


def dense(M):
    return M.toarray() if hasattr(M, "toarray") else np.asarray(M)


def unit(c, n, m, unpaired):
    c = tarr(dict(c, n=n, m=m))
    if n % 2 == 0 and not unpaired:
        c[0] = 0
    return c


def check_spec(case):
    """Differentiation, integration and nonlocal matrices on coefficients."""
    from funpy.colloc.trigspec.matrices import diffmat, intmat, aggmat
    from funpy.colloc.trigspec.trigspec import trigspec
    n, k, dom, fmt = case["n"], case["k"], case["dom"], case["fmt"]
    c = unit(case["c"], n, 2, True)
    w = freqs(n).astype(CLD)[:, None]
    D = diffmat(n, m=k, format=fmt)
    require(dense(D).shape == (n, n), "differentiation matrix has shape %s", dense(D).shape)
    if fmt and k <= 1:
        require(D.format == fmt, "differentiation matrix has format %s instead of %s", D.format, fmt)
    d = D @ c
    ref = (1j * w)**k * c.astype(CLD)
    if n % 2 == 0 and k % 2:
        ref[0] = 0
    ref = ref.astype(complex)
    bad = relbad(d + 0j, ref, 1e-14 * (k + 1) * np.abs(ref) + 1e-300)
    require(bad is None, "differentiation matrix of order %d and size %d: %s", k, n, bad)
    I = dense(intmat(n, format=fmt)) @ c
    z = int(np.where(freqs(n) == 0)[0][0])
    bad = relbad(I[z] + 0j, 2 * c[z] + 0j, 1e-15 * np.abs(2 * c[z]) + 1e-300)
    require(bad is None, "integration matrix of size %d: %s", n, bad)
    require(np.count_nonzero(I) <= I.shape[1] and not np.any(np.delete(I, z, axis=0)), "the integration matrix has entries besides the constant mode")
    # average of sign(r) u(x + r) over |r| < R
    R = LD(case["R"])
    fr = freqs(n).astype(LD)
    A = dense(aggmat(n, rescaleFactor=float(R), format=fmt))
    lam = np.zeros(n, dtype=CLD)
    nz = fr != 0
    lam[nz] = 1j * (1 - np.cos(PI * R * fr[nz])) / (PI * R * fr[nz])
    tol = 64 * EPS * (1 + np.abs(fr.astype(float)) * float(R)) / np.maximum(np.abs(fr.astype(float)) * float(R), 1e-3) + 1e-14
    bad = relbad(A @ c + 0j, (lam[:, None] * c.astype(CLD)).astype(complex), tol[:, None] * np.abs(c) + 1e-300)
    require(bad is None, "nonlocal matrix of size %d and radius %s: %s", n, case["R"], bad)
    A1 = dense(aggmat(n, m=1, rescaleFactor=float(R), format=fmt))
    bad = relbad(A1 @ c + 0j, ((1j * w) * lam[:, None] * c.astype(CLD)).astype(complex), (tol * (1 + np.abs(fr.astype(float))))[:, None] * np.abs(c) + 1e-300)
    require(bad is None, "derivative of the nonlocal matrix of size %d and radius %s: %s", n, case["R"], bad)
    # the discretisation on an interval, or on several pieces
    cuts = [dom[0]] + [dom[0] + t * (dom[1] - dom[0]) for t in sorted(case["cuts"])] + [dom[1]]
    if min(np.diff(cuts)) < 0.05 * (dom[1] - dom[0]):
        cuts = list(dom)
    p = len(cuts) - 1
    disc = trigspec(dimension=[n] * p, domain=np.array(cuts))
    c2 = np.vstack([c * (1.0 + i) for i in range(p)])
    out, J, G = disc.diff(k) @ c2, disc.int() @ c2, disc.aggregation() @ c2
    for i in range(p):
        L = LD(cuts[i + 1]) - LD(cuts[i])
        r = slice(i * n, (i + 1) * n)
        exact = der(c2[r], k) * (2 / L)**k
        bad = relbad(out[r] + 0j, exact.astype(complex), 1e-13 * (k + 1) * np.abs(exact).astype(float) + 1e-300)
        require(bad is None, "derivative of order %d on piece %d of %s: %s", k, i, cuts, bad)
        bad = relbad(J[r][z] + 0j, (c2[r][z] * L).astype(complex), 1e-13 * np.abs(c2[r][z]) * float(L) + 1e-300)
        require(bad is None, "integral over piece %d of %s: %s", i, cuts, bad)
        # sensing radius one in the units of the interval
        rr = 2 / L
        lam[nz] = 1j * (1 - np.cos(PI * rr * fr[nz])) / (PI * rr * fr[nz])
        tol = 64 * EPS * (1 + np.abs(fr.astype(float)) * float(rr)) / np.maximum(np.abs(fr.astype(float)) * float(rr), 1e-4) + 1e-13
        bad = relbad(G[r] + 0j, (lam[:, None] * c2[r].astype(CLD)).astype(complex), tol[:, None] * np.abs(c2[r]) + 1e-300)
        require(bad is None, "nonlocal term on piece %d of %s: %s", i, cuts, bad)
    return ["even" if n % 2 == 0 else "odd", "order=%d" % min(k, 5), "pieces=%d" % p] if c.any() else []


def check_mult(case):
    from funpy import Fun
    from funpy.colloc.trigspec.matrices import multmat
    from funpy.colloc.trigspec.trigspec import trigspec
    k = case["k"]
    c = tarr(dict(case["c"], m=1)) * case["mag"]
    n = c.shape[0]
    f = Fun(coeffs=c.copy(order="F"), domain=list(case["dom"]), type="trig", simplify=False)
    c0, v0 = f.coeffs.copy(), f.values.copy()
    M = multmat(k, f, format=case["fmt"])
    require(np.array_equal(f.coeffs, c0) and np.array_equal(f.values, v0), "building a multiplication matrix changed the multiplier")
    M = dense(M)
    require(M.shape == (k, k), "multiplication matrix has shape %s instead of %s (multiplier of length %d)", M.shape, (k, k), n)
    N = max(n, k)
    full = pad_trig(c, N)[:, 0]                         # modes -N..N
    i = np.arange(k)
    R = full[N + i[:, None] - i[None, :]].astype(complex)
    bad = relbad(M + 0j, R, 1e-15 * np.abs(c).max() + 1e-300)
    require(bad is None, "multiplication matrix of size %d for a multiplier of length %d: %s", k, n, bad)
    # as an operator: the product of two functions that fits
    hi = (k - 1) // 2 - n // 2
    if hi >= 0:
        g = tarr(dict(case["g"], n=2 * hi + 1, m=1))
        gg = np.zeros((k, 1), dtype=complex)
        gg[np.isin(freqs(k), freqs(2 * hi + 1))] = g
        z = np.concatenate([DENSE, [-1.0, 1.0]])
        v = trig_at(M @ gg, z)
        w = trig_at(c, z) * trig_at(g, z)
        bad = relbad(v.astype(complex), w.astype(complex), 1e-14 * (k + n) * sup(c) * sup(g) + 1e-300)
        require(bad is None, "product by the multiplication matrix (size %d): %s", k, bad)
    disc = trigspec(dimension=[k], domain=np.array(case["dom"]))
    require(np.array_equal(dense(disc.mult([f])), M), "the discretisation's multiplication matrix differs")
    return ["n<k" if n < k else "n>=k", "n even" if n % 2 == 0 else "n odd", "k even" if k % 2 == 0 else "k odd", "big" if k >= 100 else "small"] if c.any() else []


def check_coll(case):
    """Differentiation of samples on the equispaced grid."""
    from funpy.colloc.trigcolloc.matrices import diffmat
    n, k = max(case["n"], 2), case["k"]
    c = unit(case["c"], n, 2, True)
    x = 2 * np.arange(n) / n - 1
    D = dense(diffmat(n, m=k))
    require(D.shape == (n, n), "collocation matrix has shape %s", D.shape)
    v = trig_at(c, x)
    d = der(c, k)
    ref = trig_at(d, x).astype(complex)
    K = (np.pi * n / 2)**k
    tol = 1e-13 * (k + 1) * n * K * sup(c) + 1e-300
    bad = relbad(D @ v.astype(complex), ref, tol)
    require(bad is None, "collocation matrix of order %d and size %d: %s", k, n, bad)
    # per mode, so that the high orders do not hide the low ones
    for j in case["modes"]:
        q = j % ((n + 1) // 2)
        e = np.exp(1j * np.pi * q * x)
        lim = 1e-13 * (k + 1) * n * np.maximum(1.0, (np.pi * n / 2)**k * 2e-2)
        bad = relbad(D @ e, (1j * np.pi * q)**k * e, lim)
        require(bad is None, "collocation matrix of order %d and size %d on mode %d: %s", k, n, q, bad)
    return ["even" if n % 2 == 0 else "odd", "order=%d" % k, "n=2" if n == 2 else "n>2"] if c.any() else []


fmts = st.sampled_from([None, "csr", "csc"])
kinds = ("real", "cplx")
GROUPS = [
    Group("spec", st.fixed_dictionaries({"n": sizes(60), "k": st.integers(0, 6), "c": tspec(kinds=kinds), "dom": domains, "fmt": fmts,
                                         "R": st.one_of(st.sampled_from([1.0, 0.5, 0.1, 2.0]), st.floats(0.01, 4)),
                                         "cuts": st.lists(st.sampled_from([0.2, 0.5, 0.7]), max_size=2, unique=True)}), check_spec, 1200),
    Group("mult", st.fixed_dictionaries({"k": sizes(40, big=130), "c": tspec(n=sizes(40, big=130), kinds=kinds), "g": tspec(kinds=kinds), "dom": domains, "fmt": fmts,
                                         "mag": st.sampled_from([1.0, 1.0, 1e-9, 1e9])}), check_mult, 1000),
    Group("coll", st.fixed_dictionaries({"n": sizes(40), "k": st.integers(0, 6), "c": tspec(kinds=kinds), "modes": st.lists(st.integers(0, 40), max_size=4)}), check_coll, 1000),
]
