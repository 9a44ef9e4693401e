"""P16 ultraspherical conversions and matrices represent their operators."""
import numpy as np
from hypothesis import strategies as st
from ..gens import rspec, arr, domains, xpts, DENSE, zof, cheb_at, sup, relbad, EPS, LD, sizes, seeds
from ..harness import Group, require, fail
from .p06 import der

RULE = """Cases are coefficient arrays, sizes, basis indices (source and target), derivative orders, multipliers, sparse formats and
intervals (one or several pieces). Non-trivial: a non-zero polynomial was converted, differentiated, multiplied, integrated or evaluated."""
ORACLE = """extended-precision evaluation of the series by the recurrence of its basis, derivative and integral of the Chebyshev series,
and the three-term multiplication matrix of the target basis"""


def ultra_basis(N, lam, z):
    """C_k^(lam)(z), k < N (T_k for lam = 0), one column per index."""
    z = np.asarray(z, dtype=LD)
    P = np.zeros((z.size, max(N, 2)), dtype=LD)
    P[:, 0] = 1
    P[:, 1] = z if lam == 0 else 2 * LD(lam) * z
    for k in range(2, N):
        if lam == 0:
            P[:, k] = 2 * z * P[:, k - 1] - P[:, k - 2]
        else:
            P[:, k] = (2 * (k + LD(lam) - 1) * z * P[:, k - 1] - (k + 2 * LD(lam) - 2) * P[:, k - 2]) / k
    return P[:, :N]


Z = np.concatenate([DENSE, [-1.0, 1.0]])


def size_in(c, lam):
    """Bound of the polynomial: sum |c_k| C_k(1)."""
    return np.abs(np.asarray(c, float)).T @ ultra_basis(c.shape[0], lam, [1.0])[0].astype(float)


def same_poly(c, lc, d, ld, what, amp=1.0, extra=0.0):
    v = ultra_basis(c.shape[0], lc, Z) @ c.astype(LD)
    w = ultra_basis(d.shape[0], ld, Z) @ np.asarray(d).astype(LD)
    tol = 1e-14 * (c.shape[0] + 2) * amp * (size_in(c, lc) + size_in(np.asarray(d), ld)) + extra + 1e-300
    bad = relbad(w.astype(float), v.astype(float), tol)
    require(bad is None, "%s: %s", what, bad)


def check_u2u(case):
    from funpy import Fun, ultra2ultra
    a, b = case["lin"], case["lout"]
    if (a - b) % 1 and case["whole"]:
        b = (b + 0.5) % 4
    c = np.asarray(arr(case["c"]), order=case["order"])
    n, m = c.shape
    c0 = c.copy()
    if (a - b) % 1:
        try:
            d = ultra2ultra(c, a, b)
        except AssertionError:
            require(np.array_equal(c, c0), "a refused conversion changed its input")
            return ["refused"]
        same_poly(c0, a, d, b, "conversion C^(%g) -> C^(%g) of length %d" % (a, b, n))
        return ["half step"]
    d = ultra2ultra(c, a, b)
    require(np.array_equal(c, c0), "conversion C^(%g) -> C^(%g) changed its input", a, b)
    require(d.shape == (n, m), "conversion C^(%g) -> C^(%g) turns shape %s into %s", a, b, (n, m), d.shape)
    same_poly(c0, a, d, b, "conversion C^(%g) -> C^(%g) of length %d" % (a, b, n))
    d0 = np.copy(d)
    e = ultra2ultra(d, b, a)
    require(np.array_equal(d, d0), "the reverse conversion changed its input")
    same_poly(c0, a, e, a, "conversion C^(%g) -> C^(%g) and back" % (a, b), extra=1e-14 * (n + 2) * size_in(d0, b))
    if b == 0 or a == 0:
        # the constructor from ultraspherical coefficients
        lam = max(a, b)
        u = c0 if b == 0 else d0
        f = Fun.from_ultra(u.flatten(order="F").copy(), m, lam, domain=[-1, 1])
        same_poly(u, lam, f.coeffs, 0, "function from C^(%g) coefficients" % lam)
    return ["a=%g" % a, "b=%g" % b, "m=1" if m == 1 else "m>1", "up" if b > a else ("down" if b < a else "same")] if c0.any() else []


def dense(M):
    return M.toarray() if hasattr(M, "toarray") else np.asarray(M)


def check_conv(case):
    from funpy.colloc.ultraS.matrices import convertmat, convertmat_inv
    n, k1, k2, fmt = max(case["n"], 2), case["k1"], case["k2"], case["fmt"]
    c = arr(dict(case["c"], n=n))
    S = convertmat(n, k1, k2, format=fmt)
    keep = dense(S).copy()
    require(keep.shape == (n, n), "conversion matrix has shape %s", keep.shape)
    if fmt:
        require(S.format == fmt, "conversion matrix has format %s instead of %s", S.format, fmt)
    d = S @ c
    top = k2 + 1 if k2 >= k1 else k1
    same_poly(c, k1, d, top, "conversion matrix C^(%d) -> C^(%d) of size %d" % (k1, top, n))
    R = dense(convertmat_inv(n, k1, k2, format=fmt))
    e = R @ d
    amp = float(np.abs(R).sum(axis=1).max()) * float(np.abs(keep).sum(axis=1).max())
    require(np.all(np.abs(e - c) <= 1e-14 * (n + 2) * amp * np.abs(c).max() + 1e-300), "inverse conversion C^(%d) -> C^(%d) does not undo the conversion", top, k1)
    same_poly(d, top, e, k1, "inverse conversion matrix C^(%d) -> C^(%d) of size %d" % (top, k1, n))
    require(np.array_equal(dense(convertmat(n, k1, k2, format=fmt)), keep), "a conversion matrix changes between calls")
    return ["K1=%d" % k1, "K2=%d" % k2, "n<5" if n < 5 else "n>=5"] if c.any() else []


def check_diff(case):
    from funpy.colloc.ultraS.matrices import diffmat
    from funpy.colloc.ultraS.ultraS import ultraS
    n, k, dom = max(case["n"], 2), case["k"], case["dom"]
    c = arr(dict(case["c"], n=n))
    D = diffmat(n, m=k, format=case["fmt"])
    require(dense(D).shape == (n, n), "differentiation matrix has shape %s", dense(D).shape)
    if case["fmt"]:
        require(D.format == case["fmt"], "differentiation matrix has format %s instead of %s", D.format, case["fmt"])
    d = D @ c
    ref = c.astype(LD)
    for _ in range(k):
        ref = der(ref)
    v = cheb_at(ref, Z)
    w = ultra_basis(n, k, Z) @ d.astype(LD)
    tol = 1e-13 * (n + 2) * size_in(np.abs(d) + 0.0, k) + 1e-300
    bad = relbad(w.astype(float), v.astype(float), tol)
    require(bad is None, "differentiation matrix of order %d and size %d: %s", k, n, bad)
    # the discretisation on an interval (or on several pieces) scales by the length of each piece
    cuts = [dom[0]] + [dom[0] + t * (dom[1] - dom[0]) for t in sorted(case["cuts"])] + [dom[1]]
    if min(np.diff(cuts)) < 0.05 * (dom[1] - dom[0]):
        cuts = list(dom)
    p = len(cuts) - 1
    disc = ultraS(dimension=[n] * p, domain=np.array(cuts))
    c2 = np.vstack([c * (1.0 + i) for i in range(p)])
    fmt = {"format": case["fmt"]} if case["fmt"] else {}
    O, I, S = disc.diff(k, **fmt), disc.int(**fmt), disc.convert(0, max(k, 1) - 1, **fmt)
    require(O.format == I.format == S.format == (case["fmt"] or "csr"), "formats %s, %s, %s instead of %s", O.format, I.format, S.format, case["fmt"])
    out = O @ c2
    I = I @ c2
    up = S @ c2
    back = disc.iconvert(0, max(k, 1) - 1) @ up
    kk = np.arange(n)
    wts = np.where(kk % 2 == 0, 2.0 / (1.0 - np.where(kk % 2 == 0, kk, 0)**2.0), 0.0)
    for i in range(p):
        L = cuts[i + 1] - cuts[i]
        r = slice(i * n, (i + 1) * n)
        f = (2 / L)**k * (1.0 + i)
        bad = relbad(out[r], d * f, 1e-13 * (np.abs(d) * abs(f)) + 1e-300)
        require(bad is None, "differentiation of order %d on piece %d of %s: %s", k, i, cuts, bad)
        J = wts @ c2[r] * L / 2
        require(np.all(np.abs(I[r][0] - J) <= 1e-13 * L * sup(c2[r]) + 1e-300), "integral over piece %d of %s is %s instead of %s", i, cuts, I[r][0], J)
        require(not np.any(I[r][1:]), "the integration matrix has entries below the first row")
        same_poly(c2[r], 0, up[r], max(k, 1), "conversion on piece %d" % i)
        require(np.all(np.abs(back[r] - c2[r]) <= 1e-13 * (n + 2) ** (max(k, 1) + 1) * np.abs(c2[r]).max() + 1e-300), "conversion and back on piece %d", i)
    return ["order=%d" % k, "pieces=%d" % p, "n<5" if n < 5 else "n>=5"] if c.any() else []


def xmat(N, lam):
    """Multiplication by x in the C^(lam) basis: column j holds x C_j."""
    X = np.zeros((N, N), dtype=LD)
    for j in range(N):
        if lam == 0:
            if j + 1 < N:
                X[j + 1, j] = 1 if j == 0 else LD(1) / 2
            if j > 0:
                X[j - 1, j] = LD(1) / 2
        else:
            if j + 1 < N:
                X[j + 1, j] = LD(j + 1) / (2 * (j + LD(lam)))
            if j > 0:
                X[j - 1, j] = (j + 2 * LD(lam) - 1) / (2 * (j + LD(lam)))
    return X


def mult_ref(c, k, lam):
    """Top left k x k block of multiplication by sum c_j T_j."""
    n = c.size
    N = k + n + 2
    X = xmat(N, lam)
    I = np.eye(N, dtype=LD)
    M = c[0] * I
    A, B = I, X
    for j in range(1, n):
        M = M + c[j] * B
        A, B = B, 2 * X @ B - A
    return M[:k, :k]


def check_mult(case):
    from funpy import Fun
    from funpy.colloc.ultraS.matrices import multmat
    from funpy.colloc.ultraS.ultraS import ultraS
    k, lam, fmt = max(case["k"], 2), case["lam"], case["fmt"]
    c = arr(dict(case["c"], m=1, n=min(case["c"]["n"], 40))) * case["mag"]
    n = c.shape[0]
    f = Fun(coeffs=c.copy(order="F"), domain=[-1, 1], simplify=False)
    M = multmat(k, f, lam, format=fmt)
    require(np.array_equal(f.coeffs, c), "building a multiplication matrix changed the multiplier")
    M = dense(M)
    require(M.shape == (k, k), "multiplication matrix has shape %s instead of %s", M.shape, (k, k))
    cc = c[:k, 0].astype(LD)             # a multiplier longer than the matrix is truncated to its size
    R = mult_ref(cc, k, lam).astype(float)
    u = ultra_basis(k, lam, [1.0])[0].astype(float) if lam else np.ones(k)
    # sizes measured in the basis functions: entry (i, j) contributes C_i(1) for input C_j
    S = 1e-13 * (k + n) * np.abs(cc).astype(float).sum() * (u[None, :] / u[:, None]) * (1 if lam < 2 else k)
    if lam >= 2:                         # the recurrence stops at coefficients below rounding level
        S = S + 4 * EPS * float(np.abs(cc).max()) * u.sum() * u[None, :] / u[:, None]
    bad = relbad(M, R, S + 1e-300)
    require(bad is None, "multiplication matrix (size %d, multiplier of length %d, lambda = %d): %s", k, n, lam, bad)
    # and as an operator: product of two polynomials that fits
    d = k - min(n, k) + 1
    g = arr(dict(case["g"], n=d, m=1))
    g = np.vstack([g, np.zeros((k - d, 1))])
    v = ultra_basis(k, lam, Z) @ (M.astype(LD) @ g.astype(LD))
    w = (cheb_at(cc[:, None], Z)) * (ultra_basis(k, lam, Z) @ g.astype(LD))
    tol = (1e-13 * (k + n) * (1 if lam < 2 else k) * float(np.abs(cc).sum()) + (lam >= 2) * 4 * EPS * float(np.abs(cc).max()) * u.sum()) * size_in(g, lam) + 1e-300
    bad = relbad(v.astype(float), w.astype(float), tol)
    require(bad is None, "product by the multiplication matrix (size %d, lambda = %d): %s", k, lam, bad)
    disc = ultraS(dimension=[k], domain=np.array([0.0, 3.0]))
    require(np.array_equal(dense(disc.mult([f], lam)), M), "the discretisation's multiplication matrix differs")
    return ["lam=%d" % lam, "n<=k" if n <= k else "n>k", "n=1" if n == 1 else "n>1", "k=%d" % k if k < 5 else "k>=5"] if c.any() else []


def check_func(case):
    from funpy.colloc.ultraS.matrices import intmat, evalfun, realmat, zeromat
    n = max(case["n"], 2)
    c = arr(dict(case["c"], n=n))
    I = intmat(n, format=case["fmt"])
    if case["fmt"]:
        require(I.format == case["fmt"], "integration matrix has format %s instead of %s", I.format, case["fmt"])
    A = dense(I)
    require(A.shape == (n, n) and not np.any(A[1:]), "integration matrix has shape %s or entries below the first row", A.shape)
    kk = np.arange(n)
    wts = np.array([2.0 / (1.0 - float(k)**2) if k % 2 == 0 else 0.0 for k in kk])
    v = A[0] @ c
    require(np.all(np.abs(v - wts @ c) <= 1e-14 * (n + 2) * sup(c) + 1e-300), "integration row of size %d gives %s instead of %s", n, v, wts @ c)
    R = dense(realmat(n, format=case["fmt"]))
    require(R.shape == (n, n) and R[0, 0] == 1 and np.count_nonzero(R) == 1, "projection matrix of size %d is wrong", n)
    from funpy.cheb import chebpts_type2
    x = np.asarray(chebpts_type2(n)[0])
    samples = cheb_at(c, x).astype(float)
    for t in case["t"]:
        E = np.asarray(evalfun(n, t))
        require(E.shape == (1, n), "evaluation functional has shape %s", E.shape)
        got = E @ samples
        ref = cheb_at(c, [t]).astype(float)
        bad = relbad(got, ref, 1e-12 * (n + 2) * sup(c) + 1e-300)
        require(bad is None, "evaluation functional of size %d at %r: %s", n, t, bad)
    return ["n=2" if n == 2 else "n>2", "even" if n % 2 == 0 else "odd"] if c.any() else []


fmts = st.sampled_from([None, "csr", "csc"])
cs = rspec()
LAMS = [0, 1, 2, 3, 4, 0.5, 1.5, 2.5]
GROUPS = [
    Group("u2u", st.fixed_dictionaries({"c": rspec(n=sizes(40)), "lin": st.sampled_from(LAMS), "lout": st.sampled_from(LAMS),
                                        "order": st.sampled_from(["C", "F"]), "whole": st.sampled_from([True, True, True, False])}), check_u2u, 1000),
    Group("convert", st.fixed_dictionaries({"c": cs, "n": sizes(60), "k1": st.integers(0, 3), "k2": st.integers(0, 4), "fmt": fmts}), check_conv, 800),
    Group("diff", st.fixed_dictionaries({"c": cs, "n": sizes(60), "k": st.integers(0, 5), "dom": domains, "cuts": st.lists(st.sampled_from([0.2, 0.5, 0.7]), max_size=2, unique=True), "fmt": fmts}), check_diff, 800),
    Group("mult", st.fixed_dictionaries({"c": rspec(n=sizes(40)), "g": rspec(), "k": sizes(40, big=130), "lam": st.integers(0, 4), "mag": st.sampled_from([1.0, 1.0, 1e-16, 1e6, 1e-9]), "fmt": fmts}), check_mult, 900),
    Group("func", st.fixed_dictionaries({"c": cs, "n": sizes(80), "fmt": fmts, "t": st.lists(st.one_of(st.floats(-1, 1), st.sampled_from([-1.0, 1.0, 0.0])), min_size=1, max_size=4)}), check_func, 600),
]
