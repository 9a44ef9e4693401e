"""P07 calculus on periodic (Fourier) functions is exact."""
import numpy as np
from hypothesis import strategies as st
from ..gens import tspec, tarr, domains, points, xpts, DENSE, zof, trig_at, trig_tol, freqs, sup, as2d, relbad, EPS, LD, CLD, PI, sizes
from ..harness import Group, require, fail

RULE = """Cases are Fourier coefficient arrays (even/odd length, columns, real, complex or mixed), an interval, derivative orders
and points (or two arrays and two factors for linearity). Non-trivial: the function is not identically zero and a derivative or
integral of it was compared."""
ORACLE = "extended-precision mode-by-mode derivative and antiderivative; trapezoidal quadrature; algebraic laws"


def make(c, dom):
    from funpy import Fun
    return Fun(coeffs=np.copy(c, order="F"), domain=list(dom), type="trig", simplify=False)


def snap(f):
    return np.copy(f.coeffs), np.copy(f.values), np.copy(f.isReal)


def same(f, s):
    return np.array_equal(f.coeffs, s[0]) and np.array_equal(f.values, s[1]) and np.array_equal(f.isReal, s[2])


def der(c, k):
    """Coefficients of the k-th derivative; odd derivatives of the unpaired mode are dropped (they vanish on the grid)."""
    n = c.shape[0]
    w = (1j * PI * freqs(n).astype(CLD))**k
    d = c.astype(CLD) * w[:, None]
    if n % 2 == 0 and k % 2 == 1:
        d[0] = 0
    return d


def integ(c, k=1):
    n = c.shape[0]
    w = freqs(n)
    d = np.zeros(c.shape, dtype=CLD)
    nz = w != 0
    d[nz] = c.astype(CLD)[nz] / ((1j * PI * w[nz].astype(CLD))**k)[:, None]
    if n % 2 == 0 and k % 2:
        d[0] = 0
    z = int(np.where(w == 0)[0][0])
    d[z] = -np.sum(d * ((-1.0)**np.abs(w))[:, None], axis=0)
    return d


def check_real(h, c, what):
    """Columns that are real by construction are reported real."""
    if h.m != c.shape[1]:
        fail("%s has %d columns instead of %d" % (what, h.m, c.shape[1]))
    n = c.shape[0]
    tail = c[1:] if n % 2 == 0 else c
    real = np.array([np.array_equal(np.conj(tail[::-1, j]), tail[:, j]) and (n % 2 == 1 or c[0, j].imag == 0) for j in range(c.shape[1])])
    require(np.all(np.atleast_1d(h.isReal)[real]), "%s of a real column is reported complex", what)


def consistent(h, dom, what):
    require(h.values.shape == h.coeffs.shape, "%s: values %s and coefficients %s", what, h.values.shape, h.coeffs.shape)
    lim = trig_tol(h.coeffs, dom) * 4 + 8e-10 * sup(h.coeffs)
    bad = relbad(h.values + 0j, trig_at(h.coeffs, zof(h.x, dom)) + 0j, lim)
    require(bad is None, "%s: stored samples disagree with the coefficients: %s", what, bad)


def check_diff(case):
    dom, k = case["dom"], case["k"]
    c = tarr(case["c"])
    f = make(c, dom)
    m, n = f.m, c.shape[0]
    before = snap(f)
    h = np.diff(f, k) if case["kw"] == "pos" else (np.diff(f, n=k) if k != 1 or case["kw"] == "n" else np.diff(f))
    require(same(f, before), "differentiation changed its argument")
    require(h.type == "trig" and list(h.domain) == list(dom), "derivative has another kind or interval")
    check_real(h, c, "derivative")
    consistent(h, dom, "derivative")
    x = np.concatenate((xpts(DENSE, dom), xpts(case["t"], dom)))
    z = zof(x, dom)
    fac = (LD(2) / (LD(dom[1]) - LD(dom[0])))**k
    r = der(c, k)
    ref = trig_at(r, z) * fac
    tol = float(fac) * (trig_tol(np.asarray(r, complex), dom) + 1e-9 * EPS)
    # a column counts as real when its imaginary part is below 3 eps of its size
    tol = tol + float(fac) * 2e-9 * sup(r.astype(complex)) * (case["c"]["kind"] == "cplx")
    bad = relbad(as2d(h(x), x.size, m) + 0j, ref.astype(complex), tol + 1e-300)
    require(bad is None, "derivative of order %d: %s", k, bad)
    I = np.asarray(np.sum(h)).reshape(m)
    L = dom[1] - dom[0]
    require(np.all(np.abs(I) <= L * 1e-13 * float(fac) * (sup(r.astype(complex)) + sup(c)) + 1e-300), "a derivative has integral %s", I)
    if k > 1 and case["steps"]:
        g = f
        for _ in range(k):
            g = np.diff(g)
        rs = der(c, 1)
        for _ in range(k - 1):
            rs = der(rs, 1)
        bad = relbad(as2d(g(x), x.size, m) + 0j, (trig_at(rs, z) * fac).astype(complex), 4 * tol + 1e-300)
        require(bad is None, "%d repeated derivatives: %s", k, bad)
    return ["order=%d" % min(k, 5), "even" if n % 2 == 0 else "odd", "m=1" if m == 1 else "m>1", case["c"]["kind"]] if c.any() else []


def check_sum(case):
    dom = case["dom"]
    c = tarr(case["c"])
    f = make(c, dom)
    m, n = f.m, c.shape[0]
    before = snap(f)
    I = np.sum(f)
    require(same(f, before), "integration changed its argument")
    I = np.asarray(I)
    require(I.size == m, "definite integral has %d values for %d columns", I.size, m)
    L = LD(dom[1]) - LD(dom[0])
    z = int(np.where(freqs(n) == 0)[0][0])
    ref = c[z].astype(CLD) * L if n > 1 or True else None
    tol = float(L) * (64 * EPS * sup(c) + 2e-9 * sup(c) * (case["c"]["kind"] == "cplx")) + 1e-300
    bad = relbad(I.reshape(m) + 0j, ref.astype(complex), tol)
    require(bad is None, "definite integral: %s", bad)
    # trapezoidal rule with more points than modes (exact)
    N = n + 3
    q = 2 * np.arange(N) / N - 1
    v = as2d(f(xpts(q, dom)), N, m)
    bad = relbad(I.reshape(m) + 0j, float(L) * v.mean(axis=0) + 0j, tol + float(L) * (trig_tol(c, dom) + 1e-13 * sup(c)))
    require(bad is None, "definite integral against quadrature: %s", bad)
    return ["even" if n % 2 == 0 else "odd", "m=1" if m == 1 else "m>1", case["c"]["kind"]] if c.any() else []


def check_cumsum(case):
    dom = case["dom"]
    c = tarr(case["c"], zero_mean=True)
    n, m = c.shape
    if n % 2 == 0:
        # the antiderivative of the unpaired cosine vanishes on the grid; it is dropped
        pass
    f = make(c, dom)
    before = snap(f)
    F = np.cumsum(f)
    require(same(f, before), "indefinite integration changed its argument")
    require(F.type == "trig" and list(F.domain) == list(dom), "integral has another kind or interval")
    check_real(F, c, "integral")
    consistent(F, dom, "integral")
    half = (LD(dom[1]) - LD(dom[0])) / 2
    x = np.concatenate((xpts(DENSE, dom), xpts(case["t"], dom)))
    z = zof(x, dom)
    b = integ(c)
    ref = trig_at(b, z) * half
    tol = float(half) * (trig_tol(np.asarray(b, complex), dom) + 1e-14 * (1 + n) * sup(c)
                         + 2e-9 * sup(c) * (case["c"]["kind"] == "cplx")) + 1e-300
    bad = relbad(as2d(F(x), x.size, m) + 0j, ref.astype(complex), tol)
    require(bad is None, "indefinite integral: %s", bad)
    left = np.asarray(F(dom[0])).reshape(m)
    require(np.all(np.abs(left) <= tol), "indefinite integral is %s at the left end", left)
    g = np.diff(F)
    cc = c.copy()
    if n % 2 == 0:
        cc[0] = 0
    bad = relbad(as2d(g(x), x.size, m) + 0j, trig_at(cc, z).astype(complex),
                 trig_tol(c, dom) + 1e-13 * (1 + n)**2 * sup(c) + 2e-9 * (1 + n) * sup(c) * (case["c"]["kind"] == "cplx") + 1e-300)
    require(bad is None, "derivative of the integral: %s", bad)
    return ["even" if n % 2 == 0 else "odd", "m=1" if m == 1 else "m>1", case["c"]["kind"]] if c.any() else []


def check_repeated(case):
    """The integral of order k on [-1, 1] vanishes at the left end, and its k-th derivative is the function."""
    from funpy.trig.trigtech import cumsum
    c = tarr(case["c"], zero_mean=True)
    n, m = c.shape
    k = case["k"]
    f = make(c, [-1, 1]).onefun
    before = f.coeffs.copy()
    F = cumsum(f, m=k)
    require(np.array_equal(before, f.coeffs), "repeated integration changed its argument")
    z = np.concatenate((DENSE, np.asarray(case["t"], float)))
    b = integ(c, k)
    loose = 2e-9 * sup(c) * (case["c"]["kind"] == "cplx")
    tol = trig_tol(np.asarray(b, complex), [-1, 1]) + 1e-14 * (1 + n) * sup(c) + loose + 1e-300
    got = as2d(F(z), z.size, m) + 0j
    bad = relbad(got, trig_at(b, z).astype(complex), tol)
    require(bad is None, "integral of order %d: %s", k, bad)
    require(np.all(np.abs(np.asarray(F(np.array([-1.0]))).reshape(m)) <= tol), "integral of order %d does not vanish at the left end", k)
    return ["even" if n % 2 == 0 else "odd", "k=%d" % k, case["c"]["kind"]] if c.any() else []


def check_mean(case):
    """A function with clearly non-zero mean in some column has no periodic antiderivative: refused."""
    dom = case["dom"]
    c = tarr(case["c"], zero_mean=True)
    n, m = c.shape
    z = int(np.where(freqs(n) == 0)[0][0])
    j = case["j"] % m
    size = max(sup(c).max(), 1e-3)
    c[z, j] = case["mean"] * size
    f = make(c, dom)
    try:
        np.cumsum(f)
    except RuntimeError:
        return ["refused", "m=1" if m == 1 else "m>1"]
    fail("a function with mean %g (size %g) in column %d of %d was integrated periodically" % (c[z, j].real, size, j, m))


def check_linear(case):
    dom = case["dom"]
    cf, cg = tarr(case["f"], zero_mean=True), tarr(case["g"], zero_mean=True)
    m = min(cf.shape[1], cg.shape[1])
    cf, cg = np.asfortranarray(cf[:, :m]), np.asfortranarray(cg[:, :m])
    # the unpaired mode of an even-length operand is outside the linear structure (it is dropped by odd orders only)
    for c in (cf, cg):
        if c.shape[0] % 2 == 0:
            c[0] = 0
    f, g, a, b = make(cf, dom), make(cg, dom), case["a"], case["b"]
    x = xpts(DENSE, dom)
    n = max(cf.shape[0], cg.shape[0])
    s = abs(a) * sup(cf) + abs(b) * sup(cg)
    L = dom[1] - dom[0]
    loose = 4e-9 if "cplx" in (case["f"]["kind"], case["g"]["kind"]) else 0.0
    h = a * f + b * g
    for name, op, scale in (("sum", np.sum, L), ("cumsum", np.cumsum, L), ("diff", np.diff, 8 * n / L), ("diff2", lambda u: np.diff(u, 2), 64 * n**2 / L**2)):
        u, v, w = op(f), op(g), op(h)
        if name == "sum":
            u, v, w = (np.asarray(t).reshape(1, m) for t in (u, v, w))
        else:
            u, v, w = (as2d(t(x), x.size, m) for t in (u, v, w))
        bad = relbad(w + 0j, a * u + b * v + 0j, (4e-14 * (2 + n) * (1 + max(abs(dom[0]), abs(dom[1])) / L) + loose) * scale * s + 1e-300)
        require(bad is None, "%s is not linear: %s", name, bad)
    return ["linear"] if cf.any() and cg.any() else []


num = st.integers(-24, 24).map(lambda v: v / 8)
KINDS = ("real", "real", "cplx", "mixed")
GROUPS = [
    Group("diff", st.fixed_dictionaries({
        "c": tspec(kinds=KINDS), "dom": domains, "t": points, "k": st.sampled_from([1, 1, 1, 2, 2, 3, 4, 5, 6]),
        "kw": st.sampled_from(["pos", "n", "default"]), "steps": st.booleans()}), check_diff, 6000, weight=2),
    Group("sum", st.fixed_dictionaries({"c": tspec(kinds=KINDS), "dom": domains}), check_sum, 3000),
    Group("cumsum", st.fixed_dictionaries({"c": tspec(kinds=KINDS), "dom": domains, "t": points}), check_cumsum, 5000, weight=2),
    Group("cumsum-k", st.fixed_dictionaries({"c": tspec(kinds=KINDS), "t": points, "k": st.integers(1, 4)}), check_repeated, 1500),
    Group("mean", st.fixed_dictionaries({
        "c": tspec(kinds=KINDS), "dom": domains, "j": st.integers(0, 4),
        "mean": st.sampled_from([1.0, 0.1, -0.5, 1e-3, -1e-5, 1e-7])}), check_mean, 1500),
    Group("linear", st.fixed_dictionaries({"f": tspec(kinds=KINDS), "g": tspec(kinds=KINDS), "dom": domains, "a": num, "b": num}), check_linear, 1500),
]
