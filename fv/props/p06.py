"""P06 calculus on Chebyshev functions is exact."""
import numpy as np
from numpy.polynomial import chebyshev as C
from hypothesis import strategies as st
from ..gens import aspec, rspec, arr, domains, points, xpts, DENSE, zof, cheb_at, cheb_tol, sup, as2d, relbad, EPS, LD, sizes
from ..harness import Group, require, fail

RULE = """Cases are Chebyshev coefficient arrays, an interval, derivative orders and points (or two arrays and two factors for
linearity). Non-trivial: the function is not identically zero and a derivative or integral of it was compared."""
ORACLE = "extended-precision coefficient formulas for derivative and integral; Gauss-Legendre quadrature; algebraic laws"


def make(c, dom):
    from funpy import Fun
    return Fun(coeffs=np.copy(c, order="F"), domain=list(dom), simplify=False)


def der(c):
    """Coefficients of the derivative, extended precision."""
    n = c.shape[0]
    if n == 1:
        return np.zeros((1, c.shape[1]), dtype=LD)
    d = np.zeros((n + 1, c.shape[1]), dtype=LD)
    for k in range(n - 1, 0, -1):
        d[k - 1] = d[k + 1] + 2 * k * c[k]
    d[0] /= 2
    return d[:n - 1] if n > 1 else d[:1]


def integ(c):
    """Coefficients of the integral vanishing at -1."""
    n, m = c.shape
    p = np.vstack((c.astype(LD), np.zeros((2, m), dtype=LD)))
    b = np.zeros((n + 1, m), dtype=LD)
    for r in range(1, n + 1):
        b[r] = ((2 * p[0] if r == 1 else p[r - 1]) - p[r + 1]) / (2 * r)
    b[0] = -sum(b[r] * (-1)**r for r in range(1, n + 1))
    return b


def definite(c):
    k = np.arange(c.shape[0])
    w = np.where(k % 2 == 0, LD(2) / (1 - LD(1) * k * k + (k == 1)), LD(0))
    return (w[:, None] * c.astype(LD)).sum(axis=0)


def snap(f):
    return np.copy(f.coeffs)


def check_diff(case):
    dom, k = case["dom"], case["k"]
    c = arr(case["c"])
    f = make(c, dom)
    before = snap(f)
    h = np.diff(f, k) if case["kw"] == "pos" else (np.diff(f, n=k) if k != 1 or case["kw"] == "n" else np.diff(f))
    require(np.array_equal(before, f.coeffs), "differentiation changed its argument")
    require(h.m == f.m and h.type == "cheb" and list(h.domain) == list(dom), "derivative has another shape, kind or interval")
    x = np.concatenate((xpts(DENSE, dom), xpts(case["t"], dom)))
    z = zof(x, dom)
    fac = (LD(2) / (LD(dom[1]) - LD(dom[0])))**k
    r = c.astype(LD)
    for _ in range(k):
        r = der(r)
    ref = cheb_at(r, z) * fac
    n = c.shape[0]
    # the function is chopped at rounding level (measured over its size) before it is differentiated
    s = sup(c)
    N = float(n)
    growth = np.prod([(N**2 - j**2) / (2 * j + 1.0) for j in range(min(k, n - 1))]) if n > 1 else 0.0
    tol = float(fac) * (cheb_tol(np.asarray(r, float), [-1, 1]) * (1 + max(abs(dom[0]), abs(dom[1])) / (dom[1] - dom[0]))
                        + 60 * EPS * s * growth * (1 + n))
    bad = relbad(as2d(h(x), x.size, f.m), ref.astype(float), tol + 1e-300)
    require(bad is None, "derivative of order %d: %s", k, bad)
    if k >= n:
        require(not np.any(h.coeffs), "derivative of order %d of a function of length %d is not zero", k, n)
    if k > 1 and case["steps"]:
        g = f
        for _ in range(k):
            g = np.diff(g)
        bad = relbad(as2d(g(x), x.size, f.m), ref.astype(float), 4 * tol + 1e-300)
        require(bad is None, "%d repeated derivatives: %s", k, bad)
    return ["order=%d" % min(k, 5), "n<=k" if n <= k else "n>k", "m=1" if f.m == 1 else "m>1"] if c.any() else []


def check_integral(case):
    dom = case["dom"]
    c = arr(case["c"])
    f = make(c, dom)
    m = f.m
    before = snap(f)
    F = np.cumsum(f)
    I = np.sum(f)
    require(np.array_equal(before, f.coeffs), "integration changed its argument")
    require(F.m == m and F.type == "cheb" and list(F.domain) == list(dom), "integral has another shape, kind or interval")
    half = (LD(dom[1]) - LD(dom[0])) / 2
    x = np.concatenate((xpts(DENSE, dom), xpts(case["t"], dom)))
    z = zof(x, dom)
    b = integ(c)
    ref = cheb_at(b, z) * half
    s = sup(c)
    cond = 1 + max(abs(dom[0]), abs(dom[1])) / (dom[1] - dom[0])
    tol = float(half) * (cheb_tol(np.asarray(b, float), [-1, 1]) * cond + 2e-14 * s * (2 + c.shape[0])) + 1e-300
    bad = relbad(as2d(F(x), x.size, m), ref.astype(float), tol)
    require(bad is None, "indefinite integral: %s", bad)
    left = np.abs(np.asarray(F(dom[0])).reshape(m))
    require(np.all(left <= float(half) * 100 * EPS * (2 + c.shape[0]) * s + 1e-300), "indefinite integral is %s at the left end", left)
    I = np.asarray(I, dtype=float)
    require(I.size == m, "definite integral has %d values for %d columns", I.size, m)
    d = definite(c) * half
    bad = relbad(I.reshape(m), d.astype(float), float(half) * 64 * EPS * (2 + c.shape[0]) * s + 1e-300)
    require(bad is None, "definite integral: %s", bad)
    # definite integral once more, by quadrature of evaluated values
    q, w = np.polynomial.legendre.leggauss(c.shape[0] // 2 + 2)
    v = as2d(f(np.clip(xpts(q, dom), *dom)), q.size, m)
    bad = relbad(I.reshape(m), float(half) * (w @ v), float(half) * (1e-12 * cond) * s * (2 + c.shape[0])**2 + 1e-300)
    require(bad is None, "definite integral against quadrature: %s", bad)
    # fundamental theorem
    bad = relbad(np.asarray(F(dom[1])).reshape(m), I.reshape(m), tol)
    require(bad is None, "integral at the right end against definite integral: %s", bad)
    if case["deep"]:
        g = np.diff(F)
        n = c.shape[0]
        tol2 = cheb_tol(c, dom) + 1e-14 * s * (3 + n)**3
        bad = relbad(as2d(g(x), x.size, m), cheb_at(c, z).astype(float), tol2 + 1e-300)
        require(bad is None, "derivative of the integral: %s", bad)
        dI = np.asarray(np.sum(np.diff(f)), dtype=float).reshape(m)
        ends = np.asarray(f(dom[1]) - f(dom[0]), dtype=float).reshape(m)
        bad = relbad(dI, ends, 1e-14 * s * (3 + n)**3 + 1e-300)
        require(bad is None, "integral of the derivative against end values: %s", bad)
    return ["m=1" if m == 1 else "m>1", "n=1" if c.shape[0] == 1 else "even" if c.shape[0] % 2 == 0 else "odd"] if c.any() else []


def check_linear(case):
    dom = case["dom"]
    cf, cg = arr(case["f"]), arr(case["g"])
    m = min(cf.shape[1], cg.shape[1])
    cf, cg = np.asfortranarray(cf[:, :m]), np.asfortranarray(cg[:, :m])
    f, g, a, b = make(cf, dom), make(cg, dom), case["a"], case["b"]
    x = xpts(DENSE, dom)
    n = max(cf.shape[0], cg.shape[0])
    s = abs(a) * sup(cf) + abs(b) * sup(cg)
    L = dom[1] - dom[0]
    cond = 1 + max(abs(dom[0]), abs(dom[1])) / L
    h = a * f + b * g
    for name, op, scale in (("sum", np.sum, L), ("cumsum", np.cumsum, L), ("diff", np.diff, n**2 / L), ("diff2", lambda u: np.diff(u, 2), n**4 / L**2)):
        u, v, w = op(f), op(g), op(h)
        if name == "sum":
            u, v, w = (np.asarray(t, float).reshape(1, m) for t in (u, v, w))
        else:
            u, v, w = (as2d(t(x), x.size, m) for t in (u, v, w))
        bad = relbad(w, a * u + b * v, 4e-14 * scale * s * cond * (2 + n)**2 + 1e-300)
        require(bad is None, "%s is not linear: %s", name, bad)
    return ["linear"] if cf.any() and cg.any() else []


num = st.integers(-24, 24).map(lambda v: v / 8)
GROUPS = [
    Group("diff", st.fixed_dictionaries({
        "c": aspec(n=st.one_of(sizes(40), sizes(12), st.just(150)), m=None), "dom": domains, "t": points, "k": st.sampled_from([1, 1, 1, 2, 2, 3, 4, 5, 6, 8]),
        "kw": st.sampled_from(["pos", "n", "default"]), "steps": st.booleans()}), check_diff, 9000, weight=2),
    Group("integral", st.fixed_dictionaries({
        "c": aspec(n=st.one_of(sizes(60), st.just(200))), "dom": domains, "t": points, "deep": st.booleans()}), check_integral, 7000, weight=2),
    Group("linear", st.fixed_dictionaries({"f": aspec(), "g": aspec(), "dom": domains, "a": num, "b": num}), check_linear, 2500),
]
