"""P18 Chebyshev grids, weights and collocation matrices are exact."""
import numpy as np
from hypothesis import strategies as st
from ..gens import rspec, arr, domains, points, xpts, DENSE, zof, cheb_at, cheb_tol, sup, as2d, relbad, EPS, LD, PI, sizes
from ..harness import Group, require, fail
from .p06 import der, definite

RULE = """Cases are a number of points (0 and 1 included), the kind of points, an interval, polynomials (Chebyshev coefficient arrays of
every length up to the number of points), evaluation points and derivative orders. Non-trivial: at least two points and a
polynomial that is not identically zero were involved."""
MORE = 3                                             # quick runs: this many times the cases below
ORACLE = """the extended-precision formulas of the points; exact integrals, values and derivatives of the generated polynomials in
extended precision"""


def grid_ref(N, kind):
    k = np.arange(N).astype(LD)
    if N == 1:
        return np.zeros(1, dtype=LD)
    return -np.cos(PI * (2 * k + 1) / (2 * N)) if kind == 1 else -np.cos(PI * k / (N - 1))


def poly(spec, N):
    return arr(dict(spec, n=min(spec["n"], N)))


def ask(case, N, dom, kind):
    from funpy.cheb import chebpts, chebpts_type1, chebpts_type2
    how = case["how"]
    if how == "chebpts":
        return chebpts(N, dom, kind)
    if how == "kw":
        return chebpts(N, interval=np.array(dom), type=kind)
    fn = chebpts_type1 if kind == 1 else chebpts_type2
    if tuple(dom) == (-1.0, 1.0):
        return fn(N)
    return fn(N, interval=dom)


def check_grid(case):
    from funpy.cheb import barymat
    N, kind, dom = case["N"], case["kind"], case["dom"]
    got = ask(case, N, dom, kind)
    require(len(got) == 4, "%d arrays for a grid", len(got))
    x, w, v, t = got
    for a, what in ((x, "points"), (w, "quadrature weights"), (v, "barycentric weights"), (t, "angles")):
        require(isinstance(a, np.ndarray) and a.shape == (N,), "%d %s for %d points", np.size(a), what, N)
        require(np.all(np.isfinite(a)), "%s of %d points are not finite", what, N)
    if N == 0:
        return []
    a, b = LD(dom[0]), LD(dom[1])
    z = grid_ref(N, kind)
    ref = (a + b) / 2 + (b - a) / 2 * z
    lim = 8 * EPS * max(abs(dom[0]), abs(dom[1]), dom[1] - dom[0])
    require(np.max(np.abs(x - ref)) <= lim, "points of kind %d on %s are off by %.3g (N=%d)", kind, dom, np.max(np.abs(x - ref)), N)
    require(np.all(np.diff(x) > 0) and x[0] >= dom[0] - lim and x[-1] <= dom[1] + lim, "points are not increasing in the interval")
    L = dom[1] - dom[0]
    mid = (x - float(a + b) / 2)
    require(np.max(np.abs(mid + mid[::-1])) <= 2 * lim, "points are not symmetric")
    # angles of the points
    err = np.max(np.abs((a + b) / 2 + (b - a) / 2 * np.cos(t.astype(LD)) - ref))
    require(err <= lim, "cosines of the angles differ from the points by %.3g (kind %d, N=%d)", err, kind, N)
    require(t.min() >= 0 and t.max() <= np.pi + 1e-15, "angles leave [0, pi]")
    # quadrature: positive, exact on polynomials
    require(np.all(w > 0), "a quadrature weight is not positive (kind %d, N=%d)", kind, N)
    c = poly(case["c"], N)
    vals = cheb_at(c, z)
    I = definite(c) * (b - a) / 2
    tol = 1e-14 * (N + 3) * np.sum(np.abs(c), axis=0) * L + 1e-300
    bad = relbad((w.astype(LD)[None] @ vals), I[None], tol)
    require(bad is None, "quadrature of kind %d with %d points on %s is not exact for degree %d: %s", kind, N, dom, c.shape[0] - 1, bad)
    # barycentric interpolation, also at the points themselves
    y = np.concatenate((xpts(DENSE[::3], dom), xpts(case["t"], dom), x[[0, N // 2, N - 1]]))
    y = np.clip(y, dom[0], dom[1])
    y0, x0, v0 = y.copy(), x.copy(), v.copy()
    P = barymat(y, x, v)
    require(np.array_equal(y, y0) and np.array_equal(x, x0) and np.array_equal(v, v0), "interpolation changed its arguments")
    require(P.shape == (y.size, N), "interpolation matrix has shape %s", P.shape)
    cond = 1 + max(abs(dom[0]), abs(dom[1])) / L
    near = np.abs(y[:, None] - x[None]).min(axis=1)
    tol = 1e-13 * (N + 2) * np.sum(np.abs(c), axis=0)[None] + cheb_tol(c, dom)[None] + 64 * EPS * cond * np.sum(np.abs(c) * np.arange(c.shape[0])[:, None]**2, axis=0)[None]
    bad = relbad(P @ vals.astype(float), cheb_at(c, zof(y, dom)), np.broadcast_to(tol, (y.size, c.shape[1])) + 1e-300)
    require(bad is None, "interpolation from %d points of kind %d on %s (degree %d): %s", N, kind, dom, c.shape[0] - 1, bad)
    for i in (0, N // 2, N - 1):
        r = P[y.size - 3 + (0, N // 2, N - 1).index(i)]
        require(r[i] == 1 and np.count_nonzero(r) == 1, "interpolation at a grid point does not return the sample")
    # what the caller does with the arrays is its own business
    want = [q.copy() for q in got]
    for q in got:
        q[:] = 3
    again = ask(case, N, dom, kind)
    for q, r, what in zip(again, want, ("points", "quadrature weights", "barycentric weights", "angles")):
        require(np.array_equal(q, r), "%s returned later depend on what was done with those returned earlier", what)
    return ["kind=%d" % kind, "N even" if N % 2 == 0 else "N odd", "N=2" if N == 2 else "N>2", "std" if tuple(dom) == (-1.0, 1.0) else "dom"] if N > 1 and c.any() else []


def check_direct(case):
    """The separately available weights and the points of a function."""
    from funpy.cheb import quadwts, bary_weights, chebpts_type2
    from funpy import Fun
    N = case["N"]
    w = quadwts(N)
    require(w.shape == (N,), "%d weights for %d points", w.size, N)
    if N == 0:
        return []
    x2, w2, v2, _ = chebpts_type2(N)
    require(np.array_equal(w, w2), "weights differ from those of the grid")
    if N > 1:
        require(np.array_equal(bary_weights(N), v2), "barycentric weights differ from those of the grid")
    c = arr(case["c"])
    f = Fun(coeffs=np.copy(c, order="F"), domain=case["dom"], simplify=False)
    x = f.onefun.chebpts(N)
    require(x.shape == (N,) and np.array_equal(x, x2), "chebpts(%d) of a function of length %d gave %d points", N, c.shape[0], x.size)
    require(np.array_equal(f.onefun.chebpts(), chebpts_type2(c.shape[0])[0]), "chebpts() are not the points of the function")
    require(f.x.shape == (c.shape[0],), "%d points for a function of length %d", f.x.size, c.shape[0])
    lim = 16 * EPS * max(1, abs(case["dom"][0]), abs(case["dom"][1]))
    require(np.max(np.abs(f.x - chebpts_type2(c.shape[0], case["dom"])[0])) <= lim, "the points of a function are not those of its grid")
    E = f.onefun.eval(DENSE)
    bad = relbad(E @ f.values, cheb_at(c, DENSE), cheb_tol(c) + 1e-13 * c.shape[0] * np.sum(np.abs(c), axis=0))
    require(bad is None, "the evaluation operator of a function: %s", bad)
    q = quadwts(N)
    q[:] = 7
    require(np.array_equal(quadwts(N), w), "weights returned later depend on those returned earlier")
    return ["N=%s" % ("1" if N == 1 else ">1")] if N > 1 and c.any() else []


def dcoeffs(c, k):
    for _ in range(k):
        c = der(c)
    return c


def check_diffmat(case):
    from funpy.cheb import diffmat, chebpts_type2
    N, k, dom = case["N"], case["k"], case["dom"]
    x = chebpts_type2(N, dom)[0]
    x0 = x.copy()
    D = diffmat(x, k) if case["kw"] else (diffmat(x, k=k) if k != 1 else diffmat(x))
    require(np.array_equal(x, x0), "the points were changed")
    require(D.shape == (N, N), "differentiation matrix of %d points has shape %s", N, D.shape)
    c = poly(case["c"], N)
    z = grid_ref(N, 2)
    L = dom[1] - dom[0]
    s = (2.0 / L)**k
    vals = cheb_at(c, z).astype(float)
    ref = cheb_at(dcoeffs(c.astype(LD), k), z) * (LD(2) / LD(L))**k
    cond = 1 + max(abs(dom[0]), abs(dom[1])) / L
    tol = 2e-15 * (k + 1) * cond * max(N, 2)**(2 * k + 1) * s * np.sum(np.abs(c), axis=0) + 1e-300
    bad = relbad(D @ vals, ref.astype(float), tol)
    require(bad is None, "differentiation matrix of order %d on %d points of %s (degree %d): %s", k, N, dom, c.shape[0] - 1, bad)
    # constants are differentiated to zero
    if k:
        r = np.max(np.abs(D @ np.ones(N))) / (1 + np.max(np.abs(D)))
        require(r <= 1e-14 * N, "differentiation of a constant gives %.3g of the matrix size", r)
    return ["order=%d" % k, "N even" if N % 2 == 0 else "N odd"] if N > 1 and c.any() else []


def check_colloc(case):
    """A function given by its samples."""
    from funpy.colloc.chebcolloc.chebcolloc2 import chebcolloc2
    from funpy.cheb import chebpts_type1, chebpts_type2
    dom, k = case["dom"], case["k"]
    c = arr(case["c"])
    N, m = c.shape
    z = grid_ref(N, 2)
    V = cheb_at(c, z).astype(float)
    arg = V[:, 0] if m == 1 and case["flat"] else V
    f = chebcolloc2(values=arg, domain=dom)
    require(len(f) == N and f.m == m, "collocated function has length %d and %d columns", len(f), f.m)
    require(np.array_equal(f.x, chebpts_type2(N, dom)[0]), "collocation points differ from the grid")
    L = dom[1] - dom[0]
    cond = 1 + max(abs(dom[0]), abs(dom[1])) / L
    x = np.unique(np.clip(np.concatenate((xpts(DENSE[::2], dom), xpts(case["t"], dom))), dom[0], dom[1]))
    S = np.sum(np.abs(c), axis=0)
    tol = 1e-13 * (N + 2) * S + cheb_tol(c, dom) + 64 * EPS * cond * np.sum(np.abs(c) * np.arange(N)[:, None]**2, axis=0)
    ref = cheb_at(c, zof(x, dom))
    bad = relbad(as2d(f(x), x.size, m), ref, tol)
    require(bad is None, "value of a collocated function: %s", bad)
    bad = relbad(f.eval(x) @ V, ref, tol)
    require(bad is None, "evaluation functional: %s", bad)
    bad = relbad(as2d(f(float(x[0])), 1, m), ref[:1], tol)
    require(bad is None, "value at a single point: %s", bad)
    for out in (dom[0] - 0.1 * L, dom[1] + 0.1 * L):
        try:
            f.eval(np.array([x[0], out]))
        except AssertionError:
            continue
        fail("evaluation at %g outside of %s was not refused", out, dom)
    g = np.diff(f, n=k) if k != 1 else np.diff(f)
    require(np.array_equal(f.values, V), "differentiation changed the function")
    ref = cheb_at(dcoeffs(c.astype(LD), k), z) * (LD(2) / LD(L))**k
    lim = 2e-15 * (k + 1) * cond * max(N, 2)**(2 * k + 1) * (2.0 / L)**k * S + 1e-300
    bad = relbad(g.values, ref.astype(float), lim)
    require(bad is None, "derivative of order %d of a collocated function: %s", k, bad)
    require(np.array_equal(f.diffmat(k) @ V, g.values), "matrix and derivative differ")
    eq = f.equationPoints()
    require(np.array_equal(eq[0], chebpts_type1(N, dom)[0]), "equation points are not points of the first kind")
    for j in range(m):
        require(np.array_equal(f[j].values[:, 0], V[:, j]), "column %d differs", j)
    return ["m=1" if m == 1 else "m>1", "order=%d" % k] if N > 1 and c.any() else []


def check_functional(case):
    from funpy import Fun
    from funpy.functional import Functional
    dom = case["dom"]
    c = arr(case["f"])
    d = arr(dict(case["g"], m=c.shape[1]))
    n = max(c.shape[0] + d.shape[0] - 1, c.shape[0])
    f = Fun(coeffs=np.copy(c, order="F"), domain=dom, simplify=False)
    F = Functional(f, n=n + case["extra"])
    require(np.array_equal(f.coeffs, c), "making a functional changed the function")
    row = np.asarray(F)
    N = n + case["extra"]
    require(row.shape == (1, N * c.shape[1]), "functional has shape %s for %d coefficients", row.shape, N * c.shape[1])
    dd = np.vstack((d, np.zeros((N - d.shape[0], d.shape[1]))))
    got = float((row @ dd.flatten(order="F")).item())
    # exact integral of the products
    prod = np.zeros((N + 1, 1), dtype=LD)
    for j in range(c.shape[1]):
        a, b = c[:, j].astype(LD), d[:, j].astype(LD)
        for p in range(a.size):
            for q in range(b.size):
                prod[p + q, 0] += a[p] * b[q] / 2
                prod[abs(p - q), 0] += a[p] * b[q] / 2
    ref = float(definite(prod)[0]) * (dom[1] - dom[0]) / 2
    tol = 1e-14 * (N + 3) * np.sum(np.sum(np.abs(c), axis=0) * np.sum(np.abs(d), axis=0)) * (dom[1] - dom[0]) + 1e-300
    require(abs(got - ref) <= tol, "functional gives %.15g instead of the integral %.15g", got, ref)
    return ["m=1" if c.shape[1] == 1 else "m>1"] if c.any() and d.any() else []


N_ = st.one_of(sizes(40, lo=0), sizes(40, lo=0), sizes(12, lo=0), st.integers(100, 300))
GROUPS = [
    Group("grid", st.fixed_dictionaries({"N": N_, "kind": st.sampled_from([1, 2]), "dom": domains, "t": points, "c": rspec(n=sizes(60, big=300)),
                                         "how": st.sampled_from(["chebpts", "kw", "fn"])}), check_grid, 2500, weight=2),
    Group("direct", st.fixed_dictionaries({"N": N_, "c": rspec(), "dom": domains}), check_direct, 800),
    Group("diffmat", st.fixed_dictionaries({"N": sizes(50), "k": st.integers(0, 5), "dom": domains, "kw": st.booleans(),
                                            "c": rspec(n=sizes(50))}), check_diffmat, 2000),
    Group("colloc", st.fixed_dictionaries({"c": rspec(n=sizes(40)), "k": st.integers(0, 3), "dom": domains, "t": points, "flat": st.booleans()}), check_colloc, 1000),
    Group("functional", st.fixed_dictionaries({"f": rspec(n=sizes(24)), "g": rspec(n=sizes(24)), "dom": domains, "extra": st.integers(0, 5)}), check_functional, 600),
]
