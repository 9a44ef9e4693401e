"""P02 grid values <-> coefficients."""
MORE = 2                                             # quick runs: this many times the cases below
ORACLE = "the defining sums of the interpolant in extended precision, and round trips"
RULE = """Cases are sample/coefficient arrays (length, columns, decay, symmetry, memory order, real/complex) and intervals.
A case is non-trivial when its array is not identically zero."""
import numpy as np
from hypothesis import strategies as st
from ..gens import (aspec, rspec, arr, sizes, cols, domains, tspec, tarr, cheb_at, trig_at, relbad, EPS, seeds, zof, LD, freqs)
from ..harness import Group, require, fail

ORDERS = st.sampled_from(["F", "C", "strided", "rev"])


def lay(a, order):
    """The same array in another memory layout."""
    if order == "C":
        return np.ascontiguousarray(a)
    if order == "strided":
        big = np.zeros((2 * a.shape[0], a.shape[1] + 1), dtype=a.dtype)
        big[::2, 1:] = a
        return big[::2, 1:]
    if order == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    return np.asfortranarray(a)


def chebgrid(n):
    if n == 1:
        return np.array([0.0])
    j = np.arange(n)
    return np.asarray(-np.cos(LD("3.14159265358979323846264338327950288") * j / LD(n - 1)), dtype=LD)


def triggrid(n):
    return -1 + 2 * np.arange(n) / LD(n)


def vtol(v, n):
    return 40 * EPS * (np.max(np.abs(v), axis=0) * (3 + np.sqrt(n)) + 1e-290)


def ctol(c, n):
    return 40 * EPS * (np.sum(np.abs(c), axis=0) * (3 + np.sqrt(n)) + 1e-290)


def labels(n, m, extra=()):
    return ["n=1" if n == 1 else "n=2" if n == 2 else "even" if n % 2 == 0 else "odd",
            "m=1" if m == 1 else "m>1"] + list(extra)


def tilt(a, case, values):
    """Arrays of any size, symmetric (about the middle of the grid, or in the degree) up to a small part."""
    t = case["tilt"]
    if t:
        r = a[::-1] if values else a * (-1.0) ** np.arange(a.shape[0])[:, None]
        a = (a + np.sign(t) * r) / 2 + 10.0 ** -abs(t) * a
    return a * case["size"]


TILT = {"tilt": st.one_of(st.just(0), st.just(0), st.integers(-13, -3), st.integers(3, 13)), "size": st.sampled_from([1.0, 1.0, 1e-12, 1e12])}


def check_cheb_vals(case):
    from funpy.cheb import polyfit, polyval
    v = lay(tilt(arr(case["v"]), case, True), case["order"])
    n, m = v.shape
    keep = v.copy()
    c = polyfit(v)
    require(np.array_equal(v, keep), "polyfit changed its argument")
    require(c.shape == v.shape, "polyfit shape %s for %s", c.shape, v.shape)
    bad = relbad(cheb_at(c, chebgrid(n)), v, vtol(v, n))
    require(bad is None, "series of polyfit(v) does not interpolate v: %s", bad)
    ck = c.copy()
    w = polyval(c)
    require(np.array_equal(c, ck), "polyval changed its argument")
    bad = relbad(w, v, vtol(v, n))
    require(bad is None, "polyval(polyfit(v)) != v: %s", bad)
    w[...] = 1.0
    c[...] = 2.0
    require(np.array_equal(v, keep), "the results share memory with the argument")
    return labels(n, m, [case["order"]]) if n > 1 else []


def check_cheb_coeffs(case):
    from funpy.cheb import polyfit, polyval
    c = lay(tilt(arr(case["c"]), case, False), case["order"])
    n, m = c.shape
    keep = c.copy()
    v = polyval(c)
    require(np.array_equal(c, keep), "polyval changed its argument")
    bad = relbad(v, cheb_at(c, chebgrid(n)), ctol(c, n))
    require(bad is None, "polyval(c) is not the series at the grid: %s", bad)
    bad = relbad(polyfit(v), c, ctol(c, n))
    require(bad is None, "polyfit(polyval(c)) != c: %s", bad)
    return labels(n, m, [case["order"]]) if n > 1 else []


def tvals(s):
    n, m = s["n"], s["m"]
    rng = np.random.default_rng(s["seed"])
    v = rng.uniform(-1, 1, (n, m))
    if s["kind"] != "real":
        v = v + 1j * rng.uniform(-1, 1, (n, m))
    r = (-np.arange(n)) % n
    if s["sym"] == "herm":
        v = (v + np.conj(v[r])) / 2
    elif s["sym"] == "skew":
        v = (v - np.conj(v[r])) / 2
    elif s["sym"] == "mixed":
        v[:, ::2] = ((v + np.conj(v[r])) / 2)[:, ::2]
    elif s["sym"] in ("nearherm", "nearskew"):       # symmetric up to a small perturbation
        v = (v + (1 if s["sym"] == "nearherm" else -1) * np.conj(v[r])) / 2 + 10.0 ** -rng.integers(3, 14) * v
    elif s["sym"] == "point":
        v = v * (np.arange(n)[:, None] == rng.integers(0, n))
    return np.asfortranarray(v * s["scale"])


tv = st.fixed_dictionaries({"n": sizes(60, big=400), "m": cols, "kind": st.sampled_from(["real", "cplx"]), "seed": seeds,
                            "sym": st.sampled_from(["none", "none", "herm", "skew", "mixed", "point", "nearherm", "nearskew"]),
                            "scale": st.sampled_from([1.0, 1e-3, 50.0, 1e-12, 1e12])})


def check_trig_vals(case):
    from funpy.trig.transform import vals2coeffs, coeffs2vals
    v = lay(tvals(case["v"]), case["order"])
    n, m = v.shape
    keep = v.copy()
    c = vals2coeffs(v)
    require(np.array_equal(v, keep), "vals2coeffs changed its argument")
    require(c.shape == v.shape, "vals2coeffs shape %s for %s", c.shape, v.shape)
    bad = relbad(trig_at(c, triggrid(n)), v + 0j, vtol(v, n) * 2)
    require(bad is None, "series of vals2coeffs(v) does not interpolate v: %s", bad)
    ck = c.copy()
    w = coeffs2vals(c)
    require(np.array_equal(c, ck), "coeffs2vals changed its argument")
    bad = relbad(w + 0j, v + 0j, vtol(v, n))
    require(bad is None, "coeffs2vals(vals2coeffs(v)) != v: %s", bad)
    return labels(n, m, [case["v"]["kind"], case["v"]["sym"]]) if n > 1 else []


def check_trig_coeffs(case):
    from funpy.trig.transform import vals2coeffs, coeffs2vals
    c = lay(tarr(case["c"]) * case["size"], case["order"])
    n, m = c.shape
    keep = c.copy()
    v = coeffs2vals(c)
    require(np.array_equal(c, keep), "coeffs2vals changed its argument")
    bad = relbad(v + 0j, trig_at(c, triggrid(n)), ctol(c, n))
    require(bad is None, "coeffs2vals(c) is not the series at the grid: %s", bad)
    bad = relbad(vals2coeffs(v), c, ctol(c, n))
    require(bad is None, "vals2coeffs(coeffs2vals(c)) != c: %s", bad)
    return labels(n, m, [case["c"]["kind"], case["c"]["env"]]) if n > 1 else []


def check_fun(case):
    """Function objects built from values / coefficients hold exactly that data on the documented grid."""
    from funpy import Fun
    dom, typ, how = case["dom"], case["type"], case["how"]
    if typ == "cheb":
        data = arr(case["c"])
    else:
        data = tarr(dict(case["c"], kind="real" if how == "values" else case["c"]["kind"]))
        if how == "values":
            data = np.asfortranarray(trig_at(data, triggrid(data.shape[0])).real.astype(float))
    data = lay(data, case["order"])
    n, m = data.shape
    keep = data.copy()
    kw = dict(domain=dom)
    if how == "values":
        if case["via"]:
            f = Fun.from_values(data, m, type=typ, **kw)
        else:
            f = Fun(op=data, type=typ, simplify=False, **kw)
    else:
        if case["via"]:
            f = Fun.from_coeffs(data.flatten(order="F") if case["flat"] else data, m, type=typ, **kw)
        else:
            f = Fun(coeffs=data, type=typ, simplify=False, **kw)
    require(np.array_equal(data, keep), "construction changed the data handed in")
    require(f.type == typ and f.istrig == (typ == "trig"), "wrong representation %s", f.type)
    require(len(f) == n and f.shape == (n, m) and f.n == n and f.m == m, "wrong shape %s for data %s", f.shape, data.shape)
    grid = chebgrid(n) if typ == "cheb" else triggrid(n)
    at = cheb_at if typ == "cheb" else trig_at
    a, b = map(LD, dom)
    xs = np.atleast_1d(np.asarray(f.x, dtype=LD))
    bad = relbad(xs, (b * (grid + 1) + a * (1 - grid)) / 2, 16 * EPS * (abs(dom[0]) + abs(dom[1])))
    require(bad is None, "sample points are not the documented grid: %s", bad)
    tol = 2 * (ctol(data, n) if how == "coeffs" else vtol(data, n)) * (1 if how == "coeffs" else np.sqrt(n))
    if how == "coeffs":
        bad = relbad(f.coeffs + 0j, data + 0j, tol)
        require(bad is None, "coefficients differ from those given: %s", bad)
        bad = relbad(f.values + 0j, at(data, grid) + 0j, tol)
        require(bad is None, "values are not the series at the grid: %s", bad)
    else:
        bad = relbad(f.values + 0j, data + 0j, tol)
        require(bad is None, "values differ from those given: %s", bad)
        bad = relbad(at(f.coeffs, grid) + 0j, data + 0j, tol)
        require(bad is None, "coefficients do not interpolate the values: %s", bad)
    return labels(n, m, [typ + "-" + how]) if n > 1 else []


def check_plotdata(case):
    """The data for plots of the coefficients: degree or wave number, and modulus."""
    from funpy import Fun
    from funpy.fun import plotcoeffs_cheb, plotcoeffs_trig
    trig, dom = case["type"] == "trig", case["dom"]
    c = tarr(case["c"]) if trig else arr(case["c"])
    if not c.any():
        return []
    f = Fun(coeffs=np.copy(c, order="F"), domain=list(dom), type=case["type"], simplify=False)
    held = np.copy(f.coeffs)
    x, y = (plotcoeffs_trig if trig else plotcoeffs_cheb)(f)
    n = held.shape[0]
    ref = freqs(n) * 2 * np.pi / (dom[1] - dom[0]) if trig else np.arange(n)
    x, y = np.asarray(x), np.asarray(y)
    require(x.shape == (n,) and y.shape == held.shape, "data of shapes %r and %r to plot %r coefficients", x.shape, y.shape, held.shape)
    require(np.all(np.abs(x - ref) <= 1e-13 * (1 + np.abs(ref))), "%s to plot are %r instead of %r", "wave numbers" if trig else "degrees", x[:6], ref[:6])
    require(np.array_equal(y, np.abs(held)), "moduli to plot differ from those of the coefficients")
    require(np.array_equal(f.coeffs, held), "computing the data to plot changed the function")
    return [case["type"], "even" if n % 2 == 0 else "odd"]


GROUPS = [
    Group("cheb_vals", st.fixed_dictionaries({"v": aspec(sizes(60, big=500)), "order": ORDERS, **TILT}), check_cheb_vals, 1200),
    Group("cheb_coeffs", st.fixed_dictionaries({"c": aspec(sizes(60, big=500)), "order": ORDERS, **TILT}), check_cheb_coeffs, 1000),
    Group("trig_vals", st.fixed_dictionaries({"v": tv, "order": ORDERS}), check_trig_vals, 1000),
    Group("trig_coeffs", st.fixed_dictionaries({"c": tspec(sizes(60, big=300)), "order": ORDERS, "size": TILT["size"]}), check_trig_coeffs, 1000),
    Group("fun", st.one_of(
        st.fixed_dictionaries({"type": st.just("cheb"), "c": rspec(), "dom": domains, "how": st.sampled_from(["values", "coeffs"]),
                               "via": st.booleans(), "order": ORDERS, "flat": st.booleans()}),
        st.fixed_dictionaries({"type": st.just("trig"), "c": tspec(), "dom": domains, "how": st.sampled_from(["values", "coeffs"]),
                               "via": st.booleans(), "order": ORDERS, "flat": st.booleans()})), check_fun, 1500),
    Group("plotdata", st.one_of(st.fixed_dictionaries({"type": st.just("cheb"), "c": rspec(), "dom": domains}),
                                st.fixed_dictionaries({"type": st.just("trig"), "c": tspec(), "dom": domains})), check_plotdata, 150),
]
