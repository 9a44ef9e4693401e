"""P03 evaluation equals the defining series."""
MORE = 2                                             # quick runs: this many times the cases below
ORACLE = "the defining Chebyshev/Fourier series summed in extended precision"
RULE = """Cases are coefficient arrays, intervals and evaluation points. A case is non-trivial when the series is not constant
or the point set holds more than one point and values were compared with the extended-precision series."""
import numpy as np
from hypothesis import strategies as st
from ..gens import (aspec, rspec, arr, sizes, cols, domains, points, tspec, tarr, cheb_at, trig_at, relbad, EPS, seeds, zof, LD,
                    xpts, cheb_tol, trig_tol, as2d)
from ..harness import Group, require, fail


def lab(n, m, extra=()):
    return ["n=1" if n == 1 else "n=2" if n == 2 else "even" if n % 2 == 0 else "odd",
            "m=1" if m == 1 else "m>1"] + list(extra)


def make(case):
    from funpy import Fun
    dom = case["dom"]
    d = np.asarray(dom) if case["arrdom"] else list(dom)
    if case["type"] == "cheb":
        c = arr(case["c"])
    else:
        c = tarr(case["c"])
        if case["c"].get("mix") and c.shape[1] > 1:          # one real, one complex column
            c2 = tarr(dict(case["c"], kind="real", seed=case["c"]["seed"] ^ 1))
            c[:, 0] = c2[:, 0]
    f = Fun(coeffs=c.copy(order="F"), domain=d, type=case["type"], simplify=False)
    return f, c


def ref(case, c, z):
    return cheb_at(c, z) if case["type"] == "cheb" else trig_at(c, z)


def tolf(case, c):
    return cheb_tol(c, case["dom"]) if case["type"] == "cheb" else trig_tol(c, case["dom"])


def check_eval(case):
    f, c = make(case)
    n, m = c.shape
    dom = case["dom"]
    x = xpts(case["t"], dom)
    keep = x.copy()
    got = np.asarray(f(x))
    require(np.array_equal(x, keep), "evaluation changed its argument")
    exp_shape = tuple(s for s in (x.size, m) if s != 1)
    require(got.shape == exp_shape, "evaluation at %d points of %d columns has shape %s", x.size, m, got.shape)
    want = ref(case, c, zof(x, dom))
    tol = tolf(case, c)
    bad = relbad(as2d(got, x.size, m) + 0j, want + 0j, tol)
    require(bad is None, "value differs from the series: %s", bad)
    require(np.array_equal(f.coeffs, c), "evaluation changed the function")
    # one point at a time, as plain numbers
    for i in range(min(3, x.size)):
        one = np.asarray(f(float(x[i])))
        require(one.shape == ((m,) if m > 1 else ()), "scalar evaluation of %d columns has shape %s", m, one.shape)
        bad = relbad(one.reshape(1, m) + 0j, want[i:i + 1] + 0j, tol)
        require(bad is None, "scalar evaluation differs from the series: %s", bad)
    # both end points
    for e in (0, 1):
        one = np.asarray(f(dom[e])).reshape(1, m)
        bad = relbad(one + 0j, ref(case, c, np.array([-1.0 if e == 0 else 1.0])) + 0j, tol)
        require(bad is None, "end point value differs from the series: %s", bad)
    return lab(n, m, [case["type"], "npts=1" if x.size == 1 else "npts>1"]) if n > 1 else []


def check_ends(case):
    """lval/rval, the barycentric evaluation matrix, and evaluation on the sample grid (Chebyshev)."""
    f, c = make(case)
    n, m = c.shape
    tol = cheb_tol(c, (-1.0, 1.0))
    for name, z in (("lval", -1.0), ("rval", 1.0)):
        bad = relbad(np.asarray(getattr(f, name)()).reshape(1, m), cheb_at(c, [z]), tol)
        require(bad is None, "%s differs from the series at %g: %s", name, z, bad)
    require(np.array_equal(f.coeffs, c), "lval/rval changed the function")
    v = np.asarray(f.values)
    bad = relbad(as2d(f(f.x), n, m), v, cheb_tol(c, case["dom"]))
    require(bad is None, "evaluation at the sample points differs from the samples: %s", bad)
    # barymat at points of [-1, 1], including sample points
    y = np.asarray(case["t"], dtype=float)
    gx = np.asarray(f.onefun.x, dtype=float)
    pick = gx[[k % n for k in case["idx"]]]
    y = np.concatenate((y, pick))
    B = np.asarray(f.eval(y))
    require(B.shape == (y.size, n), "evaluation matrix has shape %s", B.shape)
    mag = np.max(np.abs(v), axis=0)
    # the barycentric formula is stable with a Lebesgue-constant factor
    bt = cheb_tol(c) + 200 * EPS * mag * (2 + np.log(n + 1)) * max(1, n)
    bad = relbad(B @ v, cheb_at(c, y), bt)
    require(bad is None, "barycentric evaluation differs from the series: %s", bad)
    return lab(n, m) if n > 1 else []


def check_detail(case):
    """The evaluation kernels on plain arrays."""
    from funpy.cheb.detail import clenshaw
    c = arr(case["c"])
    n, m = c.shape
    t = np.asarray(case["t"], dtype=float)
    keep, tk = c.copy(), t.copy()
    got = np.asarray(clenshaw(t, c))
    require(np.array_equal(c, keep) and np.array_equal(t, tk), "evaluation changed its arguments")
    require(got.shape == (t.size, m), "clenshaw shape %s", got.shape)
    bad = relbad(got, cheb_at(c, t), cheb_tol(c))
    require(bad is None, "clenshaw differs from the series: %s", bad)
    if m == 1:
        got = np.asarray(clenshaw(t, np.ascontiguousarray(c[:, 0])))
        bad = relbad(got.reshape(-1, 1), cheb_at(c, t), cheb_tol(c))
        require(bad is None, "clenshaw on a vector differs from the series: %s", bad)
    return lab(n, m) if n > 1 else []


def check_period(case):
    f, c = make(case)
    n, m = c.shape
    z = np.asarray(case["t"], dtype=float)
    k = case["k"]
    got = as2d(f.onefun(z + 2 * k), z.size, m)
    want = trig_at(c, zof(z, (-1.0, 1.0)))
    bad = relbad(got + 0j, want, trig_tol(c) * (1 + abs(k)))
    require(bad is None, "not periodic: %s", bad)
    e0, e1 = (np.asarray(f(case["dom"][i])).reshape(1, m) for i in (0, 1))
    bad = relbad(e0 + 0j, e1 + 0j, 2 * trig_tol(c, case["dom"]))
    require(bad is None, "values at the two ends of the interval differ: %s", bad)
    return lab(n, m, [case["c"]["kind"]]) if n > 1 else []


def check_outside(case):
    f, c = make(case)
    a, b = case["dom"]
    L = b - a
    x = [b + L * case["off"]] if case["right"] else [a - L * case["off"]]
    if case["with_inside"]:
        x = [0.5 * (a + b)] + x
    try:
        f(np.asarray(x) if case["with_inside"] else x[0])
    except Exception:
        return ["refused"]
    fail("evaluation at %r outside [%r, %r] was not refused" % (x, a, b))


base = {"dom": domains, "arrdom": st.booleans(), "t": points}
tmix = st.tuples(tspec(sizes(40, big=150)), st.booleans()).map(lambda t: dict(t[0], mix=t[1]))
either = st.one_of(st.fixed_dictionaries(dict(base, type=st.just("cheb"), c=aspec(sizes(60, big=400)))),
                   st.fixed_dictionaries(dict(base, type=st.just("trig"), c=tmix)))
GROUPS = [
    Group("eval_cheb", st.fixed_dictionaries(dict(base, type=st.just("cheb"), c=aspec(sizes(60, big=400)))), check_eval, 2500),
    Group("eval_trig", st.fixed_dictionaries(dict(base, type=st.just("trig"), c=tmix)), check_eval, 3000),
    Group("ends_bary", st.fixed_dictionaries(dict(base, type=st.just("cheb"), c=aspec(sizes(60)),
                                                  idx=st.lists(st.integers(0, 100), max_size=3))), check_ends, 1500),
    Group("kernel", st.fixed_dictionaries({"c": aspec(sizes(60, big=600)), "t": points}), check_detail, 1500),
    Group("periodic", st.fixed_dictionaries(dict(base, type=st.just("trig"), c=tmix, k=st.integers(-5, 5))), check_period, 1000),
    Group("outside", st.fixed_dictionaries(dict(base, type=st.sampled_from(["cheb", "trig"]), c=tspec(), off=st.sampled_from([1e-6, 1e-3, 0.5, 3.0]),
                                                right=st.booleans(), with_inside=st.booleans())).map(
        lambda d: d if d["type"] == "trig" else dict(d, c={"n": d["c"]["n"], "m": d["c"]["m"], "env": "flat", "seed": d["c"]["seed"],
                                                          "rho": 0.5, "scale": 1.0})), check_outside, 400),
]
