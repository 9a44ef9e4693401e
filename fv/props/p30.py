"""P30 Compositions, conversions, parts and special functions denote what they say."""
import numpy as np
from hypothesis import strategies as st
from ..gens import aspec, arr, tspec, tarr, domains, points, xpts, zof, cheb_at, trig_at, cheb_tol, trig_tol, sup, as2d, sizes, cols, seeds, EPS, PI
from ..harness import Group, require

RULE = """Cases are functions with several columns (Chebyshev or Fourier series, the latter real or complex), intervals, an outer function
of one or two arguments and a target type (compositions); sizes, scales and intervals of constant and random functions; functions on [0, 1]
and numbers of tiles (reflections); series for real, imaginary and conjugate parts, printed forms and coefficient plots. Non-trivial: the
function is not zero."""
MORE = 6                                             # quick runs: this many times the cases below
ORACLE = """the composition evaluated pointwise on exact values of the series; the stated bounds of constant and random functions; the tiling
formula; parts of the exact values of the series"""

ONE = {"exp": np.exp, "sin": np.sin, "cos": np.cos, "square": np.square, "tanh": np.tanh, "runge": lambda a: 1 / (2 + a * a), "poly": lambda a: a ** 3 - 2 * a + 1}
TWO = {"times": lambda a, b: a * b, "expdiff": lambda a, b: np.exp(a - b), "ratio": lambda a, b: a / (2 + b * b), "sum": lambda a, b: 2 * a + b - 1,
       "order": lambda a, b: a + 0 * b, "sinmul": lambda a, b: np.sin(a) * b}


def make(c, dom, trig=False):
    from funpy import Fun
    return Fun.from_coeffs(np.asfortranarray(c), c.shape[1], domain=list(dom), **({"type": "trig"} if trig else {}))


def near(h, x, ref, tol, what):
    got = as2d(h(x), len(x), ref.shape[1])
    bad = np.max(np.abs(got - ref).astype(float))
    require(bad <= tol, "%s is off by %.3g (size %.3g)", what, bad, float(np.abs(ref).max()))


def check_compose(case):
    from funpy.fun import compose
    dom, trig, to = case["dom"], case["trig"], case["to"]
    if trig:
        cf, cg = tarr(dict(case["tf"], kind="real")), tarr(dict(case["tg"], kind="real"))
        for c in (cf, cg):
            if c.shape[0] % 2 == 0:
                c[0] = 0
    else:
        cf, cg = arr(case["f"]), arr(case["g"])
    m = min(cf.shape[1], cg.shape[1])
    cf, cg = (np.asfortranarray(c[:, :m] / np.maximum(sup(c[:, :m]), 1e-30)) for c in (cf, cg))
    x = xpts(case["x"], dom)
    z = zof(x, dom)
    at = trig_at if trig else cheb_at
    F, G = at(cf, z).real, at(cg, z).real
    f, g = make(cf, dom, trig), make(cg, dom, trig)
    before = [f.coeffs.copy(), g.coeffs.copy()]
    if to == "trig" and not trig:
        to = None
    kw = {} if to is None else {"ftype": to}
    if case["op"] in ONE:
        op = ONE[case["op"]]
        h, ref = compose(f, op, **kw), op(F)
    else:
        op = TWO[case["op"]]
        h, ref = compose(f, op, g, **kw), op(F, G)
    require(np.array_equal(before[0], f.coeffs) and np.array_equal(before[1], g.coeffs), "composition changed its arguments")
    require(h.type == (to or f.type), "composition has type %s", h.type)
    require([float(v) for v in h.domain] == [float(v) for v in dom], "composition lives on %s", h.domain)
    require(h.m == m, "composition has %d columns", h.m)
    cond = 1 + max(abs(dom[0]), abs(dom[1])) / (dom[1] - dom[0])
    n = max(cf.shape[0], cg.shape[0])
    size = float(np.abs(ref).max()) + 1e-3
    near(h, x, ref, (5e-6 if trig else 2e-12 * cond * (4 + n)) * size, "composition with " + case["op"])
    return [case["op"], "m=1" if m == 1 else "m>1", f.type + ">" + h.type] if cf.any() else []


def check_special(case):
    import funpy
    n, m, dom, s, trig = case["n"], case["m"], case["dom"], case["scale"], case["trig"]
    kw = {"type": "trig"} if trig else {}
    x = xpts(case["x"], dom)
    for name, v in (("zeros", 0.0), ("ones", 1.0)):
        h = getattr(funpy, name)(m, domain=list(dom), **kw)
        require(np.array_equal(as2d(h(x), len(x), m), np.full((len(x), m), v)), "%s is not %g", name, v)
        require(h.m == m and h.istrig == trig and list(h.domain) == list(dom), "%s has %d columns of type %s", name, h.m, h.type)
    np.random.seed(case["seed"] % 2 ** 31)
    for name in ("random", "random_decay"):
        h = getattr(funpy, name)(n, m, domain=list(dom), scale=s)
        c = np.asarray(h.coeffs)
        require(c.shape == (n, m), "%s has coefficients of shape %s", name, c.shape)
        bound = s * np.ones(n) if name == "random" else s / (1.0 + np.arange(n)) ** 2
        require(np.all(np.abs(c) <= bound[:, None]), "%s: a coefficient exceeds its bound", name)
        if n * m >= 40:
            r = c / bound[:, None]
            require(r.min() < -0.25 and r.max() > 0.25, "%s: coefficients cover only [%.3g, %.3g] of their range", name, r.min(), r.max())
            require(len(np.unique(r)) > n * m // 2, "%s: coefficients repeat", name)
        z = zof(x, dom)
        near(h, x, cheb_at(c, z), float(np.max(cheb_tol(c, dom))) + 1e-14 * s, name)
    f = make(arr(case["f"]), dom) if not trig else make(tarr(dict(case["tf"])), dom, True)
    for name, v in (("zeros_like", 0.0), ("ones_like", 1.0)):
        h = getattr(np, name)(f)
        require(h.m == f.m and h.type == f.type and list(h.domain) == list(dom), "%s: another space", name)
        bad = np.abs(as2d(h(x), len(x), f.m) - v).max()
        require(bad <= 1e-13, "%s is off by %.3g", name, bad)
    return [("trig" if trig else "cheb"), "n=1" if n == 1 else "n>1", "m=1" if m == 1 else "m>1"]


def check_parts(case):
    dom = case["dom"]
    x = xpts(case["x"], dom)
    z = zof(x, dom)
    trig = case["trig"]
    if trig:
        c = tarr(case["tf"])
        if c.shape[0] % 2 == 0:
            c[0] = 0
        F, tol, real = trig_at(c, z), float(np.max(trig_tol(c, dom))), case["tf"]["kind"] == "real"
    else:
        c = arr(case["f"])
        F, tol, real = cheb_at(c, z), float(np.max(cheb_tol(c, dom))), True
    F = F.real if real else F
    if case["part"] == "repr":                       # printed forms of small and large functions
        c, F, tol = c * case["unit"], F * case["unit"], tol * case["unit"]
    f = make(c, dom, trig)
    before = f.coeffs.copy()
    big = float(sup(c).max())
    tol = tol + 1e-14 * big + (1e-9 * big if trig else 0)
    labels = {"trig" if trig else "cheb", "real" if real else "complex", "m=1" if c.shape[1] == 1 else "m>1", case["part"]}
    part = case["part"]
    if part == "real":
        near(np.real(f), x, F.real, tol, "real part")
    elif part == "imag":
        if trig:
            near(np.imag(f), x, F.imag + 0 * F.real, tol, "imaginary part")
    elif part == "conj":
        if trig:
            near(np.conj(f), x, np.conj(F), tol, "conjugate")
            near(np.conj(np.conj(f)), x, F, tol, "conjugate of the conjugate")
    elif part == "sum":
        if trig:
            h = np.real(f) + 1j * np.imag(f)
            near(h, x, F, 2 * tol, "real plus i imaginary part")
    elif part == "repr":
        if f.n * f.m <= 900:
            from funpy import Fun
            g = eval(repr(f), {"Fun": Fun, "array": np.array, "np": np})
            require(g.type == f.type and g.m == f.m and [float(v) for v in g.domain] == [float(v) for v in dom], "printed form has another type or interval")
            near(g, x, F, tol + 1e-14 * big * f.n + (1e-15 * f.n if big >= 1e-5 else 0), "printed form")      # (positional notation has 16 decimals)
    elif part == "plot":
        from funpy import fun as FF
        if trig:
            k, a = FF.plotcoeffs_trig(f)
            n = f.n
            ref = np.arange(n) - n // 2
            require(np.allclose(k, ref * 2 * PI_ / (dom[1] - dom[0]), rtol=1e-13, atol=0), "wave numbers of the coefficients")
        else:
            k, a = FF.plotcoeffs_cheb(f)
            require(np.array_equal(k, np.arange(f.n)), "degrees of the coefficients")
        require(np.allclose(a, np.abs(f.coeffs), rtol=1e-14, atol=0) or not np.any(f.coeffs), "plotted coefficients")
    require(np.array_equal(before, f.coeffs), "%s changed the function", part)
    return sorted(labels) if c.any() else []


PI_ = float(np.pi)


def check_reflect(case):
    from funpy.support import Reflection
    c = arr(case["f"])
    f = make(c, [0, 1])
    n = case["tiles"]
    r = Reflection(f)
    x = np.array(sorted({round(v, 9) for v in case["pts"]} | {k / n for k in range(n + 1)}))
    got = as2d(r(x) if n == 1 and case["default"] else r(x, n), len(x), c.shape[1])
    t = n * x
    k = np.minimum(np.floor(t), n - 1)
    u = t - k
    if n > 1:
        u = np.where(k % 2 == 0, 1 - u, u)          # the first tile is mirrored
    u = np.clip(u, 0, 1)
    ref = cheb_at(c, 2 * u - 1)
    slope = float(np.max(np.sum(np.abs(c) * (np.arange(c.shape[0]) ** 2)[:, None], axis=0))) * n
    bad = np.max(np.abs(got - ref).astype(float))
    require(bad <= float(np.max(cheb_tol(c))) + 64 * EPS * (slope + float(sup(c).max())), "reflection with %d tiles is off by %.3g", n, bad)
    return ["tiles%d" % min(n, 4), "m=1" if c.shape[1] == 1 else "m>1"] if c.any() else []


DOM = domains
X = points
SPEC = dict(f=aspec(n=sizes(40), m=cols), tf=tspec(n=sizes(20), m=cols))
comp = st.fixed_dictionaries({"f": aspec(n=sizes(30), m=cols), "g": aspec(n=sizes(30), m=cols), "tf": tspec(n=sizes(12), m=cols), "tg": tspec(n=sizes(12), m=cols),
                              "dom": DOM, "trig": st.booleans(), "to": st.sampled_from([None, None, "trig", "cheb"]), "x": X,
                              "op": st.sampled_from(sorted(ONE) + sorted(TWO))})
special = st.fixed_dictionaries({"n": sizes(60), "m": cols, "dom": DOM, "scale": st.sampled_from([1.0, 0.01, 5.0, 1e3]), "trig": st.booleans(), "x": X, "seed": seeds, **SPEC})
parts = st.fixed_dictionaries({"dom": DOM, "trig": st.booleans(), "x": X, "part": st.sampled_from(["real", "imag", "conj", "sum", "repr", "plot"]), "unit": st.sampled_from([1.0, 1.0, 1e-12, 1e-6, 1e7]), **SPEC})
reflect = st.fixed_dictionaries({"f": aspec(n=sizes(30), m=cols), "tiles": st.integers(1, 9), "default": st.booleans(),
                                 "pts": st.lists(st.floats(0, 1, allow_nan=False), min_size=1, max_size=30)})

GROUPS = [
    Group("compose", comp, check_compose, quick=250, thorough=8000, weight=2),
    Group("special", special, check_special, quick=150, thorough=5000),
    Group("parts", parts, check_parts, quick=1200, thorough=10000),
    Group("reflect", reflect, check_reflect, quick=150, thorough=5000),
]
