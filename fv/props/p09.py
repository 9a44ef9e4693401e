"""P09 root finding is sound and complete."""
import numpy as np
from hypothesis import strategies as st
from ..gens import aspec, rspec, arr, domains, zof, xpts, DENSE, cheb_at, sup, as2d, relbad, EPS, LD, seeds, sizes
from ..harness import Group, require, fail
from .p06 import der

RULE = """Cases are coefficient arrays, prescribed root sets with a positive factor, oscillating functions with known
roots, or sign-definite functions, with intervals. Non-trivial: at least one root was required or reported, or the
function was constructed to have none."""
ORACLE = "extended-precision values at the reported roots; sign changes on a fine grid; prescribed root sets"
SPLIT = -0.004849834917525


def make(c, dom):
    from funpy import Fun
    return Fun(coeffs=np.copy(c, order="F"), domain=list(dom), simplify=False)


def columns(f):
    """Reported roots per column."""
    import funpy
    r = funpy.roots(f)
    if f.m == 1:
        out = [np.asarray(r)]
    else:
        r = np.asarray(r, dtype=object)
        require(r.shape == (f.m,), "roots of %d columns have shape %s", f.m, r.shape)
        out = [np.asarray(v) for v in r]
    for v in out:
        require(v.ndim == 1 and not np.iscomplexobj(v), "roots are an array of shape %s, type %s", v.shape, v.dtype)
    return [v.astype(float) for v in out]


def order(r, dom, where):
    a, b = dom
    slack = 4 * EPS * max(abs(a), abs(b))
    require(np.all((r >= a - slack) & (r <= b + slack)), "%s: roots %s are outside [%r, %r]", where, r[(r < a) | (r > b)], a, b)
    require(np.all(np.diff(r) >= 0), "%s: roots are not in increasing order: %s", where, r)


def sound(c, r, dom, where):
    """The function vanishes at the roots to rounding accuracy."""
    if r.size == 0:
        return
    z = np.clip(zof(r, dom), -1, 1)
    n = c.shape[0]
    v = np.abs(cheb_at(c, z)).astype(float).ravel()
    s = float(sup(c)[0])
    cond = 1 + max(abs(dom[0]), abs(dom[1])) / (dom[1] - dom[0])
    slope = np.abs(cheb_at(der(c), z)).astype(float).ravel()
    tol = s * 1e-11 + slope * (1e-12 + 8 * EPS * cond) + 1e-300
    bad = ~(v <= tol)
    dup = (np.diff(r) == 0) & (slope[1:] > 1e-5 * s)
    require(not dup.any(), "%s: simple roots %s are reported more than once", where, r[1:][dup])
    require(not bad.any(), "%s: the function (size %.3g, degree %d) is %s at reported roots %s", where, s, n - 1, v[bad][:3], r[bad][:3])


def complete(c, r, dom, where):
    """Between grid points where the function has clearly different signs there is a reported root."""
    n = c.shape[0]
    N = 8 * n + 16
    z = -np.cos(np.arccos(LD(-1)) * np.arange(N + 1, dtype=LD) / N)
    v = cheb_at(c, z).astype(float).ravel()
    s = float(sup(c)[0])
    clear = np.abs(v) > 1e-9 * s
    zi, vi = z[clear], v[clear]
    ch = np.where(np.sign(vi[1:]) != np.sign(vi[:-1]))[0]
    zr = zof(r, dom)
    for i in ch:
        ok = np.any((zr >= zi[i] - 1e-12) & (zr <= zi[i + 1] + 1e-12))
        require(ok, "%s: no root reported between relative positions %r and %r, where the function changes sign (%.3g, %.3g; size %.3g)", where, float(zi[i]), float(zi[i + 1]), vi[i], vi[i + 1], s)
    return len(ch)


def check_random(case):
    dom = case["dom"]
    c = arr(case["c"])
    if case["shift"] is not None:          # subtract a value taken inside: there is at least one root
        z0 = case["shift"]
        c[0] -= cheb_at(c, [z0])[0].astype(float)
    f = make(c, dom)
    x = xpts(DENSE, dom)
    before = as2d(f(x), x.size, f.m)
    out = columns(f)
    found = need = 0
    for j, r in enumerate(out):
        where = "column %d of %d" % (j, f.m)
        order(r, dom, where)
        if not c[:, j].any():
            continue
        cj = c[:, j:j + 1]
        sound(cj, r, dom, where)
        need += complete(cj, r, dom, where)
        found += r.size
        require(r.size < c.shape[0], "%s: %d roots of a polynomial of degree %d", where, r.size, c.shape[0] - 1)
    bad = relbad(as2d(f(x), x.size, f.m), before, 1e-12 * sup(c) * c.shape[0] + 1e-300)
    require(bad is None, "root finding changed the function: %s", bad)
    return ["n>513" if c.shape[0] > 513 else "n>50" if c.shape[0] > 50 else "n<=50", "m=1" if f.m == 1 else "m>1"] if found or need else []


def chebprod(roots, fac):
    """Chebyshev coefficients of fac * prod (z - r): interpolation in extended precision."""
    n = len(roots) + len(fac)
    N = max(n - 1, 1)
    th = np.arccos(LD(-1)) * np.arange(N + 1, dtype=LD) / N
    z = np.cos(th)
    v = cheb_at(np.asarray(fac, dtype=LD)[:, None], z)[:, 0]
    for r in roots:
        v = v * (z - LD(float(r))) * 2
    v = v / np.max(np.abs(v))
    w = np.ones(N + 1, dtype=LD)
    w[0] = w[-1] = LD(0.5)
    c = np.array([2 * np.sum(w * v * np.cos(k * th)) / N for k in range(N + 1)], dtype=LD)
    c[0] /= 2
    c[-1] /= 2
    return c[:n]


def check_planted(case):
    dom = case["dom"]
    rng = np.random.default_rng(case["seed"])
    d = case["d"]
    # well separated in the angle: jittered Chebyshev-distributed positions, some replaced
    th = (np.arange(d) + 0.5 + 0.3 * rng.uniform(-1, 1, d)) * np.pi / d
    keep = rng.uniform(size=d) < case["keep"]
    z = np.sort(np.cos(th[keep]))
    if z.size:
        if case["left"]:
            z[0] = -1.0
        if case["right"]:
            z[-1] = 1.0
        z = np.unique(z)
    fac = np.zeros(case["q"] + 1)
    fac[0] = 1.0
    if case["q"]:
        g = rng.uniform(-1, 1, case["q"])
        fac[1:] = 0.5 * g / np.sum(np.abs(g))
    c = chebprod(z, fac * (-1 if case["neg"] else 1)).astype(float)[:, None]
    s = float(sup(c)[0])
    slope = np.abs(cheb_at(der(c), z)).astype(float).ravel() if z.size else np.zeros(0)
    err = 1e-12 * s * (4 + c.size) / np.maximum(slope, 1e-300)     # how far rounding the coefficients may move a root
    if z.size and (err.max() > 1e-7 or np.min(np.diff(z), initial=1) < 100 * err.max()):
        return []
    # a root at an end survives rounding only if it is well conditioned
    strict = np.ones(z.size, dtype=bool)
    for i in (0, z.size - 1):
        if z.size and 1 - abs(z[i]) < 10 * err[i]:
            strict[i] = 1e-15 * s * (4 + c.size) / slope[i] < 2e-15
    f = make(np.asfortranarray(c), dom)
    r, = columns(f)
    order(r, dom, "planted")
    x = np.array(xpts(z, dom))
    tol = err * (dom[1] - dom[0]) / 2 + 1e-12 * (dom[1] - dom[0]) + 8 * EPS * max(abs(dom[0]), abs(dom[1]))
    for i in range(z.size):
        if strict[i]:
            require(r.size and np.min(np.abs(r - x[i])) <= tol[i], "the root at %r (relative position %r) is not among %s", x[i], float(z[i]), r)
    for v in r:
        require(z.size and np.any(np.abs(v - x) <= tol), "reported root %r is none of the %d roots of the function", v, z.size)
    require(r.size <= z.size and r.size >= strict.sum(), "%d roots reported, the function has %d", r.size, z.size)
    return ["left" if case["left"] else "inner", "right" if case["right"] else "inner", "n>50" if c.size > 50 else "n<=50"] if z.size or True else []


def check_wave(case):
    """Adaptively built oscillating functions with known roots, one of them placed."""
    from funpy import Fun
    dom, w = case["dom"], case["w"]
    a, b = dom
    z0 = SPLIT if case["z0"] == "split" else case["z0"]
    x0 = 0.5 * (b * (1 + z0) + a * (1 - z0)) if abs(z0) < 1 else (a if z0 == -1 else b)
    W = 2 * w / (b - a)
    h = case["amp"]
    f = Fun(op=lambda x: (1 + h * x * x) * np.sin(W * (x - x0)), domain=list(dom))
    require(f.ishappy, "sin with %g wave lengths is not resolved", w / np.pi)
    r, = columns(f)
    order(r, dom, "wave")
    k = np.arange(-int(2 * w / np.pi) - 3, int(2 * w / np.pi) + 4)
    ex = x0 + k * np.pi / W
    tol = 1e-10 * (b - a) + 16 * EPS * max(abs(a), abs(b))
    inside = ex[(ex >= a + tol) & (ex <= b - tol)]
    maybe = ex[(ex >= a - tol) & (ex <= b + tol)]
    if z0 in (-1.0, 1.0) and h == 0 and max(abs(a), abs(b)) <= 4 * (b - a):
        inside = np.sort(np.append(inside, x0))          # a clean root at an end is found as well
    for v in inside:
        require(r.size and np.min(np.abs(r - v)) <= tol, "the root at %r of a wave is not reported (%d of %d roots)", v, r.size, inside.size)
    for v in r:
        require(np.min(np.abs(maybe - v), initial=np.inf) <= tol, "reported root %r is no root of the wave", v)
    require(inside.size <= r.size <= maybe.size, "%d roots reported, the wave has %d", r.size, maybe.size)
    return ["n>513" if f.n > 513 else "n>50" if f.n > 50 else "n<=50", "end" if abs(z0) == 1 else "split" if case["z0"] == "split" else "inner"]


def check_none(case):
    dom = case["dom"]
    c = arr(case["c"])
    s = sup(c)
    c[0] = 0
    c[0] = np.where(np.arange(c.shape[1]) % 2 == 0, 1, -1) * (1.0 + case["margin"]) * sup(c) + np.where(sup(c) == 0, 1.0, 0)
    f = make(c, dom)
    for j, r in enumerate(columns(f)):
        require(r.size == 0, "roots %s of column %d, which keeps one sign (degree %d)", r, j, c.shape[0] - 1)
    return ["n>50" if c.shape[0] > 50 else "n<=50", "m=1" if f.m == 1 else "m>1"]


NS = st.one_of(sizes(20), sizes(60), st.integers(45, 60), st.integers(50, 140))
BIG = st.one_of(st.integers(200, 520), st.sampled_from([512, 513, 514, 515, 600]))
OK_ENVS = ["flat", "geo", "geo", "alg", "even", "odd", "int", "gap", "tailtiny", "onehot"]
GROUPS = [
    Group("random", st.fixed_dictionaries({
        "c": aspec(n=NS, envs=OK_ENVS), "dom": domains, "shift": st.one_of(st.none(), st.floats(-0.99, 0.99), st.floats(-0.99, 0.99))}), check_random, 2500, weight=2),
    Group("random-big", st.fixed_dictionaries({
        "c": rspec(n=BIG, m=st.sampled_from([1, 1, 2]), envs=["flat", "alg", "even", "odd"]), "dom": domains, "shift": st.none()}), check_random, 48, weight=1.5),
    Group("planted", st.fixed_dictionaries({
        "d": st.one_of(st.integers(1, 12), st.integers(1, 30), st.integers(30, 70)), "keep": st.sampled_from([0.2, 0.6, 1.0]), "seed": seeds, "dom": domains,
        "left": st.booleans(), "right": st.booleans(), "q": st.sampled_from([0, 0, 1, 3, 12]), "neg": st.booleans()}), check_planted, 2500, weight=2),
    Group("wave", st.fixed_dictionaries({
        "dom": domains, "w": st.one_of(st.integers(1, 60), st.integers(60, 400)).map(lambda v: v / 2 + 0.13),
        "z0": st.one_of(st.just("split"), st.sampled_from([-1.0, 1.0, 0.0]), st.floats(-0.98, 0.98)), "amp": st.sampled_from([0, 0, 0.01, 0.3])}), check_wave, 700, weight=2),
    Group("none", st.fixed_dictionaries({"c": aspec(n=NS), "dom": domains, "margin": st.sampled_from([0.01, 0.2, 2.0])}), check_none, 800),
]
