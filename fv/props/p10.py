"""P10 global minima and maxima are found with their locations."""
import numpy as np
from hypothesis import strategies as st
from ..gens import aspec, rspec, arr, tspec, tarr, domains, zof, xpts, cheb_at, trig_at, trig_tol, cheb_tol, sup, as2d, EPS, LD, seeds, sizes
from ..harness import Group, require
from .p06 import der

RULE = """Cases are Chebyshev coefficient arrays, real Fourier coefficient arrays and products of waves with prescribed extrema, with
intervals and column counts. Non-trivial: the function is not constant."""
MORE = 2                                             # quick runs: this many times the cases below
ORACLE = "extended-precision values on a fine grid with local refinement, and at the reported locations"


def make(c, dom, kind):
    from funpy import Fun
    return Fun(coeffs=np.copy(c, order="F"), domain=list(dom), simplify=False, **({"type": "trig"} if kind == "trig" else {}))


def extrema(at, n, m):
    """Smallest and largest values on a fine grid, refined around the best grid points."""
    N = 16 * n + 32
    z = np.unique(np.concatenate([-np.cos(np.arccos(LD(-1)) * np.arange(N + 1, dtype=LD) / N), np.linspace(LD(-1), LD(1), N)]))
    lo, hi = np.empty(m), np.empty(m)
    v = at(z)
    for j in range(m):
        for sign, out in ((1, lo), (-1, hi)):
            w = sign * v[:, j]
            best = np.inf
            loc = np.where((np.append(w[1:], np.inf) >= w) & (np.insert(w[:-1], 0, np.inf) >= w))[0]
            for i in loc[np.argsort(w[loc], kind="stable")][:6]:
                a, b = z[max(i - 1, 0)], z[min(i + 1, z.size - 1)]
                for _ in range(6):
                    t = np.linspace(a, b, 21)
                    u = sign * at(t)[:, j]
                    q = int(np.argmin(u))
                    best = min(best, float(u[q]))
                    a, b = t[max(q - 1, 0)], t[min(q + 1, 20)]
            out[j] = sign * best
    return lo, hi


def judge(f, at, n, m, dom, size, tol, what):
    import funpy
    vals, pos = funpy.minandmax(f)
    vals, pos = np.asarray(vals), np.asarray(pos)
    require(vals.shape == (2, m) and pos.shape == (2, m), "%s: values of shape %s, locations of shape %s for %d columns", what, vals.shape, pos.shape, m)
    a, b = dom
    slack = 4 * EPS * max(abs(a), abs(b))
    require(np.all(pos >= a - slack) and np.all(pos <= b + slack), "%s: location %s outside [%r, %r]", what, pos.tolist(), a, b)
    lo, hi = extrema(at, n, m)
    for j in range(m):
        require(abs(vals[0, j] - lo[j]) <= tol[j], "%s: minimum of column %d reported %r, is %r (size %.3g)", what, j, float(vals[0, j]), lo[j], size[j])
        require(abs(vals[1, j] - hi[j]) <= tol[j], "%s: maximum of column %d reported %r, is %r (size %.3g)", what, j, float(vals[1, j]), hi[j], size[j])
        for k, nm in ((0, "minimum"), (1, "maximum")):
            w = float(np.real(at(np.clip(zof([pos[k, j]], dom), -1, 1))[0, j]))
            require(abs(w - vals[k, j]) <= tol[j], "%s: %s of column %d: %r reported at %r, where the function is %r", what, nm, j, float(vals[k, j]), float(pos[k, j]), w)
    v = funpy.norm(f, np.inf)
    top = max(np.max(np.abs(lo)), np.max(np.abs(hi)))
    require(abs(float(np.asarray(v).reshape(())) - top) <= np.max(tol), "%s: infinity norm %r, largest absolute value %r", what, v, top)
    return lo, hi


def cond(dom):
    return 1 + max(abs(dom[0]), abs(dom[1])) / (dom[1] - dom[0])


def check_cheb(case):
    dom = case["dom"]
    c = arr(case["c"])
    f = make(c, dom, "cheb")
    n, m = c.shape
    s = sup(c)
    d = sup(der(c))if n > 1 else 0 * s
    # truncating the derivative and the accuracy of its roots
    tol = 1e-11 * s * (1 + n / 50) + 8 * EPS * cond(dom) * d + cheb_tol(c, dom) + 1e-300
    judge(f, lambda z: cheb_at(c, z).astype(float), n, m, dom, s, tol, "cheb")
    k = f.coeffs.shape[0]
    require(np.array_equal(f.coeffs[:min(k, n)], c[:min(k, n)]) and not c[k:].any(), "the function was changed")
    return ["m=1" if m == 1 else "m>1", "n>50" if n > 50 else "n<=50"] if n > 1 and c[1:].any() else []


def check_trig(case):
    dom = case["dom"]
    c = tarr(case["c"])
    f = make(c, dom, "trig")
    n, m = c.shape
    s = sup(c)
    tol = 1e-9 * s + (8 * EPS * cond(dom) * 4) * n * s + 4 * trig_tol(c, dom) + 1e-300
    judge(f, lambda z: np.real(trig_at(c, z)).astype(float), n, m, dom, s, tol, "trig")
    require(np.array_equal(f.coeffs, c), "the function was changed")
    return ["m=1" if m == 1 else "m>1", "odd" if n % 2 else "even"] if n > 1 else []


def check_wave(case):
    """a*x + b*x^2 + cos-type waves built adaptively; the extremum may sit at an end or deep inside."""
    from funpy import Fun
    dom = case["dom"]
    a, b = dom
    w, p, al, be = case["w"], case["p"], case["al"], case["be"]
    cols = range(case["m"])
    g = [lambda s, k=k: np.cos((w + k) * s + p) * np.exp(al * s) + be * (s - 0.3 * k) for k in cols]
    mp = lambda x: (2 * np.asarray(x) - a - b) / (b - a)
    f = Fun(op=[lambda x, q=q: q(mp(x)) for q in g], domain=list(dom))
    at = lambda z: np.stack([q(np.asarray(z, dtype=LD)).astype(float) for q in g], axis=-1)
    s = np.array([np.exp(abs(al)) + 2 * abs(be) for _ in cols])
    tol = 1e-9 * s * np.ones(len(s)) + 16 * EPS * cond(dom) * w * s
    judge(f, at, int(2 * w) + 40, len(s), dom, s, tol, "wave")
    return ["m=1" if case["m"] == 1 else "m>1", "n>50" if f.n > 50 else "n<=50"]


NS = st.one_of(sizes(20), sizes(60), st.integers(45, 60))
OK_ENVS = ["flat", "geo", "geo", "alg", "even", "odd", "int", "gap", "onehot"]
GROUPS = [
    Group("cheb", st.fixed_dictionaries({"c": aspec(n=NS, envs=OK_ENVS), "dom": domains}), check_cheb, 1500, weight=2),
    Group("cheb-big", st.fixed_dictionaries({"c": rspec(n=st.integers(60, 200), m=st.sampled_from([1, 1, 2]), envs=["flat", "alg", "even", "odd"]), "dom": domains}), check_cheb, 80),
    Group("trig", st.fixed_dictionaries({"c": tspec(n=st.one_of(sizes(12), sizes(30), sizes(90)), kinds=("real",)), "dom": domains}), check_trig, 800, weight=2),
    Group("wave", st.fixed_dictionaries({
        "dom": domains, "m": st.sampled_from([1, 1, 2, 3]), "w": st.one_of(st.floats(0.3, 12), st.floats(12, 80)), "p": st.floats(-3, 3),
        "al": st.sampled_from([0.0, 0.1, -0.4, 1.0]), "be": st.sampled_from([0.0, 0.2, -1.0, 3.0])}), check_wave, 600, weight=1.5),
]
