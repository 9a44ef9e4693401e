"""P11 truncation and padding change functions only as promised."""
import numpy as np
from hypothesis import strategies as st
from ..gens import aspec, rspec, arr, tspec, tarr, domains, xpts, DENSE, zof, freqs, cheb_at, trig_at, trig_tol, cheb_tol, sup, as2d, relbad, EPS, sizes, seeds
from ..harness import Group, require

RULE = """Cases are coefficient arrays with decay, gaps, noise plateaus or exact zeros at the end, tolerances and target lengths.
Non-trivial: the function is not constant and something was (or had to be) cut off or padded; for the chopping rule: at least 17 coefficients."""
MORE = 2                                             # quick runs: this many times the cases below
ORACLE = "extended-precision series before and after, coefficient identities, scaling/sign invariance of the chopping rule and its published error bound"


def make(c, dom, kind, **kw):
    from funpy import Fun
    return Fun(coeffs=np.copy(c, order="F"), domain=list(dom), simplify=False, **({"type": "trig"} if kind == "trig" else {}), **kw)


def tailed(c, case):
    """Put a noise plateau / zeros after the first K coefficients (index = row)."""
    K, n = case["K"], c.shape[0]
    rng = np.random.default_rng(case["noise"])
    c = c.copy(order="F")
    if case["tail"] is not None and K < n:
        lev = case["tail"] * np.max(np.abs(c[:K]), axis=0)
        c[K:] = lev * rng.uniform(-1, 1, (n - K, c.shape[1]))
    return c


def envelope_bound(tol, n):
    """Dropped coefficients are below tol^(2/3) of the largest one (times a safety factor for the leftward bias)."""
    return 30 * n * tol**(2 / 3)


# -- the chopping rule -----------------------------------------------------------------------------

def check_chop(case):
    from funpy.cheb.detail import standardChop, standardChopCmplx
    c = tailed(arr(case["c"]), case)
    n = c.shape[0]
    v = np.ascontiguousarray(c[:, 0])
    tol = case["tol"]
    w = np.array(v)
    k = standardChop(v, tol)
    require(np.array_equal(v, w), "the chopping rule changed its argument")
    require(isinstance(k, (int, np.integer)) and 0 <= k <= n, "cut-off %r for %d coefficients", k, n)
    if n < 17:
        require(k == n, "cut-off %d for %d coefficients, too few to chop", k, n)
        return []
    for nm, u in (("signs flipped", v * np.random.default_rng(case["noise"]).choice([-1.0, 1.0], n)),
                  ("multiplied by 2^40", v * 2.0**40), ("multiplied by 2^-30", v * 2.0**-30)):
        k2 = standardChop(np.ascontiguousarray(u), tol)
        require(k2 == k, "cut-off %d, after being %s %d (%d coefficients, tolerance %g)", k, nm, k2, n, tol)
    ph = np.exp(2j * np.pi * np.random.default_rng(case["noise"] + 1).uniform(size=n))
    k2 = standardChopCmplx((v + 0j), tol)
    require(k2 == k, "cut-off %d for real, %d for the same complex coefficients", k, k2)
    k3 = standardChopCmplx(np.ascontiguousarray(1j * v), tol)
    require(k3 == k, "cut-off %d for real, %d for the same coefficients times i", k, k3)
    k4 = standardChopCmplx(np.ascontiguousarray(v * ph), tol)
    a = np.abs(v * ph)
    require(k4 == standardChop(np.ascontiguousarray(a), tol), "complex cut-off %d differs from the one of the absolute values", k4)
    big = np.max(np.abs(v))
    if big == 0:
        require(k == 0, "cut-off %d for zero coefficients", k)
        return ["zero"]
    dropped = np.max(np.abs(v[k + 1:]), initial=0)
    # (the bias towards the left may go up to the -1/3 power above the plateau)
    require(dropped <= 3 * tol**(1 / 3) * big, "coefficient of relative size %.3g dropped at tolerance %g (cut-off %d of %d)", dropped / big, tol, k, n)
    if np.max(np.abs(v[n // 2:])) > 2 * tol**(2 / 3) * big:
        last = np.max(np.where(np.abs(v) > 2 * tol**(2 / 3) * big)[0])
        if last >= n - 2:
            require(k == n, "cut-off %d of %d although coefficient %d has relative size %.3g (tolerance %g)", k, n, last, abs(v[last]) / big, tol)
    # a long tail below the tolerance is a plateau: it has to be cut
    small = np.abs(v) < 0.5 * tol * big
    K = int(np.max(np.where(~small)[0])) + 1
    if n > 1.25 * (K + 2) + 8:
        require(k <= 1.25 * (K + 1) + 7, "cut-off %d of %d although everything from coefficient %d on is below the tolerance %g", k, n, K, tol)
    return ["kept" if k == n else "cut"]


# -- Chebyshev -------------------------------------------------------------------------------------

def check_simplify(case):
    dom, tol = case["dom"], case["tol"]
    c = tailed(arr(case["c"]), case)
    n, m = c.shape
    x = np.array(xpts(DENSE, dom))
    z = zof(x, dom)
    s = sup(c)
    f = make(c, dom, "cheb")
    f.onefun.ishappy = True
    if case["viaeps"]:
        f.seteps(tol)
        g = f.simplify()
    else:
        g = f.simplify(eps=tol)
    require(g is f, "simplify returned another object")
    k = f.coeffs.shape[0]
    require(1 <= k <= n and f.coeffs.shape[1] == m and f.n == k, "simplified from %s to %s coefficients", c.shape, f.coeffs.shape)
    noise = 64 * EPS * (1 + np.log(n)) * s
    require(np.all(np.abs(f.coeffs - c[:k]) <= noise + 1e-300), "simplifying changed a kept coefficient by %.3g (size %.3g)", np.max(np.abs(f.coeffs - c[:k])), s.max())
    lost = np.abs(c[k:])
    big = np.max(np.abs(c), axis=0)
    require(np.all(lost <= 3 * tol**(2 / 3) * big + noise + 1e-300), "dropped a coefficient of relative size %.3g at tolerance %g (%d of %d kept)", np.max(lost / (big + 1e-300), initial=0), tol, k, n)
    clean = case["tail"] is not None and case["tail"] <= 0.01 * tol and case["c"].get("env") in ("geo", "flat", "int") and case["c"].get("rho", 1) <= 0.5
    if clean:
        require(np.all(lost <= 30 * tol * big + noise + 1e-300), "dropped a coefficient of relative size %.3g at tolerance %g (%d of %d kept)", np.max(lost / (big + 1e-300), initial=0), tol, k, n)
    t = cheb_tol(c, dom) + noise * n + np.sum(lost, axis=0)
    bad = relbad(as2d(f(x), x.size, m), cheb_at(c, z), t + 1e-300)
    require(bad is None, "simplify: %s", bad)
    # trailing negligible coefficients go
    sig = np.max(np.where(np.any(np.abs(c) >= 0.5 * tol * big, axis=1) & np.any(c != 0, axis=1))[0], initial=0)
    if tol > 1e-13:
        require(k <= 1.25 * (sig + 2) + 8 or k <= sig + 1, "%d coefficients kept, though those from %d on are below the tolerance %g (of %d)", k, sig + 1, tol, n)
    k1 = f.coeffs.copy()
    f.simplify(eps=tol)
    require(f.coeffs.shape[0] <= k, "simplifying twice lengthened the function")
    d = np.abs(k1[f.coeffs.shape[0]:])
    require(np.all(d <= 3 * tol**(2 / 3) * big + 2 * noise), "simplifying again dropped a coefficient of relative size %.3g", np.max(d / big, initial=0))
    # not resolved: nothing happens unless forced
    h = make(c, dom, "cheb")
    h.onefun.ishappy = False
    h.simplify(eps=tol)
    require(np.array_equal(h.coeffs, c), "an unresolved function was simplified")
    return ["cut" if k < n else "kept", "m=1" if m == 1 else "m>1"] if n > 1 and c[1:].any() else []


def check_prolong(case):
    from funpy.fun import prolong
    dom, N = case["dom"], case["N"]
    c = arr(case["c"])
    n, m = c.shape
    if case["delta"] is not None:
        N = max(1, n + case["delta"])
    f = make(c, dom, "cheb")
    g = f
    C = f.onefun.prolong_coeffs(N)
    require(C.shape == (N, m) and np.array_equal(C[:min(n, N)], c[:N]) and not C[n:].any(), "prolong_coeffs %d -> %d", n, N)
    require(np.array_equal(f.coeffs, c), "prolong_coeffs() changed the function")
    if case["func"]:
        g = prolong(f, N)
        require(np.array_equal(f.coeffs, c), "prolong() changed its argument")
    else:
        g = f.prolong(N)
        require(g is f, "the method returned another object")
    require(g.coeffs.shape == (N, m) and g.n == N, "prolonged to %d, got %s", N, g.coeffs.shape)
    k = min(n, N)
    require(np.array_equal(g.coeffs[:k], c[:k]) and not g.coeffs[k:].any(), "coefficients changed when the length went from %d to %d", n, N)
    ref = c[:k]
    x = np.array(xpts(DENSE, dom))
    bad = relbad(as2d(g(x), x.size, m), cheb_at(ref, zof(x, dom)), cheb_tol(ref, dom) + 1e-300)
    require(bad is None, "prolong %d -> %d: %s", n, N, bad)
    v = np.asarray(g.values)
    t = -np.cos(np.pi * np.arange(N) / max(N - 1, 1)) if N > 1 else np.zeros(1)
    bad = relbad(as2d(v, N, m), cheb_at(ref, t), cheb_tol(ref, (-1, 1)) + 64 * EPS * sup(ref) * N + 1e-300)
    require(bad is None, "samples after prolong %d -> %d: %s", n, N, bad)
    return ["longer" if N > n else "shorter" if N < n else "same"] if c.any() else []


# -- Fourier ---------------------------------------------------------------------------------------

def by_mode(c):
    """Folded: {k: (c_-k, c_k)}, the unpaired mode as a cosine."""
    n = c.shape[0]
    d = {int(k): c[i] for i, k in enumerate(freqs(n))}
    if n % 2 == 0:
        d[n // 2] = 0.5 * d[-(n // 2)]
        d[-(n // 2)] = d[n // 2]
    return d


def check_tsimplify(case):
    dom, tol = case["dom"], case["tol"]
    c = tarr(case["c"])
    n, m = c.shape
    k = np.abs(freqs(n))
    if case["tail"] is not None:
        rng = np.random.default_rng(case["noise"])
        big = np.max(np.abs(c), axis=0)
        fade = np.where(k[:, None] > case["K"], case["tail"] * rng.uniform(0, 1, m) * big / (np.abs(c) + 1e-300), 1.0)
        fade = np.minimum(fade, 1.0)
        # keep the symmetry of real functions
        c = np.asfortranarray(c * fade)
        if case["tail"] == 0:
            c[k > case["K"]] = 0
    x = np.array(xpts(DENSE, dom))
    z = zof(x, dom)
    s = sup(c)
    f = make(c, dom, "trig")
    f.onefun.ishappy = True
    if case["viaeps"]:
        f.seteps(tol)
        g = f.simplify()
    else:
        g = f.simplify(eps=tol)
    require(g is f, "simplify returned another object")
    N = f.coeffs.shape[0]
    require(1 <= N <= n + (1 - n % 2) and f.coeffs.shape[1] == m and f.n == N, "simplified from %s to %s coefficients", c.shape, f.coeffs.shape)
    a, b = by_mode(c), by_mode(np.asarray(f.coeffs))
    noise = 64 * EPS * (1 + np.log(n)) * s + 1e-300
    bound = 3 * tol**(2 / 3) * np.maximum(np.max(np.abs(c), axis=0) * 2, 1e-300)
    lost = np.zeros(m)
    for q in a:
        if q in b:
            require(np.all(np.abs(a[q] - b[q]) <= noise), "simplifying changed mode %d by %.3g (size %.3g)", q, np.max(np.abs(a[q] - b[q])), s.max())
        else:
            require(np.all(np.abs(a[q]) <= bound + noise), "dropped mode %d of relative size %.3g at tolerance %g (length %d -> %d)", q, np.max(np.abs(a[q]) / (s + 1e-300)), tol, n, N)
            lost = lost + np.abs(a[q])
    for q in b:
        require(q in a or np.all(np.abs(b[q]) <= noise), "simplifying made up mode %d", q)
    # imaginary parts below 3e-10 of the size are dropped by design
    t = trig_tol(c, dom) + noise * n + lost + (0 if case["c"]["kind"] == "real" else 1e-9 * s + 1e-18)
    bad = relbad(as2d(f(x), x.size, m) + 0j, trig_at(c, z), t)
    require(bad is None, "simplify: %s", bad)
    grid = -1 + 2 * np.arange(N) / N
    bad = relbad(as2d(f.values, N, m) + 0j, trig_at(np.asarray(f.coeffs), grid), 64 * EPS * s * N + (0 if case["c"]["kind"] == "real" else 1e-9 * s + 1e-18) + 1e-300)
    require(bad is None, "samples after simplify: %s", bad)
    big = np.max(np.abs(c), axis=0)
    sig = max([abs(q) for q in a if np.any(np.abs(a[q]) >= 0.25 * tol * big) and np.any(a[q] != 0)], default=0)
    if tol > 1e-13:
        require(N <= 1.25 * (2 * sig + 4) + 9 or N <= 2 * sig + 1, "length %d kept, though modes above %d are below the tolerance %g (length was %d)", N, sig, tol, n)
    f.simplify(eps=tol)
    require(f.coeffs.shape[0] <= N, "simplifying twice lengthened the function")
    h = make(c, dom, "trig")
    h.onefun.ishappy = False
    h.simplify(eps=tol)
    require(np.array_equal(h.coeffs, c), "an unresolved function was simplified")
    return ["cut" if N < n else "kept", "odd" if n % 2 else "even", "m=1" if m == 1 else "m>1"] if n > 1 and s.any() else []


def check_tprolong(case):
    from funpy.fun import prolong
    from funpy.trig.trig_simplify import prolong as detail
    dom, N = case["dom"], case["N"]
    c = tarr(case["c"])
    n, m = c.shape
    if case["delta"] is not None:
        N = max(1, n + case["delta"])
    f = make(c, dom, "trig")
    if case["how"] == "func":
        g = prolong(f, N)
        require(np.array_equal(f.coeffs, c), "prolong() changed its argument")
        C, V = g.coeffs, g.values
    elif case["how"] == "method":
        g = f.prolong(N)
        require(g is f, "the method returned another object")
        C, V = g.coeffs, g.values
    elif case["how"] == "coeffs":
        g = None
        C = f.onefun.prolong_coeffs(N)
        require(np.array_equal(f.coeffs, c), "prolong_coeffs() changed the function")
        V = None
    else:
        g = None
        own = np.copy(c, order="F")
        C, V = detail(own, N, np.asarray(f.onefun.isReal))
        require(np.array_equal(own, c), "prolong changed its argument")
    require(C.shape == (N, m) and (V is None or V.shape == (N, m)), "prolonged %d to %d, got %s coefficients", n, N, C.shape)
    a, b = by_mode(c), by_mode(C)
    top = N // 2 if N % 2 == 0 and N < n else N        # the unpaired mode of a shortened series is not claimed
    for q in b:
        if abs(q) < top:
            require(np.allclose(b[q], a.get(q, 0), rtol=1e-15, atol=0), "mode %d changed from %s to %s when the length went from %d to %d", q, a.get(q, 0), b[q], n, N)
    s = sup(c)
    grid = -1 + 2 * np.arange(N) / N
    w = trig_at(C, grid)
    real = np.max(np.abs(np.imag(trig_at(c, -1 + 2 * np.arange(2 * n + 1) / (2 * n + 1)))), axis=0) <= 1e-9 * s
    w[:, real] = w[:, real].real
    bad = None if V is None else relbad(V + 0j, w, 64 * EPS * s * (N + n) + 1e-300)
    require(bad is None, "samples after prolong %d -> %d: %s", n, N, bad)
    if g is not None and N >= n:
        x = np.array(xpts(DENSE, dom))
        bad = relbad(as2d(g(x), x.size, m) + 0j, trig_at(c, zof(x, dom)), 2 * trig_tol(c, dom) + 1e-300)
        require(bad is None, "prolong %d -> %d: %s", n, N, bad)
    return ["longer" if N > n else "shorter" if N < n else "same", "%d->%d" % (n % 2, N % 2), case["how"]] if c.any() else []


tols = st.one_of(st.sampled_from([1e-14, 1e-12, 1e-10, 1e-8, 1.48e-8, 1e-5, 1e-3]), st.floats(3, 14).map(lambda v: 10.0**-v))
tails = st.sampled_from([None, None, 0.0, 1e-17, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3])
chopspec = st.fixed_dictionaries({"c": aspec(n=st.one_of(st.integers(12, 40), st.integers(20, 200)), m=st.just(1)), "K": st.integers(1, 80), "tail": tails,
                                  "noise": st.integers(0, 999), "tol": tols})
delta = st.one_of(st.none(), st.integers(-4, 4))
GROUPS = [
    Group("chop", chopspec, check_chop, 3000),
    Group("simplify", st.fixed_dictionaries({"c": st.one_of(aspec(n=sizes(90)), rspec(n=st.integers(17, 120), envs=["flat", "geo", "alg", "int"]), rspec(n=st.integers(30, 90), envs=["flat", "geo"])), "K": st.integers(1, 60), "tail": tails, "noise": st.integers(0, 999), "tol": tols, "dom": domains,
                                             "viaeps": st.booleans()}), check_simplify, 2500, weight=1.5),
    Group("prolong", st.fixed_dictionaries({"c": aspec(n=sizes(50)), "dom": domains, "N": st.integers(1, 80), "delta": delta, "func": st.booleans()}), check_prolong, 1500),
    Group("trig-simplify", st.fixed_dictionaries({"c": tspec(n=sizes(70), kinds=("real", "real", "cplx", "mixed")), "K": st.integers(0, 30), "tail": tails, "noise": st.integers(0, 999), "tol": tols, "dom": domains,
                                                  "viaeps": st.booleans()}), check_tsimplify, 2000, weight=1.5),
    Group("trig-prolong", st.fixed_dictionaries({"c": tspec(n=sizes(40), kinds=("real", "real", "cplx", "mixed")), "dom": domains, "N": st.integers(1, 60), "delta": delta,
                                                 "how": st.sampled_from(["method", "func", "detail", "coeffs"])}), check_tprolong, 1500),
]
