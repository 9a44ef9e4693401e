"""Generators (JSON-able specs), their realisation as arrays / function objects, and independent references."""
import numpy as np
from hypothesis import strategies as st

EPS = float(np.finfo(float).eps)
LD = np.longdouble
CLD = np.clongdouble

# ------------------------------------------------------------------ specs

seeds = st.integers(0, 2**32 - 1)


def sizes(hi=60, lo=1, big=None):
    """Lengths: mostly small, all parities, sometimes large."""
    opts = [st.integers(lo, max(lo, 6)), st.integers(lo, max(lo, 20)), st.integers(lo, hi)]
    if big:
        opts.append(st.integers(lo, big))
    return st.one_of(opts)


cols = st.sampled_from([1, 1, 1, 2, 2, 3, 4, 5])

ENVS = ["flat", "geo", "geo", "alg", "even", "odd", "onehot", "int", "gap", "tailtiny"]


def aspec(n=None, m=None, envs=ENVS, cplx=st.just(False)):
    """An array of n rows and m columns."""
    n = sizes() if n is None else n
    m = cols if m is None else m
    small = st.fixed_dictionaries({
        "list": st.lists(st.lists(st.integers(-8, 8), min_size=1, max_size=2).map(lambda r: [v / 2 for v in r]),
                         min_size=1, max_size=5)}).map(_square)
    rnd = st.fixed_dictionaries({
        "n": n, "m": m, "env": st.sampled_from(envs), "seed": seeds,
        "rho": st.sampled_from([0.2, 0.5, 0.7, 0.85, 0.95]),
        "scale": st.sampled_from([1.0, 1.0, 1.0, 3.0, 1e-3, 250.0]),
        "cplx": cplx})
    if n is not None and m is cols:
        return st.one_of(rnd, rnd, rnd, rnd, small)
    return rnd


def rspec(n=None, m=None, envs=ENVS, cplx=st.just(False)):
    """As aspec, but never the explicit small list (for fixed shapes)."""
    return st.fixed_dictionaries({
        "n": sizes() if n is None else n, "m": cols if m is None else m,
        "env": st.sampled_from(envs), "seed": seeds,
        "rho": st.sampled_from([0.2, 0.5, 0.7, 0.85, 0.95]),
        "scale": st.sampled_from([1.0, 1.0, 1.0, 3.0, 1e-3, 250.0]),
        "cplx": cplx})


def _square(d):
    rows = d["list"]
    w = min(len(r) for r in rows)
    return {"list": [r[:w] for r in rows]}


def arr(s):
    """Chebyshev-like coefficient array of a spec (row k = index k)."""
    if "list" in s:
        return np.asfortranarray(np.array(s["list"], dtype=float).reshape(len(s["list"]), -1))
    n, m, env = s["n"], s["m"], s["env"]
    rng = np.random.default_rng(s["seed"])
    a = rng.uniform(-1, 1, (n, m))
    if s.get("cplx"):
        a = a + 1j * rng.uniform(-1, 1, (n, m))
    k = np.arange(n)[:, None]
    if env == "geo":
        a = a * s["rho"]**k
    elif env == "alg":
        a = a / (1.0 + k)**2
    elif env == "even":
        a = a * (k % 2 == 0) * s["rho"]**k
    elif env == "odd":
        a = a * (k % 2 == 1) * s["rho"]**k
    elif env == "onehot":
        keep = rng.integers(0, n, m)
        a = a * (k == keep[None, :])
    elif env == "int":
        a = np.round(4 * a) + 0.0
    elif env == "gap":
        lo, hi = sorted(rng.integers(0, n + 1, 2))
        a = a * ~((k >= lo) & (k < hi))
    elif env == "tailtiny":
        cut = int(rng.integers(1, n + 1))
        a = a * np.where(k >= cut, 1e-17, 1.0)
    return np.asfortranarray(s["scale"] * a)


def freqs(n):
    """Wave numbers of a Fourier coefficient array of length n, in storage order."""
    return np.arange(-(n // 2), n - n // 2) if n % 2 == 0 else np.arange(-(n - 1) // 2, (n - 1) // 2 + 1)


def tspec(n=None, m=None, kinds=("real", "real", "real", "cplx")):
    """A Fourier coefficient array."""
    return st.fixed_dictionaries({
        "n": sizes(40) if n is None else n, "m": st.sampled_from([1, 1, 1, 2, 3]) if m is None else m,
        "kind": st.sampled_from(list(kinds)), "seed": seeds,
        "env": st.sampled_from(["flat", "geo", "geo", "alg", "even", "odd", "onehot"]),
        "rho": st.sampled_from([0.3, 0.6, 0.85]),
        "scale": st.sampled_from([1.0, 1.0, 1.0, 4.0, 1e-2, 60.0])})


def tarr(s, zero_mean=False):
    """Fourier coefficients of a spec. Even length: the unpaired mode k=-n/2 stands for a cosine."""
    n, m = s["n"], s["m"]
    rng = np.random.default_rng(s["seed"])
    k = freqs(n)[:, None]
    c = rng.uniform(-1, 1, (n, m)) + 1j * rng.uniform(-1, 1, (n, m))
    if s["env"] == "geo":
        c = c * s["rho"]**np.abs(k)
    elif s["env"] == "alg":
        c = c / (1.0 + np.abs(k))**2
    elif s["env"] == "even":
        c = c.real + 0j
    elif s["env"] == "odd":
        c = 1j * c.imag
    elif s["env"] == "onehot":
        keep = rng.integers(0, n // 2 + 1, m)
        c = c * (np.abs(k) == keep[None, :])
    if zero_mean:
        c = c * (k != 0)
    if s["kind"] in ("real", "mixed"):
        # "mixed": every other column is real
        r = slice(None) if s["kind"] == "real" else slice(s["seed"] % 2, None, 2)
        z = int(np.where(freqs(n) == 0)[0][0])
        for j in range(1, n - z):
            c[z + j, r] = np.conj(c[z - j, r])
        c[z, r] = c[z, r].real
        if n % 2 == 0:
            c[0, r] = c[0, r].real
    return np.asfortranarray(s["scale"] * c)


domains = st.one_of(
    st.sampled_from([[-1.0, 1.0], [0.0, 1.0], [0.0, 2.0], [-2.0, 3.5], [-np.pi, np.pi], [0.0, 2 * np.pi], [1.0, 2.0]]),
    st.tuples(st.integers(-600, 600), st.integers(20, 1500)).map(lambda t: [t[0] / 100, t[0] / 100 + t[1] / 100]))

points = st.lists(st.one_of(st.sampled_from([-1.0, 1.0, 0.0, 0.5, -0.5]),
                            st.integers(-1000, 1000).map(lambda v: v / 1000), st.floats(-1, 1)),
                  min_size=1, max_size=9)


def xpts(t, dom):
    """Points of the interval for relative positions t in [-1, 1]."""
    a, b = dom
    t = np.asarray(t, dtype=float)
    x = 0.5 * (b * (t + 1) + a * (1 - t))
    x = np.where(t == 1, b, np.where(t == -1, a, x))
    return np.clip(x, a, b)


DENSE = np.concatenate([np.linspace(-1, 1, 23), np.cos(np.array([0.013, 0.4, 1.1, 2.2, 3.0, 3.13])),
                        np.array([-0.9987, 0.3127, 0.77701])])

# ------------------------------------------------------------------ references (extended precision)


def zof(x, dom):
    a, b = LD(dom[0]), LD(dom[1])
    return (2 * np.asarray(x, dtype=LD) - a - b) / (b - a)


def cheb_at(c, z):
    """sum c_k T_k(z), rows = points, columns = components."""
    z = np.atleast_1d(np.asarray(z, dtype=LD))
    c = np.asarray(c, dtype=LD)
    b1 = np.zeros((z.size, c.shape[1]), dtype=LD)
    b2 = b1.copy()
    for k in range(c.shape[0] - 1, 0, -1):
        b1, b2 = c[k] + 2 * z[:, None] * b1 - b2, b1
    return c[0] + z[:, None] * b1 - b2


PI = LD("3.14159265358979323846264338327950288")


def trig_at(c, z):
    z = np.atleast_1d(np.asarray(z, dtype=LD))
    n = c.shape[0]
    c = np.asarray(c, dtype=CLD)
    out = np.zeros((z.size, c.shape[1]), dtype=CLD)
    for k, row in zip(freqs(n), c):
        ph = PI * LD(int(k)) * z
        if n % 2 == 0 and k == -(n // 2):
            e = np.cos(ph) + 0j
        else:
            e = np.cos(ph) + 1j * np.sin(ph)
        out += e.astype(CLD)[:, None] * row
    return out


def cheb_tol(c, dom=(-1.0, 1.0), C=32.0):
    """Bound on the rounding error of evaluating the series at a mapped point (per column)."""
    c = np.abs(np.asarray(c, dtype=float))
    k = np.arange(c.shape[0])[:, None]
    cond = 2.0 + 4.0 * max(abs(dom[0]), abs(dom[1])) / (dom[1] - dom[0])
    return C * EPS * (np.sum(c * (1 + k), axis=0) * 2 + cond * np.sum(c * np.minimum(k * k, 1e18), axis=0)) + 1e-300


def trig_tol(c, dom=(-1.0, 1.0), C=32.0):
    n = c.shape[0]
    k = np.abs(freqs(n))[:, None]
    c = np.abs(np.asarray(c))
    cond = 2.0 + 4.0 * max(abs(dom[0]), abs(dom[1])) / (dom[1] - dom[0])
    return C * EPS * (np.sum(c, axis=0) * (4 + n) + 4 * cond * np.sum(c * k, axis=0)) + 1e-300


def sup(c):
    """A size of the function: sum of absolute coefficients, per column."""
    return np.sum(np.abs(np.asarray(c)), axis=0)


def as2d(v, npts, m):
    """Undoes the documented dropping of unit axes."""
    return np.asarray(v).reshape(npts, m)


def maxdiff(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    d = np.abs(a - b)
    if not np.all(np.isfinite(d.astype(float))):
        return np.inf
    return float(np.max(d)) if d.size else 0.0


def relbad(got, ref, tol):
    """None if |got - ref| <= tol (per column) everywhere, else a description."""
    got = np.asarray(got)
    ref = np.asarray(ref)
    if got.shape != ref.shape:
        return "shape %s instead of %s" % (got.shape, ref.shape)
    d = np.abs(got - ref).astype(float)
    lim = np.broadcast_to(np.asarray(tol, dtype=float), d.shape)
    bad = ~(d <= lim)
    if not bad.any():
        return None
    i = np.unravel_index(int(np.argmax(np.where(bad, np.where(np.isfinite(d), d / lim, np.inf), -1))), d.shape)
    return "at index %s got %r expected %r (|diff| %.3g > %.3g)" % (
        tuple(int(v) for v in i), complex(got[i]) if np.iscomplexobj(got) else float(got[i]),
        complex(ref[i]) if np.iscomplexobj(ref) else float(ref[i]), d[i], lim[i])
