"""Generated smooth callables: JSON expression trees in the scaled variable s in [-1, 1]."""
import numpy as np
from hypothesis import strategies as st

_q = st.integers(-8, 8).map(lambda v: v / 4)
_amp = st.sampled_from([1.0, -1.0, 0.5, 2.0, 3.0])


def _poly(max_deg=16):
    return st.tuples(st.integers(0, max_deg), st.integers(0, 2**32 - 1)).map(lambda t: {"k": "poly", "d": t[0], "seed": t[1]})


atoms = st.one_of(
    _poly(),
    st.tuples(st.floats(0.25, 25).map(lambda v: round(v, 2)), _q).map(lambda t: {"k": "sin", "w": t[0], "p": t[1]}),
    st.tuples(st.floats(0.25, 25).map(lambda v: round(v, 2)), _q).map(lambda t: {"k": "cos", "w": t[0], "p": t[1]}),
    st.integers(-12, 12).map(lambda v: {"k": "exp", "w": v / 4}),
    st.tuples(st.integers(1, 16), _q).map(lambda t: {"k": "runge", "w": t[0] / 4, "p": t[1] / 2}),
    st.tuples(st.integers(1, 16), _q).map(lambda t: {"k": "tanh", "w": t[0] / 4, "p": t[1]}),
    st.tuples(st.integers(1, 30), _q).map(lambda t: {"k": "gauss", "w": float(t[0]), "p": t[1] / 2}))

smooth = st.one_of(
    atoms, atoms,
    st.tuples(_amp, atoms, _amp, atoms).map(lambda t: {"k": "add", "a": t[0], "f": t[1], "b": t[2], "g": t[3]}),
    st.tuples(atoms, atoms).map(lambda t: {"k": "mul", "f": t[0], "g": t[1]}))

_per_atoms = st.one_of(
    st.tuples(st.integers(0, 6), st.integers(0, 2**32 - 1)).map(lambda t: {"k": "tpoly", "d": t[0], "seed": t[1]}),
    st.tuples(st.integers(1, 4), _q).map(lambda t: {"k": "expsin", "w": t[0], "p": t[1]}),
    st.tuples(st.integers(1, 4), _q, st.sampled_from([1.5, 2.0, 3.0])).map(lambda t: {"k": "invcos", "w": t[0], "p": t[1], "c": t[2]}),
    st.tuples(st.integers(1, 4), _q).map(lambda t: {"k": "cossin", "w": t[0], "p": t[1]}))

periodic = st.one_of(
    _per_atoms, _per_atoms,
    st.tuples(_amp, _per_atoms, _amp, _per_atoms).map(lambda t: {"k": "add", "a": t[0], "f": t[1], "b": t[2], "g": t[3]}),
    st.tuples(_per_atoms, _per_atoms).map(lambda t: {"k": "mul", "f": t[0], "g": t[1]}))

periodic_any = st.one_of(
    periodic, periodic,
    st.tuples(_per_atoms, _per_atoms).map(lambda t: {"k": "cplx", "f": t[0], "g": t[1]}),
    st.tuples(st.integers(-10, 10)).map(lambda t: {"k": "cis", "w": t[0]}))


def value(e, s):
    k = e["k"]
    s = np.asarray(s)
    if k == "poly":
        c = np.random.default_rng(e["seed"]).uniform(-1, 1, e["d"] + 1)
        c[-1] = 1.0 if abs(c[-1]) < 0.3 else c[-1]
        return np.polynomial.chebyshev.chebval(s, c) + 0 * s
    if k == "sin":
        return np.sin(e["w"] * s + e["p"])
    if k == "cos":
        return np.cos(e["w"] * s + e["p"])
    if k == "exp":
        return np.exp(e["w"] * s)
    if k == "runge":
        return 1 / (1 + (e["w"] * (s - e["p"]))**2)
    if k == "tanh":
        return np.tanh(e["w"] * (s - e["p"]))
    if k == "gauss":
        return np.exp(-e["w"] * (s - e["p"])**2)
    if k == "add":
        return e["a"] * value(e["f"], s) + e["b"] * value(e["g"], s)
    if k == "mul":
        return value(e["f"], s) * value(e["g"], s)
    if k == "cplx":
        return value(e["f"], s) + 1j * value(e["g"], s)
    if k == "cis":
        return np.exp(1j * np.pi * e["w"] * s)
    if k == "tpoly":
        r = np.random.default_rng(e["seed"])
        d = e["d"]
        a, b = r.uniform(-1, 1, d + 1), r.uniform(-1, 1, d + 1)
        a[-1] = 1.0
        out = a[0] + 0 * s
        for j in range(1, d + 1):
            out = out + a[j] * np.cos(j * np.pi * s) + b[j] * np.sin(j * np.pi * s)
        return out
    if k == "expsin":
        return np.exp(np.sin(e["w"] * np.pi * s + e["p"]))
    if k == "invcos":
        return 1 / (e["c"] + np.cos(e["w"] * np.pi * s + e["p"]))
    if k == "cossin":
        return np.cos(2 * np.sin(e["w"] * np.pi * s + e["p"]))
    raise ValueError(k)


def degree(e):
    """Degree of a polynomial / trigonometric polynomial expression, or None."""
    k = e["k"]
    if k in ("poly", "tpoly"):
        return e["d"]
    if k == "cis":
        return abs(e["w"])
    if k == "add":
        f, g = degree(e["f"]), degree(e["g"])
        return None if f is None or g is None else max(f, g)
    if k == "mul":
        f, g = degree(e["f"]), degree(e["g"])
        return None if f is None or g is None else f + g
    if k == "cplx":
        f, g = degree(e["f"]), degree(e["g"])
        return None if f is None or g is None else max(f, g)
    return None


def on_domain(e, dom, scale=1.0):
    """The expression as a callable of x in the interval."""
    a, b = dom
    return lambda x: scale * value(e, (2 * np.asarray(x) - a - b) / (b - a))
