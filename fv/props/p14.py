"""P14 periodic shift, convolution and nonlocal integrals."""
import numpy as np
from hypothesis import strategies as st
from ..gens import tspec, tarr, domains, points, xpts, DENSE, zof, trig_at, trig_tol, freqs, sup, as2d, relbad, EPS, LD, CLD, PI, sizes
from ..harness import Group, require, fail
from .p07 import make, consistent

RULE = """Cases are Fourier coefficient arrays (even/odd length, real, complex or mixed columns, scale), shifts (or chains of shifts),
pairs of functions for convolution and the nonlocal product, and intervals. Non-trivial: the function(s) are not identically zero
and the result was compared at the evaluation points."""
MORE = 4                                             # quick runs: this many times the cases below
ORACLE = "extended-precision mode-by-mode shift, convolution and product; trapezoidal convolution integral of the operands' own values"


def val(f, x):
    return as2d(f(x), x.size, f.m) + 0j


def kept(f, x, v, s, what):
    """An operand may change its representation but not its values."""
    bad = relbad(val(f, x), v, 1e-13 * (1 + f.n) * s + 1e-300)
    require(bad is None, "%s changed its operand: %s", what, bad)


def unpaired_free(c):
    c = c.copy(order="F")
    if c.shape[0] % 2 == 0:
        c[0] = 0
    return c


def loose(kind, s):
    """Imaginary parts below ~3e-10 of the size may be dropped from a complex column."""
    return 2e-9 * s * (kind != "real") + 1e-18 * (kind != "real")


def isreal(c):
    t = c[1:] if c.shape[0] % 2 == 0 else c
    z = np.array([np.array_equal(np.conj(t[::-1, j]), t[:, j]) for j in range(c.shape[1])])
    return z & (c[0].imag == 0 if c.shape[0] % 2 == 0 else True)


def check_roll(case):
    dom, kind = case["dom"], case["c"]["kind"]
    c = unpaired_free(tarr(case["c"])) * case["mag"]
    f = make(c, dom)
    m, n = f.m, f.n
    s = sup(c)
    x = np.concatenate((xpts(DENSE, dom), xpts(case["t"], dom)))
    z = zof(x, dom)
    v0 = val(f, x)
    g, total = f, LD(0)
    for a in case["shifts"]:
        g = np.roll(g, a)
        total += LD(a)
    require(g.type == "trig" and list(g.domain) == list(dom), "a shifted function has another kind or interval")
    require(g.n == n and g.m == m, "a shifted function has shape %s instead of %s", g.shape, (n, m))
    k = freqs(n).astype(LD)[:, None]
    ph = PI * k * total
    ref = trig_at(c.astype(CLD) * (np.cos(ph) - 1j * np.sin(ph)).astype(CLD), z).astype(complex)
    amax = sum(abs(a) for a in case["shifts"])
    tol = trig_tol(c, dom) + 64 * EPS * (1 + amax) * np.sum(np.abs(c) * (1 + np.abs(freqs(n))[:, None]) ** 1, axis=0) * 4 \
        + 1e-14 * (1 + n) * s + loose(kind, s) + 1e-300
    bad = relbad(val(g, x), ref, tol)
    require(bad is None, "function shifted by %s: %s", case["shifts"], bad)
    r = isreal(c)
    require(np.all(np.atleast_1d(g.isReal)[r]), "a shifted real column is reported complex")
    consistent(g, dom, "shifted function")
    kept(f, x, v0, s, "roll")
    return ["even" if n % 2 == 0 else "odd", "m=1" if m == 1 else "m>1", kind, "chain" if len(case["shifts"]) > 1 else "single"] if c.any() else []


def check_conv(case):
    h = case["half"]
    dom = [-h, h] if case["op"] == "conv" else case["dom"]
    cf, cg = unpaired_free(tarr(case["f"])) * case["mag"][0], unpaired_free(tarr(case["g"])) * case["mag"][1]
    kinds = (case["f"]["kind"], case["g"]["kind"])
    f = make(cf, dom)
    g = f if case["same"] else make(cg, dom)
    if case["same"]:
        cg = cf
    x = np.concatenate((xpts(DENSE, dom), xpts(case["t"], dom)))
    z = zof(x, dom)
    v = val(f, x), val(g, x)
    N = max(cf.shape[0], cg.shape[0]) // 2 + 1

    def pad(c):
        o = np.zeros((2 * N + 1, 1), dtype=CLD)
        o[N + freqs(c.shape[0])] = c
        return o
    fac = LD(2) * LD(h) if case["op"] == "conv" else LD(1)
    r = pad(cf) * pad(cg) * fac
    s = float(fac) * np.sqrt(np.sum(np.abs(cf)**2)) * np.sqrt(np.sum(np.abs(cg)**2)) + 1e-300
    s1 = float(fac) * sup(cf) * sup(cg) + 1e-300
    if case["op"] == "conv":
        q = np.convolve(f, g)
    else:
        from funpy.fun import adhesion
        q = adhesion(f, g)
    require(q.type == "trig" and list(q.domain) == list(dom), "the result has another kind or interval")
    require(q.m == 1, "the result has %d columns", q.m)
    ref = trig_at(r, z).astype(complex)
    kind = "real" if set(kinds) == {"real"} else "cplx"
    # the result is simplified: dropped modes are below the tolerance to the 2/3 power relative to the largest
    big = float(np.max(np.abs(r)))
    tol = 1e-13 * (1 + N) * s1 + 5e-10 * big + loose(kind, s1) + trig_tol(np.asarray(r, complex), dom)
    bad = relbad(val(q, x), ref, tol)
    require(bad is None, "%s of lengths %d and %d: %s", case["op"], cf.shape[0], cg.shape[0], bad)
    if kind == "real":
        require(np.all(q.isReal), "the result of two real functions is reported complex")
    kept(f, x, v[0], sup(cf), case["op"])
    kept(g, x, v[1], sup(cg), case["op"])
    if case["op"] == "conv":
        # the defining integral, from the functions' own values: int f(y) g(x - y) dy over one period
        M = 4 * N + 3
        y = -h + 2 * h * np.arange(M) / M
        fy = val(f, y)[:, 0]
        for xi, qi in zip(x[::5], val(q, x)[::5, 0]):
            w = np.mod(xi - y + h, 2 * h) - h
            I = 2 * h / M * np.sum(fy * val(g, np.clip(w, -h, h))[:, 0])
            require(abs(I - qi) <= tol + 1e-12 * (1 + N) * s1, "convolution at %r is %r, its integral %r", xi, qi, I)
        p = np.convolve(g, f)
        bad = relbad(val(p, x), val(q, x), 2 * tol)
        require(bad is None, "convolution is not commutative: %s", bad)
    par = "".join("e" if c.shape[0] % 2 == 0 else "o" for c in (cf, cg))
    return [case["op"], par, "same length" if cf.shape[0] == cg.shape[0] else "lengths differ", kind] if cf.any() and cg.any() else []


def check_parts(case):
    dom, kind = case["dom"], case["c"]["kind"]
    c = tarr(case["c"]) * case["mag"]
    f = make(c, dom)
    m, n = f.m, f.n
    s = sup(c)
    x = np.concatenate((xpts(DENSE, dom), xpts(case["t"], dom)))
    v0 = trig_at(c, zof(x, dom)).astype(complex)
    lim = trig_tol(c, dom) + 1e-14 * (1 + n) * s + loose(kind, s) + 1e-300
    for name, op in (("real", np.real), ("imag", np.imag), ("conj", np.conj)):
        g = op(f)
        require(g.type == "trig" and list(g.domain) == list(dom) and g.m == m, "%s part has another kind, interval or column count", name)
        bad = relbad(val(g, x), op(v0) + 0j, lim)
        require(bad is None, "%s of a function: %s", name, bad)
        if name != "conj":
            require(np.all(g.isReal), "%s part is reported complex", name)
        consistent(g, dom, name)
        h = np.conj(g) + 0 * f
        bad = relbad(val(h, x), np.conj(op(v0)) + 0j, 2 * lim)
        require(bad is None, "conj(%s) of a function: %s", name, bad)
    kept(f, x, v0, s + lim / (1e-13 * (1 + n)), "real/imag/conj")
    return ["even" if n % 2 == 0 else "odd", "m=1" if m == 1 else "m>1", kind] if c.any() else []


kinds = ("real", "cplx", "mixed")
one = st.just(1)
mags = st.sampled_from([1.0, 1.0, 1e-6, 1e6, 1e-13, 1e12])
shift = st.one_of(st.sampled_from([0, 1, -1, 2, 0.5, 1.0]), st.integers(-3000, 3000).map(lambda v: v / 1000), st.floats(-4, 4))
GROUPS = [
    Group("roll", st.fixed_dictionaries({"c": tspec(kinds=kinds), "shifts": st.lists(shift, min_size=1, max_size=4), "dom": domains, "t": points, "mag": mags}), check_roll, 1200),
    Group("conv", st.fixed_dictionaries({"f": tspec(m=one, kinds=("real", "real", "cplx")), "g": tspec(m=one, kinds=("real", "real", "cplx")), "same": st.sampled_from([False] * 6 + [True]),
                                         "half": st.sampled_from([1.0, np.pi, 0.5, 2.5, 7.0]), "op": st.sampled_from(["conv", "conv", "adhesion"]), "dom": domains,
                                         "mag": st.tuples(mags, mags).map(list), "t": points}), check_conv, 800),
    Group("parts", st.fixed_dictionaries({"c": tspec(kinds=kinds), "dom": domains, "t": points, "mag": mags}), check_parts, 800),
]
