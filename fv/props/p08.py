"""P08 inner products and norms are the integrals they denote."""
import numpy as np
from hypothesis import strategies as st
from ..gens import aspec, arr, tspec, tarr, domains, zof, xpts, DENSE, cheb_at, trig_at, freqs, sup, as2d, relbad, EPS, LD, CLD, sizes
from ..harness import Group, require, fail
from .p06 import der as cheb_der
from .p07 import der as trig_der

RULE = """Cases are one or two coefficient arrays (Chebyshev or Fourier; lengths, columns, scales), an interval, a norm index and
scale factors. Non-trivial: the functions involved are not identically zero and an integral quantity was compared."""
ORACLE = "exact integrals of products of basis functions; Gauss-Legendre / trapezoidal quadrature; norm and inner-product laws"


def make(c, dom, kind="cheb"):
    from funpy import Fun
    return Fun(coeffs=np.copy(c, order="F"), domain=list(dom), type=kind, simplify=False)


def snap(f):
    return np.copy(f.coeffs), tuple(f.domain)


def same(f, s):
    return np.array_equal(f.coeffs, s[0]) and tuple(f.domain) == s[1]


def gram(cf, cg, half):
    """Matrix of integrals of products of Chebyshev columns."""
    i = np.arange(cf.shape[0])[:, None]
    j = np.arange(cg.shape[0])[None, :]

    def I(k):
        return np.where(k % 2 == 0, LD(2) / (1 - LD(1) * k * k), LD(0))
    K = (I(i + j) + I(abs(i - j))) / 2
    return cf.T.astype(LD) @ K @ cg.astype(LD) * half


def pad_trig(c, N):
    """Symmetric coefficients -N..N of a Fourier array (unpaired mode split evenly)."""
    n = c.shape[0]
    out = np.zeros((2 * N + 1, c.shape[1]), dtype=CLD)
    for k, row in zip(freqs(n), c.astype(CLD)):
        if n % 2 == 0 and k == -(n // 2):
            out[N + k] += row / 2
            out[N - k] += row / 2
        else:
            out[N + k] += row
    return out


def tgram(cf, cg, half):
    N = max(cf.shape[0], cg.shape[0])
    return pad_trig(cf, N).T @ np.conj(pad_trig(cg, N)) * 2 * half


def half_of(dom):
    return (LD(dom[1]) - LD(dom[0])) / 2


def pair(case):
    kind = case["kind"]
    if kind == "cheb":
        cf, cg = arr(case["cf"]), arr(case["cg"])
    else:
        cf, cg = tarr(case["tf"]), tarr(case["tg"])
    return kind, cf, cg


def check_inner(case):
    dom = case["dom"]
    kind, cf, cg = pair(case)
    if case["same"]:
        cg = cf.copy(order="F")
    f = make(cf, dom, kind)
    g = f if case["same"] and case["alias"] else make(cg, dom, kind)
    s1, s2 = snap(f), snap(g)
    half = half_of(dom)
    mf, mg = cf.shape[1], cg.shape[1]
    got = np.asarray(np.inner(f, g))
    require(got.size == mf * mg, "inner product has %d entries for %d and %d columns", got.size, mf, mg)
    got = got.reshape(mf, mg)
    ref = gram(cf, cg, half) if kind == "cheb" else tgram(cf, cg, half)
    n = cf.shape[0] + cg.shape[0]
    tol = float(half) * (np.outer(sup(cf), sup(cg)) * EPS * 64 * n) + 1e-300
    if kind == "trig" and not (f.isreal and g.isreal):
        tol = tol + float(half) * 2e-9 * np.outer(sup(cf), sup(cg))
    bad = relbad(got + 0j, ref.astype(complex), tol)
    require(bad is None, "inner product: %s", bad)
    if kind == "cheb" or (case["tf"]["kind"] == "real" and (case["same"] or case["tg"]["kind"] == "real")):
        require(not np.iscomplexobj(got), "inner product of real functions is complex")
    back = np.asarray(np.inner(g, f)).reshape(mg, mf)
    bad = relbad(np.conj(back.T) + 0j, got + 0j, tol)
    require(bad is None, "inner product is not (conjugate) symmetric: %s", bad)
    if kind == "cheb" and case["same"]:
        require(np.all(np.diag(got) >= 0), "inner product of a function with itself is %s", np.diag(got))
    if mf == mg:
        d = np.asarray(np.dot(f, g))
        require(d.size == 1, "dot product has %d entries", d.size)
        bad = relbad(d.reshape(1) + 0j, np.atleast_1d(np.trace(ref)).astype(complex), np.trace(tol))
        require(bad is None, "dot product: %s", bad)
        from funpy.norms import sprod
        for d, sc in ((sprod(f, g), 1.0), (sprod(f, g, scale=case["a"]), float(case["a"]) ** 2)):
            require(np.size(d) == 1 and not np.iscomplexobj(d), "scalar product is %r", d)
            bad = relbad(np.asarray(d).reshape(1) + 0j, np.atleast_1d(np.trace(ref).real * sc).astype(complex), 4 * sc * np.trace(tol) + 1e-300)
            require(bad is None, "scalar product: %s", bad)
    a = case["a"]
    if a:
        s = np.asarray(np.inner(a * f, g)).reshape(mf, mg)
        bad = relbad(s + 0j, a * got + 0j, 4 * abs(a) * tol + 1e-300)
        require(bad is None, "inner product is not homogeneous: %s", bad)
    if mf == mg:
        h = f + g
        lhs = np.asarray(np.inner(h, g)).reshape(mf, mg)
        rhs = got + np.asarray(np.inner(g, g)).reshape(mg, mg)
        loose = 0 if f.type == "cheb" or (f.isreal and g.isreal) else 4e-9
        t2 = float(half) * np.outer(sup(cf) + sup(cg), sup(cg)) * (EPS * 256 * n + loose) + 1e-300
        bad = relbad(lhs + 0j, rhs + 0j, t2)
        require(bad is None, "inner product is not additive: %s", bad)
    require(same(f, s1) and same(g, s2), "an inner product changed its arguments")
    dom2 = [dom[0], dom[1] + 0.5]
    for op in (np.inner, np.dot):
        try:
            op(f, make(cg, dom2, kind))
        except ValueError:
            continue
        fail("%s of functions on %s and %s was not refused" % (op.__name__, dom, dom2))
    return [kind, "m=%d,%d" % (min(mf, 2), min(mg, 2)), "even" if cf.shape[0] % 2 == 0 else "odd"] if cf.any() and cg.any() else []


def check_innerw(case):
    import funpy
    dom = case["dom"]
    cf, cg = arr(case["cf"]), arr(case["cg"])
    m = min(cf.shape[1], cg.shape[1])
    cf, cg = np.asfortranarray(cf[:, :m]), np.asfortranarray(cg[:, :m])
    f, g = make(cf, dom), make(cg, dom)
    s1, s2 = snap(f), snap(g)
    half = half_of(dom)
    got = np.asarray(funpy.innerw(f, g))
    require(got.size == m, "weighted inner product has %d entries for %d columns", got.size, m)
    # integral of f g / sqrt(1 - z^2) by the Gauss-Chebyshev rule (exact)
    N = cf.shape[0] + cg.shape[0]
    z = np.cos(np.longdouble("3.14159265358979323846264338327950288") * (2 * np.arange(N) + 1) / (2 * N))
    ref = (cheb_at(cf, z) * cheb_at(cg, z)).sum(axis=0) * np.longdouble("3.14159265358979323846264338327950288") / N * half
    tol = float(half) * (sup(cf) * sup(cg)) * EPS * 64 * (N + 4) + 1e-300
    bad = relbad(got.reshape(m), ref.astype(float), tol)
    require(bad is None, "weighted inner product: %s", bad)
    w = np.asarray(funpy.norm(f, weighted=True))
    ref2 = np.sqrt(float(np.sum((cf.astype(LD)**2).sum(axis=0) + cf[0].astype(LD)**2) * np.arccos(LD(-1)) / 2 * half))
    bad = relbad(w.reshape(1), np.array([ref2]), ref2 * 1e-13 * (4 + cf.shape[0]) + 1e-300)
    require(bad is None, "weighted norm: %s", bad)
    require(same(f, s1) and same(g, s2), "a weighted inner product changed its arguments")
    return ["m=1" if m == 1 else "m>1"] if cf.any() and cg.any() else []


def one(case, definite):
    kind = case["kind"]
    if kind == "cheb":
        c = arr(case["cf"])
        z = 0
    else:
        c = tarr(case["tf"])
        z = int(np.where(freqs(c.shape[0]) == 0)[0][0])
    if definite:                       # columns of one sign
        s = sup(c)
        c[z] = 0
        c[z] = np.where(np.arange(c.shape[1]) % 2 == 0, 1.0, -1.0) * (1.25 * sup(c) + 0.1 * s)
    return kind, c


def integral_of_power(c, kind, half, p):
    """Integral of |f|^p over all columns, for even p or columns of one sign (extended precision)."""
    n = c.shape[0]
    if kind == "cheb":
        q, w = np.polynomial.legendre.leggauss(p * n // 2 + 2)
        v = cheb_at(c, q)
        return float((np.abs(v)**p * w[:, None]).sum() * half)
    N = p * n + 3
    q = 2 * np.arange(N, dtype=LD) / N - 1
    v = trig_at(c, q)
    return float((np.abs(v)**p).sum() * 2 * half / N)


def check_norm(case):
    import funpy
    dom, p = case["dom"], case["p"]
    definite = p % 2 == 1
    kind, c = one(case, definite)
    if kind == "trig" and p != 2 and case["tf"]["kind"] != "real":
        c = tarr(dict(case["tf"], kind="real"))
        if definite:
            kind, c = one(dict(case, tf=dict(case["tf"], kind="real")), True)
    f = make(c, dom, kind)
    s1 = snap(f)
    half = half_of(dom)
    n, m = c.shape
    L = float(2 * half)
    S = float(np.sum(sup(c)**p))
    rel = (1e-11 if kind == "cheb" else 4e-9) * (1 + p)
    Ip = integral_of_power(c, kind, half, p)
    tol = rel * L * S + 1e-300

    def power(v, what):
        v = np.asarray(v)
        require(v.size == 1, "%s has %d entries", what, v.size)
        v = v.reshape(1)
        require(not np.iscomplexobj(v) or p == 3, "%s of a function is complex (%s)", what, v)
        require(v[0].real >= 0, "%s is negative (%s)", what, v)
        return float(v[0].real)
    v = power(f.norm(p) if case["method"] else funpy.norm(f, p) if p != 2 or case["kw"] else funpy.norm(f), "norm")
    require(abs(v**p - Ip) <= tol, "%d-norm is %r instead of %r", p, v, Ip**(1 / p))
    v2 = float(np.real(np.asarray(funpy.norm2(f, p)).reshape(1)[0]))
    require(abs(v2 - Ip) <= tol, "integral of the %d-th power is %r instead of %r", p, v2, Ip)
    require(same(f, s1), "a norm changed its argument")
    a = case["a"]
    if a:
        w = float(np.real(funpy.norm(a * f, p)))
        require(abs(w**p - abs(a)**p * Ip) <= 2 * abs(a)**p * tol + 1e-300, "norm is not homogeneous: %r for factor %r and %r", w, a, v)
    if Ip > 1e-6 * L * S:
        u = funpy.normalize(f, p)
        w = float(np.real(funpy.norm(u, p)))
        require(abs(w - 1) <= 1e-4 if p != 2 else abs(w - 1) < 1e-6, "normalised function has norm %r", w)
        x = xpts(DENSE, dom)
        bad = relbad(as2d(u(x), x.size, m) * v + 0j, as2d(f(x), x.size, m) + 0j, 1e-10 * sup(c) * (1 + n)**2 + 1e-300)
        require(bad is None, "normalising is not a scaling: %s", bad)
    if kind == "cheb" and p == 2:
        w = np.asarray(funpy.normh(f)).reshape(-1)
        require(w.size == 1 and abs(float(w[0])**2 - Ip) <= tol, "normh is %s instead of %r", w, Ip**0.5)
    for bad in (0, -1):
        try:
            funpy.norm(f, bad)
        except ValueError:
            continue
        fail("norm with p=%d was not refused" % bad)
    return [kind, "p=%d" % p, "m=1" if m == 1 else "m>1"] if c.any() else []


def check_inf(case):
    import funpy
    dom = case["dom"]
    kind, c = one(case, False)
    if kind == "trig":
        c = tarr(dict(case["tf"], kind="real"))
    f = make(c, dom, kind)
    s1 = snap(f)
    v = np.asarray(funpy.norm(f, np.inf))
    require(same(f, s1), "a norm changed its argument")
    require(v.size == 1, "the infinity norm has %d entries", v.size)
    v = float(v.reshape(1)[0])
    n = c.shape[0]
    N = 40 * (n + 1)
    th = np.arccos(LD(-1)) * np.arange(N + 1, dtype=LD) / N
    M = float(np.max(np.abs(cheb_at(c, np.cos(th)) if kind == "cheb" else trig_at(c, 2 * np.arange(N, dtype=LD) / N - 1))))
    d = n - 1 if kind == "cheb" else n
    up = M / np.cos(d * np.pi / (2 * N))**(1 if kind == "cheb" else 2)
    slack = 1e-9 * float(np.max(sup(c))) + 1e-300
    if kind == "trig":
        slack = slack * 10
    require(M - slack <= v <= up + slack, "infinity norm is %r, the function reaches between %r and %r", v, M, up)
    return [kind, "m=1" if f.m == 1 else "m>1"] if c.any() else []


def check_laws(case):
    import funpy
    dom = case["dom"]
    kind, cf, cg = pair(case)
    m = min(cf.shape[1], cg.shape[1])
    cf, cg = np.asfortranarray(cf[:, :m]), np.asfortranarray(cg[:, :m])
    f, g = make(cf, dom, kind), make(cg, dom, kind)
    nf, ng, ns = (float(np.real(funpy.norm(u))) for u in (f, g, f + g))
    L = dom[1] - dom[0]
    slack = 1e-7 * np.sqrt(L * (np.sum(sup(cf)**2) + np.sum(sup(cg)**2))) + 1e-300
    require(ns <= nf + ng + slack and ns >= abs(nf - ng) - slack, "triangle inequality: %r, %r, sum %r", nf, ng, ns)
    ip = np.asarray(np.inner(f, g)).reshape(m, m)
    t = abs(np.trace(ip))
    require(t <= nf * ng + 1e-9 * L * np.sum(sup(cf) * sup(cg)) + 1e-300, "Cauchy-Schwarz: |<f,g>| = %r > %r * %r", t, nf, ng)
    return [kind] if cf.any() and cg.any() else []


def check_sobolev(case):
    import funpy
    dom, k, p = case["dom"], case["k"], case["p"]
    kind, c = one(case, False)
    if kind == "trig" and p != 2:
        c = tarr(dict(case["tf"], kind="real"))
    f = make(c, dom, kind)
    s1 = snap(f)
    half = half_of(dom)
    n = c.shape[0]
    tot, size, d = 0.0, 0.0, c
    L = float(2 * half)
    for i in range(k + 1):
        di = np.asarray(d)
        tot += integral_of_power(di, kind, half, p) / float(half)**(i * p)
        growth = float(np.prod([(n**2 - j**2 + 1.0) / (2 * j + 1) for j in range(min(i, n))])) if kind == "cheb" else (np.pi * n)**i
        size += L * (growth / float(half)**i)**p * float(np.sum(sup(c)**p))
        d = cheb_der(np.asarray(d)) if kind == "cheb" else trig_der(np.asarray(d), 1)
    if case["form"] == "wkp":
        v = funpy.wkpnorm(f, p=p, k=k)
    else:
        v = (funpy.h1norm if k == 1 else funpy.h2norm)(f, p=p) if k in (1, 2) else funpy.wkpnorm(f, p, k)
    v = np.asarray(v).reshape(-1)
    require(v.size == 1, "Sobolev norm has %d entries", v.size)
    require(abs(float(np.real(v[0]))**p - tot) <= (1e-10 if kind == "cheb" else 1e-8) * size + 1e-300, "Sobolev norm (k=%d, p=%d) is %r instead of %r", k, p, v[0], tot**(1 / p))
    require(same(f, s1), "a Sobolev norm changed its argument")
    return [kind, "k=%d" % k, "p=%d" % p] if c.any() else []


def check_sturm(case):
    import funpy
    dom = case["dom"]
    c = arr(dict(case["cf"], m=1)) if "list" not in case["cf"] else np.asfortranarray(arr(case["cf"])[:, :1])
    f = make(c, dom)
    nrm = float(funpy.norm(f))
    n = c.shape[0]
    left = float(cheb_at(c, [-1.0])[0, 0])
    dleft = float(cheb_at(cheb_der(c), [-1.0])[0, 0])
    size = float(sup(c)[0])
    dnorm = float(funpy.norm(np.diff(f)))
    lab = []
    if dnorm > 1e-6 and size:
        if abs(dleft) > 1e-9 * size * n**3:
            v = float(np.asarray(funpy.sturm_norm(f)).reshape(-1)[0])
            require(abs(v - np.sign(dleft) * nrm) <= 1e-12 * nrm, "sturm norm is %r for norm %r and slope %r at the left end", v, nrm, dleft)
            lab.append("slope")
        if abs(left) > 1e-10 * size * n:
            v = float(np.asarray(funpy.sturm_norm_alt(f)).reshape(-1)[0])
            require(abs(v - np.sign(left) * nrm) <= 1e-12 * nrm, "alternative sturm norm is %r for norm %r and value %r at the left end", v, nrm, left)
            lab.append("value")
    return lab


def check_functional(case):
    """The integration functional of f, discretised with enough points, gives the integral of f g."""
    from funpy import Functional
    dom = case["dom"]
    cf, cg = arr(case["cf"]), arr(case["cg"])
    m = min(cf.shape[1], cg.shape[1])
    cf, cg = np.asfortranarray(cf[:, :m]), np.asfortranarray(cg[:, :m])
    N = cf.shape[0] + cg.shape[0] + case["extra"]
    f, g = make(cf, dom), make(cg, dom)
    F = Functional(f, n=N)
    g.prolong(N)
    got = np.asarray(np.dot(F, g))
    ref = np.trace(gram(cf, cg, half_of(dom)))
    tol = float(half_of(dom)) * np.sum(sup(cf) * sup(cg)) * EPS * 64 * N + 1e-300
    require(got.size == 1 and abs(float(got.reshape(1)[0]) - float(ref)) <= tol, "functional gives %s instead of %r", got, float(ref))
    bad = relbad(as2d(f(xpts(DENSE, dom)), DENSE.size, m), cheb_at(cf, zof(xpts(DENSE, dom), dom)).astype(float), 1e-11 * sup(cf) * (1 + cf.shape[0]) + 1e-300)
    require(bad is None, "building the functional changed the function: %s", bad)
    return ["m=1" if m == 1 else "m>1"] if cf.any() and cg.any() else []


num = st.integers(-24, 24).map(lambda v: v / 8)
KINDS = ("real", "real", "cplx", "mixed")
base = {"kind": st.sampled_from(["cheb", "trig"]), "cf": aspec(n=sizes(40)), "cg": aspec(n=sizes(40)),
        "tf": tspec(kinds=KINDS), "tg": tspec(kinds=KINDS), "dom": domains, "a": num}


def fd(*keys, **extra):
    return st.fixed_dictionaries(dict({k: base[k] for k in keys}, **extra))


GROUPS = [
    Group("inner", fd("kind", "cf", "cg", "tf", "tg", "dom", "a", same=st.booleans(), alias=st.booleans()), check_inner, 5000, weight=2),
    Group("innerw", fd("cf", "cg", "dom"), check_innerw, 2000),
    Group("norm", fd("kind", "cf", "tf", "dom", "a", p=st.sampled_from([1, 2, 2, 3, 4]), method=st.booleans(), kw=st.booleans()), check_norm, 2500, weight=2),
    Group("inf", fd("kind", "cf", "tf", "dom"), check_inf, 600),
    Group("laws", fd("kind", "cf", "cg", "tf", "tg", "dom"), check_laws, 800),
    Group("sobolev", fd("kind", "cf", "tf", "dom", k=st.sampled_from([1, 2, 3]), p=st.sampled_from([2, 2, 2, 4]), form=st.sampled_from(["wkp", "h"])), check_sobolev, 1200),
    Group("sturm", fd("cf", "dom"), check_sturm, 800),
    Group("functional", fd("cf", "cg", "dom", extra=st.integers(0, 5)), check_functional, 1200),
]
