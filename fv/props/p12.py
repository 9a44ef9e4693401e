"""P12 columns, copies and rearrangements are faithful and independent."""
from copy import deepcopy, copy as shallow
import numpy as np
from hypothesis import strategies as st
from ..gens import aspec, rspec, arr, tspec, tarr, domains, points, xpts, DENSE, zof, cheb_at, trig_at, trig_tol, cheb_tol, sup, as2d, relbad, EPS, LD, CLD, sizes, seeds
from ..harness import Group, require, fail

RULE = """Cases are coefficient arrays of one to four columns in both representations, intervals, column selections, break points
and histories of copies and in-place operations. Non-trivial: a rearranged function or copy was compared with the values of the original."""
MORE = 2                                             # quick runs: this many times the cases below
ORACLE = "the defining series of the rearranged coefficients in extended precision; snapshots of every other function in a history"


def make(c, dom, kind="cheb", **kw):
    from funpy import Fun
    return Fun(coeffs=np.copy(c, order="F"), domain=list(dom), simplify=False, **({"type": "trig"} if kind == "trig" else {}), **kw)


def coeffs_of(case):
    return arr(case["c"]) if case["kind"] == "cheb" else tarr(case["t"])


def at(c, z, kind):
    return cheb_at(c, z) if kind == "cheb" else trig_at(c, z)


def tolof(c, dom, kind):
    return cheb_tol(c, dom) if kind == "cheb" else trig_tol(c, dom) + 1e-9 * sup(c) + 1e-18


def expect(f, ref, tol, dom, x, kind, what):
    """f is a function object on dom with the values ref at x."""
    from funpy import Fun
    require(isinstance(f, Fun), "%s: is a %s", what, type(f).__name__)
    require(f.type == kind, "%s: is of type %s", what, f.type)
    require(np.array_equal(np.asarray(f.domain, float), np.asarray(dom, float)), "%s: lives on %s", what, f.domain)
    m = ref.shape[1]
    require(f.m == m, "%s: %s columns instead of %d", what, f.m, m)
    bad = relbad(as2d(f(x), x.size, m) + 0j, ref + 0j, np.broadcast_to(tol, (1, m)) + 1e-300)
    require(bad is None, "%s: %s", what, bad)


def snap(f):
    return np.copy(f.coeffs), np.copy(f.values), list(f.domain), f.eps, bool(f.ishappy), f.onefun.hscale, f.onefun.maxLength


def same(f, s, what, copied=False):
    t = snap(f)
    if copied and not s[4]:                # whether a function is resolved may be reconsidered
        s = s[:4] + (t[4],) + s[5:]
    for a, b, nm in zip(t, s, ("coefficients", "samples", "interval", "tolerance", "resolved flag", "hscale", "length limit")):
        require(np.array_equal(a, b), "%s: %s changed", what, nm)


# -- columns ---------------------------------------------------------------------------------------

def check_columns(case):
    dom, kind = case["dom"], case["kind"]
    c = coeffs_of(case)
    n, m = c.shape
    f = make(c, dom, kind, eps=case["eps"])
    x = np.array(xpts(case["t_"] + [0.3, -0.7], dom))
    F, tol = at(c, zof(x, dom), kind), tolof(c, dom, kind)
    s = snap(f)
    for i in range(m):
        g = f[i]
        expect(g, F[:, i:i + 1], tol[i], dom, x, kind, "column %d of %d" % (i, m))
        require(g.eps == f.eps, "column %d: tolerance %g instead of %g", i, g.eps, f.eps)
        require(np.array_equal(np.asarray(g.coeffs), np.asarray(f.coeffs)[:, i:i + 1]), "column %d: other coefficients", i)
    for bad in (m, m + 1, -1, -m - 1):
        try:
            f[bad]
        except Exception:
            continue
        fail("column %d of %d columns was not refused" % (bad, m))
    k = 0
    for g in f:
        expect(g, F[:, k:k + 1], tol[k], dom, x, kind, "iteration %d" % k)
        k += 1
    require(k == m, "iterating gave %d of %d columns", k, m)
    pairs = [(np.asarray(a.coeffs), np.asarray(b.coeffs)) for a in f for b in f]
    require(len(pairs) == m * m, "two nested loops over %d columns gave %d pairs", m, len(pairs))
    for q, (a, b) in enumerate(pairs):
        require(np.array_equal(a[:, 0], f.coeffs[:, q // m]) and np.array_equal(b[:, 0], f.coeffs[:, q % m]), "nested loops: pair %d is wrong", q)
    if kind == "cheb":
        a, b = sorted((case["a"] % (m + 1), case["b"] % (m + 1)))
        if a < b:
            g = f[a:b]
            expect(g, F[:, a:b], tol[a:b], dom, x, kind, "columns %d:%d" % (a, b))
            require(g.eps == f.eps, "columns %d:%d: tolerance %g instead of %g", a, b, g.eps, f.eps)
            g = f[a:b:2]
            expect(g, F[:, a:b:2], tol[a:b:2], dom, x, kind, "columns %d:%d:2" % (a, b))
        for bad in (slice(0, m + 1), slice(-1, m)):
            try:
                f[bad]
            except Exception:
                continue
            fail("columns %s of %d columns were not refused" % (bad, m))
    same(f, s, "selecting columns")
    return [kind, "m=%d" % m]


# -- stacking --------------------------------------------------------------------------------------

def check_hstack(case):
    dom, kind = case["dom"], case["kind"]
    cs = [arr(c) if kind == "cheb" else tarr(c) for c in case["parts"]]
    fs = [make(c, dom, kind, eps=e) for c, e in zip(cs, case["eps"] * len(cs))]
    x = np.array(xpts(DENSE, dom))
    z = zof(x, dom)
    s = [snap(f) for f in fs]
    h = np.hstack(fs)
    ref = np.hstack([at(c, z, kind) for c in cs])
    tol = np.hstack([2 * tolof(c, dom, kind) for c in cs])
    expect(h, ref, tol, dom, x, kind, "stack of %s" % [c.shape for c in cs])
    require(bool(h.ishappy) or not all(bool(f.ishappy) for f in fs), "stack: resolved flag %s of parts %s", h.ishappy, [f.ishappy for f in fs])
    require(min(f.eps for f in fs) <= h.eps <= max(f.eps for f in fs), "stack: tolerance %g of parts %s", h.eps, [f.eps for f in fs])
    top = max(c.shape[0] for c in cs)
    require(h.n == top or kind == "trig" and h.n == top + 1 - top % 2, "stack: length %d of parts %s", h.n, [c.shape[0] for c in cs])
    for f, t in zip(fs, s):
        same(f, t, "stacking")
    hs = snap(h)
    for f in fs:
        f *= 2.0
        f += 1.0
    same(h, hs, "changing a part in place: the stack")
    ps = [snap(f) for f in fs]
    h += 1.5
    h *= -1.0
    for f, t in zip(fs, ps):
        same(f, t, "changing the stack in place: a part")
    other = make(cs[0], [dom[0] - 1.0, dom[1] + 0.5], kind)
    for mix in ([fs[0], other], [other] + fs):
        try:
            np.hstack(mix)
        except Exception:
            continue
        fail("stacking functions on %s and %s was not refused" % (mix[0].domain, mix[1].domain))
    return ["parts=%d" % len(cs), kind, "lengths" if len({c.shape[0] for c in cs}) > 1 else "length"]


# -- flips, restriction ----------------------------------------------------------------------------

def check_flip(case):
    dom = case["dom"]
    c = arr(case["c"])
    n, m = c.shape
    f = make(c, dom)
    s = snap(f)
    z = np.array(DENSE, dtype=float)
    tol = cheb_tol(c, (-1, 1)) + 1e-300
    g = f.flipud()
    bad = relbad(as2d(g(z), z.size, m), cheb_at(c, -z), tol)
    require(bad is None, "flipud: %s", bad)
    g = f.fliplr()
    bad = relbad(as2d(g(z), z.size, m), cheb_at(c, z)[:, ::-1], tol[::-1])
    require(bad is None, "fliplr: %s", bad)
    b = np.array([-1.0] + sorted(case["breaks"]) + [1.0]) if case["full"] else np.array(sorted(case["breaks"] + [-0.5, 0.75]))
    if np.min(np.diff(b)) > 1e-3:
        # the pieces, all columns of the first piece first
        g = f.restrict(b)
        k = b.size - 1
        ref, t = [], []
        for i in range(k):
            zz = 0.5 * (LD(b[i]) * (1 - z.astype(LD)) + LD(b[i + 1]) * (1 + z.astype(LD)))
            ref.append(cheb_at(c, zz))
        require(g.m == m * k, "restriction of %d columns to %d pieces has %d columns", m, k, g.m)
        bad = relbad(as2d(g(z), z.size, m * k), np.hstack(ref), np.tile(64 * tol + 64 * n * EPS * sup(c), k) * (1 + np.log(n)))
        require(bad is None, "restriction to %s: %s", b.tolist(), bad)
    else:
        k = 0
    for bad in ([0.5, -0.5], [-1.5, 0.0], [0.0, 1.5], [0.2, 0.2]):
        try:
            f.restrict(bad)
        except Exception:
            continue
        fail("restriction to %s was not refused" % (bad,))
    same(f, s, "flips and restriction")
    for nm, op in (("real", np.real), ("conj", np.conj), ("imag", np.imag)):
        h = op(f)
        x = np.array(xpts(DENSE, dom))
        ref = cheb_at(c, zof(x, dom))
        expect(h, 0 * ref if nm == "imag" else ref, cheb_tol(c, dom), dom, x, "cheb", nm)
    return ["pieces=%d" % k, "m=%d" % m]


# -- rebuilding ------------------------------------------------------------------------------------

def check_rebuild(case):
    import funpy
    from funpy import Fun
    from funpy.fun import asfun, zeros, ones
    dom, kind = case["dom"], case["kind"]
    c = coeffs_of(case)
    n, m = c.shape
    f = make(c, dom, kind)
    x = np.array(xpts(DENSE, dom))
    F, tol = at(c, zof(x, dom), kind), tolof(c, dom, kind)
    s = snap(f)
    v = f.flatten()
    require(v.shape == (n * m,), "flattened %d x %d coefficients have shape %s", n, m, v.shape)
    require(np.array_equal(v, np.asarray(f.coeffs).T.reshape(-1)), "flattening does not list the coefficients column by column")
    g = Fun.from_coeffs(v.copy(), m, type=kind, domain=list(dom))
    expect(g, F, tol, dom, x, kind, "rebuilt from its coefficients")
    require(np.array_equal(g.coeffs, f.coeffs), "rebuilding from coefficients changed them")
    w = np.copy(f.values, order="F")
    g = Fun.from_values(w, m, type=kind, domain=list(dom))
    expect(g, F, tol + 64 * n * EPS * sup(c), dom, x, kind, "rebuilt from its samples")
    z0, o0 = np.zeros_like(f), np.ones_like(f)
    t0 = np.full(m, 1e-14)
    expect(z0, 0 * F, 0 * tol, dom, x, kind, "zeros_like")
    expect(o0, 0 * F + 1, t0, dom, x, kind, "ones_like")
    expect(zeros(m, domain=list(dom)), 0 * F.real, 0 * tol, dom, x, "cheb", "zeros")
    expect(ones(m, domain=list(dom)), 0 * F.real + 1, t0, dom, x, "cheb", "ones")
    require(asfun(f) is f and asfun(f, type=kind) is f, "asfun to the own type made another object")
    same(f, s, "rebuilding")
    a = case["a"]
    h = asfun(a, domain=list(dom))
    expect(h, np.full((x.size, 1), a), np.full(1, 1e-15 * (1 + abs(a))), dom, x, "cheb", "asfun(%r)" % a)
    if kind == "trig" and case["t"]["kind"] == "real":
        h = asfun(f, type="cheb")
        expect(h, F.real, 1e-11 * sup(c) + 1e-15, dom, x, "cheb", "as Chebyshev function")
        require(h.ishappy, "a Fourier function of length %d is not resolved as Chebyshev function", n)
        if True:
            g = asfun(h, type="trig")
            expect(g, F, 5e-6 * sup(c) + 1e-12, dom, x, "trig", "as Chebyshev and as Fourier function again")
        same(f, s, "conversion")
    return [kind, "m=%d" % m]


def check_equal(case):
    dom, kind = case["dom"], case["kind"]
    c = coeffs_of(case)
    n, m = c.shape
    f = make(c, dom, kind)
    require(bool(f == f) and bool(f == make(c, dom, kind)), "a function is not equal to one with the same data")
    g = make(c, dom, kind)
    k, j = case["a"] % n, case["b"] % m
    d = c.copy()
    d[k, j] = d[k, j] * (1 + 1e-9) + 1e-9 * (1 + np.max(np.abs(c)))
    g = make(d, dom, kind)
    require(not bool(f == g) and not bool(g == f), "functions with different coefficients are equal")
    g = make(c, [dom[0], dom[1] + 0.5], kind)
    require(not bool(f == g) and not bool(g == f), "functions on %s and %s are equal", dom, g.domain)
    g = make(np.vstack([c, 0 * c[:1]]) if kind == "cheb" else np.vstack([0 * c[:1], c, 0 * c[:1]]), dom, kind)
    require(not bool(f == g) and not bool(g == f), "functions of length %d and %d are equal", f.n, g.n)
    if n > 1:
        r = np.asfortranarray(c.real if kind == "trig" else c)
        u, w = make(r, dom, "cheb"), make(r + 0j, dom, "trig")
        if np.any(r[1:] != 0):
            require(not bool(u == w) and not bool(w == u), "a Chebyshev and a Fourier function with the same coefficients are equal")
    return [kind]


# -- histories of copies and in-place operations -----------------------------------------------------

def check_history(case):
    dom, kind = case["dom"], case["kind"]
    c = coeffs_of(case)
    m = c.shape[1]
    x = np.array(xpts(case["t_"] + [0.1], dom))
    f = make(c, dom, kind, eps=case["eps"])
    f.onefun.maxLength = 777
    pool = [[f, at(c, zof(x, dom), kind), tolof(c, dom, kind).max(), max(1e-3, float(sup(c).max()))]]
    labels = set()
    for step, (op, i, a) in enumerate(case["ops"]):
        i %= len(pool)
        p = pool[i]
        what = "step %d: %s on function %d" % (step, op, i)
        others = [(q[0], snap(q[0])) for k, q in enumerate(pool) if k != i]
        if op in ("copy", "deepcopy", "deepdeep"):
            if len(pool) >= 4:
                continue
            s = snap(p[0])
            g = np.copy(p[0]) if op == "copy" else deepcopy(p[0]) if op == "deepcopy" else deepcopy([p[0], p[0]])[0]
            require(g is not p[0] and bool(g == p[0]) and bool(p[0] == g), "%s: the copy is not equal to the original", what)
            same(p[0], s, what + ": the original")
            same(g, s, what + ": compared with the original, the copy's", True)
            pool.append([g, p[1], p[2], p[3]])
        elif op == "+=":
            p[0] += a
            p[1], p[2], p[3] = p[1] + LD(a), p[2] + 8 * EPS * (p[3] + abs(a)), p[3] + abs(a)
        elif op == "*=":
            p[0] *= a
            p[1], p[2], p[3] = p[1] * LD(a), p[2] * abs(a) + 8 * EPS * p[3] * abs(a), max(p[3] * abs(a), 1e-3)
        elif op == "prolong":
            p[0].prolong(p[0].n + 3)
        elif op == "seteps":
            p[0].seteps(10.0**(-8 - abs(a)))
        elif op == "simplify":
            p[0].simplify(eps=1e-15)
            p[2] += (1e-8 if kind == "cheb" else 1e-8) * p[3]
        elif op == "coeff":
            p[0].coeffs[:] *= 2.0                      # plain writing into the own data
            if kind == "trig":
                p[0].values[:] *= 2.0
            p[1], p[2], p[3] = p[1] * 2, p[2] * 2, p[3] * 2
        for g, s in others:
            same(g, s, what + ": another function's")
        labels.add(op)
    for k, (g, ref, tol, size) in enumerate(pool):
        expect(g, ref, tol + (1e-9 * size if kind == "trig" else 1e-13 * size), dom, x, kind, "function %d at the end" % k)
    return sorted(labels) + [kind] if len(pool) > 1 else []


fd = st.fixed_dictionaries
kinds = st.sampled_from(["cheb", "trig"])
C = aspec(n=sizes(30), m=st.integers(1, 4))
T = tspec(n=st.one_of(sizes(24), sizes(24), sizes(90)), m=st.integers(1, 3), kinds=("real", "real", "cplx", "mixed"))
eps = st.sampled_from([2.220446049250313e-16, 1e-14, 1e-10, 1e-7])
GROUPS = [
    Group("columns", fd({"kind": kinds, "c": C, "t": T, "dom": domains, "t_": points, "eps": eps, "a": st.integers(0, 9), "b": st.integers(0, 9)}), check_columns, 1500),
    Group("trig-hstack", fd({"kind": st.just("trig"), "parts": st.lists(tspec(n=sizes(20), m=st.integers(1, 3), kinds=("real", "real", "cplx", "mixed")), min_size=1, max_size=4), "dom": domains,
                             "eps": st.lists(eps, min_size=1, max_size=3)}), check_hstack, 600),
    Group("hstack", fd({"kind": st.just("cheb"), "parts": st.lists(aspec(n=sizes(20), m=st.integers(1, 3)), min_size=1, max_size=4), "dom": domains, "eps": st.lists(eps, min_size=1, max_size=3)}), check_hstack, 800),
    Group("flip", fd({"c": C, "dom": domains, "breaks": st.lists(st.integers(-9, 9).map(lambda v: v / 10 + 0.013), max_size=2, unique=True), "full": st.booleans()}), check_flip, 1200),
    Group("rebuild", fd({"kind": kinds, "c": C, "t": T, "dom": domains, "a": st.floats(-9, 9)}), check_rebuild, 1000),
    Group("equal", fd({"kind": kinds, "c": C, "t": T, "dom": domains, "a": st.integers(0, 40), "b": st.integers(0, 9)}), check_equal, 800),
    Group("history", fd({"kind": kinds, "c": C, "t": T, "dom": domains, "t_": points, "eps": eps,
                         "ops": st.lists(st.tuples(st.sampled_from(["copy", "copy", "deepcopy", "deepcopy", "deepdeep", "+=", "*=", "prolong", "seteps", "simplify", "coeff"]),
                                                   st.integers(0, 5), st.sampled_from([1.0, -0.5, 2.0, 0.25])).map(list), min_size=2, max_size=9)}), check_history, 2500, weight=2),
]
