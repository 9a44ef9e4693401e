"""P20 solution states behave as vectors of the product space."""
import copy
import operator
import numpy as np
from hypothesis import strategies as st
from ..gens import aspec, rspec, arr, tspec, tarr, domains, zof, xpts, DENSE, cheb_at, trig_at, sup, as2d, relbad, EPS, LD, PI, sizes
from ..harness import Group, require, fail
from .p08 import gram, tgram, half_of

RULE = """Cases are states of the four kinds (plain, continuation, two-parameter with one or two functions) made of Chebyshev or Fourier
functions (lengths, columns, interval), named parameters, further named values and weights; an operation or a history of operations
(sums, scalings, in-place forms, numpy functions, copies, normalisation, changes of length); and pairs (state, tangent).
Non-trivial: a function component was not identically zero and the operation was carried out."""
ORACLE = """the same operation on every component by itself (bitwise), a model (coefficients, numbers) of linear histories, exact inner
products of the coefficients, and snapshots of all operands"""

KINDS = ("defl", "cont", "tp", "tpc")
PARS = ("alpha", "beta")


def fun(c, case):
    from funpy import Fun
    return Fun(coeffs=np.copy(c, order="F"), domain=list(case["dom"]), type=case["type"], simplify=False)


def coeffs(spec, case):
    """Real coefficients with the case's number of columns."""
    m = case["m"]
    return arr(dict(spec["c"], m=m)) if case["type"] == "cheb" else tarr(dict(spec["t"], m=m, kind="real"))


def parts(spec, case):
    """Coefficient arrays, parameters, extras, weights of a state."""
    kind = case["kind"]
    c = [coeffs(spec["f"], case)]
    if kind == "tp":
        c.append(coeffs(spec["g"], case))
    p = [] if kind == "defl" else [spec["p"][0]] if kind == "cont" else list(spec["p"])
    if case.get("unit"):
        c, p = [a * case["unit"] for a in c], [v * case["unit"] for v in p]
    return c, p, dict(spec["extra"])


def make(spec, case, given=None):
    """The state; given collects what it is built from."""
    from funpy.vectorspaces import ContinuationState, DeflationState, TwoParameterState, TwoParContState, Parameter
    c, p, extra = parts(spec, case)
    kind = case["kind"]
    f = [fun(a, case) for a in c]
    q = [Parameter(**{n: v}) for n, v in zip(PARS, p)]
    if kind == "defl":
        s = DeflationState(u=f[0], **extra)
    elif kind == "cont":
        s = ContinuationState(a=q[0], u=f[0], **extra)
    elif kind == "tp":
        s = TwoParameterState(p1=q[0], p2=q[1], u=f[0], phi=f[1], **extra)
    else:
        s = TwoParContState(p1=q[0], p2=q[1], u=f[0], **extra)
    if given is not None:
        given += f + q
    nw = len(c) + len(p)
    if case.get("w"):
        s.weights = np.array([1.0, 2.0, 0.25, 3.0][:nw]) if case["w"] == 1 else np.array([0.5, 1.0, 4.0, 0.125][:nw])
    return s


def image(s):
    """Everything a state consists of."""
    return (type(s), [np.copy(f.coeffs) for f in s.funcs], [np.copy(f.values) for f in s.funcs], [(r.name, r.value) for r in s.reals],
            {k: float(v) for k, v in s.ns.items()}, np.copy(s.weights), [tuple(f.domain) for f in s.funcs])


def alike(a, b):
    eq = lambda x, y: x.shape == y.shape and np.array_equal(x, y)
    return (a[0] is b[0] and len(a[1]) == len(b[1]) and all(map(eq, a[1], b[1])) and all(map(eq, a[2], b[2])) and len(a[3]) == len(b[3])
            and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(a[3], b[3])) and a[4] == b[4] and np.array_equal(a[5], b[5]) and a[6] == b[6])


def where(a, b):
    eq = lambda x, y: x.shape == y.shape and np.array_equal(x, y)
    if a[0] is not b[0]:
        return "types %s, %s" % (a[0].__name__, b[0].__name__)
    for i, nm in ((1, "coefficients"), (2, "samples")):
        for k, (x, y) in enumerate(zip(a[i], b[i])):
            if not eq(x, y):
                return "%s of function %d" % (nm, k)
    for i, nm in ((3, "parameters"), (4, "other values"), (5, "weights"), (6, "intervals")):
        if not np.array_equal(a[i], b[i]) if i == 5 else a[i] != b[i]:
            return "%s %s, %s" % (nm, a[i], b[i])
    return "nothing"


def expect(s, ref, what):
    """The state s has exactly the given functions and parameter values; other attributes as the reference image."""
    fs, vs, im = ref
    require(type(s) is im[0], "%s is a %s", what, type(s).__name__)
    require(len(s.funcs) == len(fs) and len(s.reals) == len(vs), "%s has %d functions and %d parameters", what, len(s.funcs), len(s.reals))
    for i, (f, g) in enumerate(zip(s.funcs, fs)):
        require(f.type == g.type and f.coeffs.shape == g.coeffs.shape and np.array_equal(f.coeffs, g.coeffs) and np.array_equal(f.values, g.values),
                "%s: function %d differs from the operation on the function itself", what, i)
        require(tuple(f.domain) == tuple(g.domain), "%s: function %d lives on %s", what, i, f.domain)
    for r, v, (n, _) in zip(s.reals, vs, im[3]):
        require(r.name == n, "%s: parameter %s is now called %s", what, n, r.name)
        require(r.value == v or (r.value != r.value and v != v) or abs(r.value - v) <= 8 * EPS * abs(v), "%s: parameter %s is %r instead of %r", what, n, r.value, v)
    require({k: float(v) for k, v in s.ns.items()} == im[4], "%s: other values are %s instead of %s", what, dict(s.ns), im[4])
    require(np.array_equal(s.weights, im[5]), "%s: weights are %s instead of %s", what, s.weights, im[5])


def separate(h, others, what):
    """Changing h afterwards leaves the others alone."""
    ims = [image(o) for o in others]
    for f in h.funcs:
        f *= 3.0
        f += 1.0
    for r in h.reals:
        r += 1.0
    h["marker"] = 5.0
    h.weights[:] = 7.0
    for o, im in zip(others, ims):
        require(alike(image(o), im), "changing %s changes a state it was made from: %s", what, where(im, image(o)))


def value_check(h, coef, pars, case, what, size):
    """Functions and parameters of a linear combination against the coefficient model."""
    x = xpts(DENSE, case["dom"])
    z = zof(x, case["dom"])
    at = cheb_at if case["type"] == "cheb" else trig_at
    for i, (f, c) in enumerate(zip(h.funcs, coef)):
        ref = at(c, z)
        tol = 256 * EPS * (c.shape[0] + 4) * (size[i] + 1e-300)
        if case["type"] == "trig":
            tol = tol + 4e-9 * size[i]
        bad = relbad(as2d(f(x), x.size, case["m"]) + 0j, ref + 0j, tol + 1e-300)
        require(bad is None, "%s: function %d: %s", what, i, bad)
    for r, v, sz in zip(h.reals, pars, size[len(coef):]):
        require(abs(r.value - v) <= 64 * EPS * sz + 1e-300, "%s: parameter %s is %r instead of %r", what, r.name, r.value, v)


def lin(ca, a, cb, b, kind):
    n = max(ca.shape[0], cb.shape[0])
    if kind == "cheb":
        out = np.zeros((n, ca.shape[1]), dtype=LD)
        out[:ca.shape[0]] += LD(a) * ca
        out[:cb.shape[0]] += LD(b) * cb
        return out
    from .p08 import pad_trig
    N = n // 2 + 1
    return a * pad_trig(ca, N) + b * pad_trig(cb, N)


BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul}
INP = {"+=": operator.iadd, "-=": operator.isub, "*=": operator.imul}
NUM = {"s+a": lambda s, a: s + a, "a+s": lambda s, a: a + s, "s-a": lambda s, a: s - a, "a-s": lambda s, a: a - s, "s*a": lambda s, a: s * a,
       "a*s": lambda s, a: a * s, "s/a": lambda s, a: s / a, "np*": lambda s, a: np.multiply(a, s), "np-": lambda s, a: np.subtract(s, a)}
INN = {"+=a": operator.iadd, "-=a": operator.isub, "*=a": operator.imul, "/=a": operator.itruediv}
UNA = {"neg": operator.neg, "pos": operator.pos, "sq": lambda s: s**2, "square": np.square, "cos": lambda s: np.cos(s), "exp": lambda s: np.exp(s), "cube": lambda s: s**3,
       "real": np.real, "imag": np.imag, "conj": np.conj, "zeros": np.zeros_like, "ones": np.ones_like, "negative": np.negative}


def number(case):
    a = case["a"]
    return {"float": float(a), "int": int(a) or 1, "np": np.float64(a), "npint": np.int64(int(a) or 2)}[case["anum"]]


def check_ops(case):
    op = case["op"]
    s = make(case["s"], case)
    t = s if case["same"] else make(case["t"], case)
    val = lambda r: r.value
    c1, p1, _ = parts(case["s"], case)
    c2, p2, _ = parts(case["s" if case["same"] else "t"], case)
    ims, imt = image(s), image(t)
    a = number(case)
    if op in ("cos", "exp", "cube", "sq") and (max(sup(c).max() for c in c1) > 10 or max(c.shape[0] for c in c1) > 12):
        op = "neg"
    if op in ("s/a", "/=a") and a == 0:
        a = 2.0
    if op in BIN:
        f = BIN[op]
        ref = [f(x, y) for x, y in zip(s.funcs, t.funcs)], [f(val(x), val(y)) for x, y in zip(s.reals, t.reals)], ims
        h = f(s, t)
    elif op in NUM:
        f = NUM[op]
        ref = [f(x, a) for x in s.funcs], [f(val(x), a) for x in s.reals], ims
        h = f(s, a)
    elif op in UNA:
        f = UNA[op]
        ref = [f(x) for x in s.funcs], [f(np.float64(val(x))) for x in s.reals], ims
        h = f(s)
    else:
        b = t if op in INP else a
        f = INP[op] if op in INP else INN[op]
        fs = [copy.deepcopy(x) for x in s.funcs]
        ts = fs if t is s else [copy.deepcopy(x) for x in t.funcs]
        vs = [val(x) for x in s.reals]
        ws = [val(x) for x in t.reals]
        ref = [f(x, y if op in INP else a) for x, y in zip(fs, ts)], [f(np.float64(v), w if op in INP else a) for v, w in zip(vs, ws)], ims
        ids = [id(x) for x in s.funcs]
        h = f(s, b)
        require(h is s, "%s made a new state", op)
        require([id(x) for x in s.funcs] == ids, "%s replaced the function objects", op)
        expect(s, ref, op)
        if t is not s:
            require(alike(image(t), imt), "%s changed its right operand: %s", op, where(imt, image(t)))
            separate(s, [t], "the target of " + op)
        return [case["kind"], case["type"], op] if any(c.any() for c in c1) else []
    expect(h, ref, op)
    require(alike(image(s), ims), "%s changed its operand: %s", op, where(ims, image(s)))
    require(alike(image(t), imt), "%s changed its operand: %s", op, where(imt, image(t)))
    lincomb = {"+": (1, 1), "-": (1, -1), "s*a": (a, 0), "a*s": (a, 0), "s/a": (1 / a if a else 1, 0), "neg": (-1, 0), "pos": (1, 0), "np*": (a, 0), "negative": (-1, 0),
               "real": (1, 0), "conj": (1, 0), "zeros": (0, 0), "imag": (0, 0)}
    if op in lincomb:
        u, v = map(float, lincomb[op])
        cs = [lin(x, u, y, v, case["type"]) for x, y in zip(c1, c2)]
        size = [abs(u) * sup(x).max() + abs(v) * sup(y).max() + (1e-3 if op in ("zeros", "imag") else 0) for x, y in zip(c1, c2)] + [abs(u * x) + abs(v * y) for x, y in zip(p1, p2)]
        value_check(h, cs, [u * x + v * y for x, y in zip(p1, p2)], case, op, size)
    if op == "ones":
        x = xpts(DENSE, case["dom"])
        require(all(np.all(np.abs(f(x) - 1) < 1e-12) for f in h.funcs) and all(r.value == 1 for r in h.reals), "a state of ones is not")
    if op == "real":          # as in numpy, the real part of something real may share its data
        pass
    elif h is not s:
        separate(h, [s, t], "the result of " + op)
    else:
        fail("%s returned its operand", op)
    return [case["kind"], case["type"], op] if any(c.any() for c in c1) else []


def check_inner(case):
    from funpy.vectorspaces import innerw
    from funpy.norms import nnorm, sprod
    from funpy.fun import norm2
    s = make(case["s"], case)
    t = s if case["same"] else make(case["t"], case)
    w = s.weights.copy()
    c1, p1, _ = parts(case["s"], case)
    c2, p2, _ = parts(case["s" if case["same"] else "t"], case)
    ims, imt = image(s), image(t)
    half, k = half_of(case["dom"]), len(c1)
    cheb = case["type"] == "cheb"
    G = gram if cheb else tgram
    pw = [float(x * y) for x, y in zip(p1, p2)]
    ref = float(sum(w[i] * np.real(np.trace(G(x, y, half))) for i, (x, y) in enumerate(zip(c1, c2)))) + float(np.dot(w[k:], pw))
    size = sum(w[i] * float(half) * (sup(x) * sup(y)).sum() for i, (x, y) in enumerate(zip(c1, c2)))
    n = max(x.shape[0] + y.shape[0] for x, y in zip(c1, c2))
    tol = (64 * EPS * n + (0 if cheb else 4e-9)) * size + 64 * EPS * float(np.dot(w[k:], np.abs(pw))) + 1e-300
    got = np.inner(s, t)
    require(np.size(got) == 1 and abs(np.asarray(got).item() - ref) <= tol, "inner product %r instead of %r", got, ref)
    require(abs(np.asarray(np.inner(t, s)).item() - ref) <= tol or not np.array_equal(w, t.weights), "inner product is not symmetric")
    got = sprod(s, t)
    require(np.size(got) == 1 and abs(np.asarray(got).item() - ref) <= tol, "sprod %r instead of %r", got, ref)
    if cheb or case["m"] == 1:
        got = np.dot(s, t)
        require(np.size(got) == 1 and abs(np.asarray(got).item() - ref) <= tol, "dot product %r instead of %r", got, ref)
    a = case["a"]
    got = sprod(s, t, scale=a)
    require(abs(np.asarray(got).item() - a * a * ref) <= 4 * a * a * tol + 1e-300, "scaled sprod %r instead of %r", got, a * a * ref)
    if cheb:
        N = n
        z = np.cos(PI * (2 * np.arange(N) + 1) / (2 * N))
        refw = float(sum(w[i] * np.sum(cheb_at(x, z) * cheb_at(y, z)) * PI / N * half for i, (x, y) in enumerate(zip(c1, c2)))) + float(np.dot(w[k:], pw))
        for got, what, sc in ((innerw(s, t), "weighted inner product", 1), (sprod(s, t, weighted=True), "weighted sprod", 1), (sprod(s, t, weighted=True, scale=a), "scaled weighted sprod", a * a)):
            require(np.size(got) == 1 and abs(np.asarray(got).item() - sc * refw) <= 16 * sc * tol + 1e-300, "%s %r instead of %r", what, got, sc * refw)
        refn = float(sum(w[i] * np.sum(cheb_at(x, z)**2) * PI / N * half if 2 * x.shape[0] <= 2 * N else 0 for i, x in enumerate(c1))) + float(np.dot(w[k:], np.square(p1)))
        if case["same"]:
            got = nnorm(s, scale=None if case["noscale"] else a)
            r = (1 if case["noscale"] else abs(a)) * refn**0.5
            require(np.size(got) == 1 and abs(np.asarray(got).item()**2 - r * r) <= 32 * max(1, a * a) * tol + 1e-300, "weighted norm %r instead of %r", got, r)
    # p-norms
    p = case["p"] if cheb else {1: 2, 3: 4}.get(case["p"], case["p"])
    got = s.norm(p=p) if not (p == 2 and case["noscale"]) else s.norm()
    ref = sum(w[i] * float(norm2(f, p=p)) for i, f in enumerate(s.funcs)) + float(np.dot(w[k:], [abs(v)**p for v in p1]))
    require(np.size(got) == 1, "norm has %d entries", np.size(got))
    if ref > 1e-280:
        require(abs(float(got)**p - ref) <= 1e-12 * abs(ref), "%d-norm %r instead of %r", p, got, abs(ref)**(1 / p))
    if p == 2 and case["same"]:
        r2 = float(np.real(np.inner(s, s)))
        require(abs(float(got)**2 - r2) <= 4 * tol + 1e-12 * abs(r2) if r2 > 1e-25 else True, "norm %r is not the root of the inner product %r", got, r2)
    require(alike(image(s), ims) and alike(image(t), imt), "an inner product or norm changed a state")
    # normalisation
    nrm = float(got)
    u = copy.deepcopy(s)
    v = u.normalize(p=p)
    require(v is u, "normalize returns another state")
    if nrm > 1e-13 and np.isfinite(nrm):
        r = [operator.itruediv(copy.deepcopy(f), nrm) for f in s.funcs], [r.value / nrm for r in s.reals], ims
        expect(u, r, "normalised state")
        require(abs(float(u.norm(p=p)) - 1) <= 1e-8, "normalised state has norm %r", u.norm(p=p))
    elif nrm < 1e-15:
        require(alike(image(u), ims), "normalising a zero state changed it")
    require(alike(image(s), ims), "normalising a copy changed the original")
    m = s.mass()
    require(len(m) == k, "%d masses", len(m))
    from .p08 import integral_of_power
    for x, y in zip(m, c1):
        one = np.ones((1, case["m"]))
        ref = float(np.real(np.trace(G(y, one, half))))
        require(np.size(x) == 1 and abs(np.asarray(x).item() - ref) <= (64 * EPS * n + (0 if cheb else 4e-9)) * float(half) * sup(y).sum() + 1e-300, "mass %r instead of %r", x, ref)
    return [case["kind"], case["type"], "p=%d" % p, "weights" if case["w"] else "no weights"] if any(c.any() for c in c1) else []


def check_struct(case):
    from funpy.vectorspaces import ContinuationState, DeflationState, TwoParameterState, TwoParContState
    s = make(case["s"], case)
    c, p, extra = parts(case["s"], case)
    kind, m, dom = case["kind"], case["m"], list(case["dom"])
    nf = len(c)
    same = lambda f, a: f.coeffs.shape == a.shape and np.array_equal(f.coeffs, a)
    if kind == "tp":          # both functions are brought to one length
        N = max(a.shape[0] for a in c)
        require(s.u.n == N and s.phi.n == N, "lengths %d, %d for functions of lengths %s", s.u.n, s.phi.n, [a.shape[0] for a in c])
        size = [sup(a).max() for a in c] + [abs(v) for v in p]
        value_check(s, [a.astype(LD) if case["type"] == "cheb" else a for a in c], p, case, "two-parameter state", size)
        cf = [np.copy(f.coeffs) for f in s.funcs]
    else:
        require(same(s.u, c[0]), "the state's function is not the one it was made of")
        cf = c
    require(s.shape == ((s.u.n + s.phi.n if kind == "tp" else s.u.n), m), "shape %s", s.shape)
    require(len(s) == s.u.n and s.columns == nf * m and s.fshape == (nf, len(p)), "length %d, %d columns, %s", len(s), s.columns, s.fshape)
    require(s.istrig == (case["type"] == "trig") if nf == 1 else True, "istrig")
    require([r.name for r in s.reals] == list(PARS[:len(p)]) and [r.value for r in s.reals] == p, "parameters %s", s.reals)
    if kind != "defl":
        last = len(p) - 1
        require(s.cpar == PARS[last] and s.a == p[last] and s.par is s.reals[last], "continuation parameter %s = %r", s.cpar, s.a)
        if last:
            require(s.bname == PARS[0] and s.b == p[0], "second parameter %s = %r", s.bname, s.b)
    want = dict(extra, **dict(zip(PARS, p)))
    got = {k: float(v) for k, v in s.items()}
    require(got == {k: float(v) for k, v in want.items()}, "items %s instead of %s", got, want)
    require(dict(s.update_items()) == dict(zip(PARS, p)) and list(s.keys()) == list(extra), "keys %s", list(s.keys()))
    # columns: indexing, iteration, nested iteration
    colsum = [(f, j) for f in s.funcs for j in range(m)]
    for i, (f, j) in enumerate(colsum):
        for g in (s[i], s[i - nf * m]):
            require(g.m == 1 and np.array_equal(g.coeffs, f.coeffs[:, [j]]), "column %d of the state", i)
    for i in (nf * m, nf * m + 1):
        try:
            s[i]
        except IndexError:
            continue
        fail("column %d of a state with %d columns", i, nf * m)
    pairs = [(np.copy(g.coeffs), np.copy(h.coeffs)) for g in s for h in s]
    require(len(pairs) == (nf * m)**2, "%d pairs in a double loop over %d columns", len(pairs), nf * m)
    for (x, y), (i, j) in zip(pairs, [(i, j) for i in range(nf * m) for j in range(nf * m)]):
        require(np.array_equal(x, s[i].coeffs) and np.array_equal(y, s[j].coeffs), "double loop over the columns")
    # coefficient vectors
    vec = np.concatenate([a.flatten(order="F") for a in cf] + [np.asarray(p, dtype=float)])
    arr_ = np.asarray(s)
    require(arr_.shape == vec.shape and np.array_equal(arr_, vec), "coefficient vector of shape %s", arr_.shape)
    if kind == "defl":
        back = DeflationState.from_coeffs(np.asarray(vec), m, domain=dom, type=case["type"])
        require(np.array_equal(back.u.coeffs, np.real(s.u).coeffs) and tuple(back.u.domain) == tuple(s.u.domain), "the state rebuilt from its coefficients differs")
    elif kind in ("tp", "tpc"):
        cls = TwoParameterState if kind == "tp" else TwoParContState
        fl = s.flatten()
        require(np.array_equal(fl, np.concatenate([cf[0].flatten(order="F"), p])), "flattened state")
        back = cls.from_coeffs(fl, PARS[0], PARS[1], m, domain=dom, type=case["type"])
        require(np.array_equal(back.u.coeffs, np.real(s.u).coeffs) and back.a == s.a and back.b == s.b and back.cpar == s.cpar and back.bname == s.bname, "the state rebuilt from its coefficients differs")
        if kind == "tp":
            require(not back.phi.coeffs.any() and back.phi.shape == back.u.shape, "second function of the state rebuilt")
        try:
            cls.from_coeffs(np.concatenate([fl, [0.0]]) if m > 1 else fl, PARS[0], PARS[0], m, domain=dom, type=case["type"])
            fail("equal names or a wrong number of coefficients accepted")
        except (AssertionError, RuntimeError):
            pass
    # conversions between kinds keep function and values
    d = DeflationState.from_state(s)
    require(np.array_equal(d.u.coeffs, s.u.coeffs) and {k: float(v) for k, v in d.items()} == got, "plain state of the state: %s", dict(d.items()))
    d = DeflationState.from_state(s, alpha=17.5)
    require({k: float(v) for k, v in d.items()} == dict(got, alpha=17.5), "plain state with a changed value")
    for cls in (TwoParameterState, TwoParContState):
        names = ("beta", "gamma") if case["same"] else ("gamma", "alpha")
        d = cls.from_state(s, names[0], 2, names[1], -3.5)
        require({k: float(v) for k, v in d.items()} == dict(got, **{names[0]: 2.0, names[1]: -3.5}) and len(list(d.items())) == len(set(got) | set(names)),
                "two-parameter state of the state: %s", list(d.items()))
        require(np.array_equal(d.u.coeffs, s.u.coeffs) and d.b == 2 and d.a == -3.5, "two-parameter state of the state")
        separate(d, [s], "a state made from another")
        d = cls.from_fun(s.u, "q", 1, "r", 2.5)
        require(np.array_equal(d.u.coeffs, np.real(s.u).coeffs) and (d.bname, d.b, d.cpar, d.a) == ("q", 1.0, "r", 2.5), "two-parameter state of a function")
    d = DeflationState.from_fun(s.u)
    require(np.array_equal(d.u.coeffs, np.real(s.u).coeffs), "plain state of a function")
    # copies
    im = image(s)
    for cp in (copy.deepcopy(s), copy.deepcopy([s])[0], copy.copy(s)):
        require(alike(image(cp), im), "a copy differs: %s", where(im, image(cp)))
    separate(copy.deepcopy(s), [s], "a deep copy")
    two = copy.deepcopy([s, s])
    require(two[0] is two[1], "two references to one state become two states in a deep copy")
    # length changes: values stay, other attributes stay
    x = xpts(DENSE, dom)
    before = [f(x) for f in s.funcs]
    u = copy.deepcopy(s)
    n = case["n"]
    r = u.prolong(n)
    ref = [f.prolong(n) for f in copy.deepcopy(s).funcs]
    require(r is u and all(f.n == n for f in u.funcs), "lengths %s after prolonging to %d", [f.n for f in u.funcs], n)
    for f, g in zip(u.funcs, ref):
        require(np.array_equal(f.coeffs, g.coeffs), "prolonged function differs from the prolonged state")
    if n >= max(f.n for f in s.funcs):
        r = u.simplify()
        require(r is u, "simplify returns another state")
        for f, b, a in zip(u.funcs, before, c):
            lim = (1e-13 * (n + 10) + (0 if case["type"] == "cheb" else 1e-8)) * sup(a).max() + 1e-300
            require(np.all(np.abs(f(x) - b) <= lim), "prolonging and simplifying changed a function by %.3g", np.abs(f(x) - b).max())
    require([(q.name, q.value) for q in u.reals] == im[3] and {k: float(v) for k, v in u.ns.items()} == im[4], "changing the length changed parameters")
    h, k = s.happy()
    hs = [f.happy() for f in s.funcs]
    require(bool(h) == all(bool(q[0]) for q in hs) and k == max(q[1] for q in hs), "happy %s, %s for %s", h, k, hs)
    require(alike(image(s), im), "inspecting a state changed it: %s", where(im, image(s)))
    # flip and item assignment
    r = s.flip()
    require(r is s and [q.value for q in s.reals] == [-v for v in p], "flip")
    for f, g in zip(s.funcs, before):
        require(np.all(np.abs(f(x) + g) <= 1e-9 * (1e-300 + np.abs(g).max()) + 1e-300), "flip of a function")
    s["omega"] = 2.5
    require({k: float(v) for k, v in s.items()} == dict(extra, omega=2.5, **dict(zip(PARS, [-v for v in p]))), "values after setting one")
    return [kind, case["type"], "m=%d" % m] if any(a.any() for a in c) else []


def check_history(case):
    k = len(case["pool"])
    pool = [make(sp, case) for sp in case["pool"]]
    model = []
    for sp in case["pool"]:
        c, p, _ = parts(sp, case)
        model.append([[lin(a, 1.0, a, 0.0, case["type"]) for a in c], [float(v) for v in p], [sup(a).max() for a in c] + [abs(v) for v in p]])
    done = 0

    def comb(i, a, j, b):
        (ci, pi, zi), (cj, pj, zj) = model[i], model[j]
        return [[lin2(x, a, y, b, case["type"]) for x, y in zip(ci, cj)], [a * x + b * y for x, y in zip(pi, pj)], [abs(a) * x + abs(b) * y for x, y in zip(zi, zj)]]
    for op, i, j, d in case["hist"]:
        i, j, d = i % k, j % k, d % k
        if max(model[i][2] + model[j][2]) > 1e8:
            break
        ims = [image(s) for s in pool]
        a = case["a"] or 0.5
        touched = {d}
        if op in ("add", "sub"):
            sg = 1 if op == "add" else -1
            new = comb(i, 1.0, j, sg)
            pool[d] = pool[i] + pool[j] if sg == 1 else pool[i] - pool[j]
        elif op in ("scale", "divide", "neg"):
            u = a if op == "scale" else 1 / a if op == "divide" else -1.0
            new = comb(i, u, i, 0.0)
            pool[d] = a * pool[i] if op == "scale" else pool[i] / a if op == "divide" else -pool[i]
        elif op in ("iadd", "isub"):
            sg = 1 if op == "iadd" else -1
            new, touched = comb(i, 1.0, j, sg), {i}
            if sg == 1:
                pool[i] += pool[j]
            else:
                pool[i] -= pool[j]
            d = i
        elif op in ("imul", "idiv"):
            u = a if op == "imul" else 1 / a
            new, touched = comb(i, u, i, 0.0), {i}
            if op == "imul":
                pool[i] *= a
            else:
                pool[i] /= a
            d = i
        elif op == "copy":
            new = comb(i, 1.0, i, 0.0)
            pool[d] = copy.deepcopy(pool[i])
        elif op == "prolong":
            new, touched = comb(i, 1.0, i, 0.0), {i}
            pool[i].prolong(max(f.n for f in pool[i].funcs) + 1 + j)
            d = i
        elif op == "set":
            touched = {i}
            pool[i]["h%d" % j] = float(a)
            new, d = model[i], i
        elif op == "zeros":
            new = comb(i, 0.0, i, 0.0)
            new[2] = [1e-3 * z for z in model[i][2]]
            pool[d] = np.zeros_like(pool[i])
        elif op == "axpy":
            new = comb(i, 1.0, j, a)
            pool[d] = pool[i] + a * pool[j]
        model[d] = new
        done += 1
        for q in range(k):
            if q not in touched:
                require(alike(image(pool[q]), ims[q]), "step %d (%s) changed a state that takes no part: %s", done, op, where(ims[q], image(pool[q])))
        extra = float(np.finfo(float).eps)
        value_check(pool[d], model[d][0], model[d][1], case, "after step %d (%s)" % (done, op), [z * (1 + done) + extra for z in model[d][2]])
        require([r.name for r in pool[d].reals] == list(PARS[:len(pool[d].reals)]), "parameter names after %s", op)
    return ["steps=%d" % min(done, 6), case["kind"], case["type"]] if done else []


def lin2(x, a, y, b, kind):
    n = max(x.shape[0], y.shape[0])
    out = np.zeros((n, x.shape[1]), dtype=x.dtype)
    if kind == "cheb":
        out[:x.shape[0]] += LD(a) * x
        out[:y.shape[0]] += LD(b) * y
    else:
        d = (n - x.shape[0]) // 2
        out[d:n - d] += a * x
        d = (n - y.shape[0]) // 2
        out[d:n - d] += b * y
    return out


def check_mp(case):
    from funpy.vectorspaces import MoorePenroseState
    u, v = make(case["s"], case), make(case["t"], case)
    if float(v.norm()) < 1e-10:
        return []
    s = MoorePenroseState(u=u, v=v)
    w = MoorePenroseState(u=make(case["t"], case), v=make(case["s"], case))
    require(s.state is u and s.tangent is v, "parts of a pair")
    ims = [image(q) for q in (s.u, s.v, w.u, w.v)]
    a = number(case) or 2.0
    op = case["op"]
    norm = lambda q: copy.deepcopy(q).normalize()
    if op in BIN or op in NUM:
        f, b = (BIN[op], w) if op in BIN else (NUM[op], a)
        eu, ev = (f(s.u, w.u), f(s.v, w.v)) if op in BIN else (f(s.u, a), f(s.v, a))
        h = f(s, b)
    elif op in INP or op in INN:
        f = INP.get(op) or INN[op]
        s2 = copy.deepcopy(s)
        eu, ev = (f(copy.deepcopy(s.u), w.u), f(copy.deepcopy(s.v), w.v)) if op in INP else (f(copy.deepcopy(s.u), a), f(copy.deepcopy(s.v), a))
        h = f(s2, w if op in INP else a)
        require(h is s2, "%s made a new pair", op)
    elif op in ("neg", "pos", "negative", "conj"):
        f = UNA[op]
        eu, ev, h = f(s.u), f(s.v), f(s)
    else:
        f = {"real": np.real, "zeros": np.zeros_like, "ones": np.ones_like}.get(op, np.imag)
        h = f(s)
        require(type(h) is MoorePenroseState and alike(image(h.u), image(f(s.u))) and alike(image(h.v), image(f(s.v))), "%s of a pair", op)
        eu = None
    if eu is not None:
        if float(ev.norm()) > 1e-10:
            ev = norm(ev)
            require(type(h) is MoorePenroseState and alike(image(h.u), image(eu)), "%s: state of the result: %s", op, where(image(eu), image(h.u)))
            require(alike(image(h.v), image(ev)), "%s: tangent of the result: %s", op, where(image(ev), image(h.v)))
            require(abs(float(h.v.norm()) - 1) <= 1e-8, "%s: tangent has norm %r", op, h.v.norm())
    for q, im, nm in zip((s.u, s.v, w.u, w.v), ims, ("state", "tangent", "other state", "other tangent")):
        require(alike(image(q), im), "%s changed the %s: %s", op, nm, where(im, image(q)))
    for cp in (copy.deepcopy(s), copy.copy(s)):
        require(alike(image(cp.u), ims[0]) and alike(image(cp.v), ims[1]), "a copy of a pair differs")
    cp = copy.deepcopy(s)
    separate(cp.u, [s.u, s.v], "the copy of a pair")
    separate(cp.v, [s.u, s.v], "the copy of a pair")
    require(np.array_equal(np.inner(s, w), np.inner(s.u, w.u)), "inner product of pairs")
    require(np.array_equal(np.asarray(s), np.asarray(s.u)), "coefficients of a pair")
    require([np.array_equal(x.coeffs, y.coeffs) for x, y in zip(s, s.u)] == [True] * s.u.columns and len(list(s)) == s.u.columns, "columns of a pair")
    require(np.array_equal(s[0].coeffs, s.u[0].coeffs) and s.columns == s.u.columns, "attributes of a pair")
    return [case["kind"], case["type"], op]


vals = st.one_of(st.floats(-5, 5), st.sampled_from([0.0, 1.0, -2.0, 1e3]))
spec = st.fixed_dictionaries({"f": st.fixed_dictionaries({"c": rspec(n=sizes(30)), "t": tspec(n=sizes(24))}), "g": st.fixed_dictionaries({"c": rspec(n=sizes(30)), "t": tspec(n=sizes(24))}),
                              "p": st.tuples(vals, vals).map(list), "extra": st.dictionaries(st.sampled_from(["delta", "eta", "theta"]), vals, max_size=2)})
base = {"kind": st.sampled_from(KINDS), "type": st.sampled_from(["cheb", "cheb", "trig"]), "m": st.sampled_from([1, 1, 2, 3]), "dom": domains, "w": st.sampled_from([0, 0, 1, 2]),
        "a": st.one_of(st.sampled_from([2.0, -1.0, 0.5, 3.0, -0.25]), st.floats(0.1, 4)), "anum": st.sampled_from(["float", "int", "np", "npint"]), "same": st.booleans()}
allops = sorted(BIN) + sorted(INP) + sorted(NUM) + sorted(INN) + sorted(UNA)
hop = st.tuples(st.sampled_from(["add", "sub", "scale", "divide", "neg", "iadd", "isub", "imul", "idiv", "copy", "prolong", "set", "zeros", "axpy", "iadd", "isub"]),
                st.integers(0, 3), st.integers(0, 3), st.integers(0, 3)).map(list)
fd = lambda **k: st.fixed_dictionaries(dict(base, **k))
def check_made(case):
    """States own their parts."""
    given = []
    s = make(case["s"], case, given)
    c, p, _ = parts(case["s"], case)
    now = lambda: [(np.copy(f.coeffs), np.copy(f.values), tuple(f.domain)) if hasattr(f, "coeffs") else (f.name, f.value) for f in given]
    eq = lambda a, b: all(np.array_equal(x, y) for x, y in zip(a, b))
    old, im = now(), image(s)
    for f, a in zip(given, c + p):
        require(np.array_equal(f.coeffs, a) if hasattr(f, "coeffs") else f.value == a, "building a state changed what it is built from")
    if case["first"]:
        for f in given:
            if hasattr(f, "coeffs"):
                f *= 2.0
            f += 1.0
        require(alike(image(s), im), "changing what a state was built from changes the state: %s", where(im, image(s)))
        old = now()
    for f in s.funcs:
        f *= 3.0
        f += 1.0
    for r in s.reals:
        r += 1.0
    s["marker"] = 5.0
    require(all(map(eq, old, now())), "changing a state changes what it was built from")
    return [case["kind"], case["type"]] if c[0].any() else []


def check_plot(case):
    """The values plotted for a state: its first parameter and a (signed) norm of one function component."""
    import funpy
    kind, form, p = case["kind"], case["norm"], case["p"]
    form = "Sturm" if kind == "defl" else form
    s = make(case["s"], case)
    before = image(s)
    j = case["j"] % case["m"]
    pars = parts(case["s"], case)[1]
    u = np.array(s.funcs[0].coeffs)  # of c[0], perhaps at the length of a longer function
    whole = float(np.sum(np.abs(u[:, j])))
    if form == "SturmNeumann0":
        f = fun(u[:, j:j + 1], case)
        mean = float(np.sum(np.asarray(np.sum(f)))) / float(case["dom"][1] - case["dom"][0])
        f = f - mean
    else:
        f = fun(u[:, j:j + 1], case)
    num = lambda v: float(np.real(np.asarray(v).reshape(-1)[0]))
    nrm = num(funpy.norm(f, p=p))
    if kind == "defl":
        got = s.plot_values(cidx=j, p=p)
    else:
        par, got = s.plot_values(cidx=j, norm_type=form, p=p, k=case["k"])
        require(num(par) == pars[0], "the parameter plotted is %r, parameters are %r", par, pars)
    require(alike(image(s), before), "computing the values to plot changed the state: %s", where(before, image(s)))
    got = num(got)
    d = np.diff(f)
    if form == "Wkp":
        ref = num(funpy.wkpnorm(f, p=p, k=case["k"]))
    elif form in ("Sturm", "SturmNeumann", "SturmNeumann0"):
        h = d if form == "Sturm" else f
        v, size = num(h(case["dom"][0])), float(np.sum(np.abs(h.coeffs)))
        if num(funpy.norm(d)) <= 1e-6 or abs(v) <= 1e-9 * max(size, whole):
            return []
        ref = np.sign(v) * nrm
    else:
        ref = nrm
    require(abs(got - ref) <= 1e-10 * abs(ref) + 1e-12 * whole + 1e-300, "value plotted (%s, p=%d) is %r instead of %r", form, p, got, ref)
    return [kind, form, case["type"]] if np.any(f.coeffs) else []


GROUPS = [
    Group("made", fd(s=spec, first=st.booleans()), check_made, 300),
    Group("ops", fd(s=spec, t=spec, op=st.sampled_from(allops)), check_ops, 1600, weight=2),
    Group("inner", fd(s=spec, t=spec, p=st.sampled_from([2, 2, 1, 3, 4]), noscale=st.booleans(), unit=st.sampled_from([0, 0, 1e-8, 1e-5, 1e6])), check_inner, 900, weight=2),
    Group("struct", fd(s=spec, n=st.integers(1, 60)), check_struct, 600),
    Group("history", fd(pool=st.lists(spec, min_size=1, max_size=3), hist=st.lists(hop, min_size=1, max_size=8)), check_history, 600),
    Group("mp", fd(s=spec, t=spec, op=st.sampled_from(["+", "-", "+=", "-=", "s*a", "a*s", "s/a", "*=a", "/=a", "neg", "pos", "real", "conj", "zeros", "ones", "s+a", "+=a"])), check_mp, 500),
    Group("plot", fd(s=spec, norm=st.sampled_from(["Sturm", "SturmNeumann", "SturmNeumann0", "Wkp", "none"]), p=st.sampled_from([2, 2, 4]), k=st.integers(0, 3), j=st.integers(0, 2)), check_plot, 250),
]
