"""P22 Symbolic operators compile to the right residual and derivative."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from .. import opexprs as ox
from ..opexprs import State, text, value
from ..gens import seeds
from ..harness import Group, excluded, require

RULE = """Cases are systems of one to three equations generated as expression trees (sums, products, powers, quotients with positive
denominators, sine, cosine, exponential of functions, derivatives up to order four, the space variable, parameters, named constant
functions, linear and nonlinear integrals, derivatives of products), partly given as constraints, printed as equation strings, with random polynomial or
trigonometric states, directions, domains and parameter values, and boundary conditions as strings or callables. Several states are
evaluated by the same compiled operator. Non-trivial: the residual and at least one derivative in the case are not identically zero."""
ORACLE = """an independent numerical evaluator of the expression tree on exact states; derivatives by the complex step of that evaluator
(second derivatives by differences of complex steps); boundary conditions by direct evaluation"""

DOMS = [[-1, 1], [0, 1], [0, 2], [-1, 0.5], [2, 3]]
FINE = [[0.1 / 3, 0.7 / 3], [-0.002 / 3, 0.05 / 7]]     # ends that need all their digits
N = 129
PARS = ["a", "b"]
KNOWN = [("k0", "lambda x: np.cos(x)", np.cos), ("k1", "lambda x: 1.0 / (3.0 + x**2)", lambda x: 1 / (3 + x ** 2))]
TKNOWN = []


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def cheb_state(seed, nf, dom, deg, scale=1.0):
    r = np.random.default_rng(seed)
    out = []
    for _ in range(nf):
        c = r.uniform(-1, 1, deg + 1) * 0.7 ** np.arange(deg + 1) * scale
        out.append(c)
    return State(out, dom)


def trig_state(seed, nf, dom, deg, scale=1.0):
    r = np.random.default_rng(seed)
    out = []
    for _ in range(nf):
        h = (r.uniform(-1, 1, deg) + 1j * r.uniform(-1, 1, deg)) * 0.4 * 0.6 ** np.arange(deg) * scale
        out.append(np.concatenate((np.conj(h[::-1]), [r.uniform(-1, 1) * scale], h)))
    return State(out, dom, True)


def fun(state, n=N):
    from funpy import Fun
    nf = len(state.c)
    if state.trig:
        k = max(len(c) for c in state.c)
        M = np.zeros((k, nf), dtype=complex, order="F")
        for i, c in enumerate(state.c):
            o = (k - len(c)) // 2
            M[o:o + len(c), i] = c
        u = Fun.from_coeffs(M, nf, domain=state.dom, type="trig")
    else:
        k = max(len(c) for c in state.c)
        M = np.zeros((k, nf), order="F")
        for i, c in enumerate(state.c):
            M[:len(c), i] = c.real
        u = Fun.from_coeffs(M, nf, domain=state.dom)
    u.prolong(n)
    return u


def build(case, eqs, nf, dom, trig=False, cpar=(), n=N, **kw):
    from funpy.colloc.chebOp import ChebOp
    names = ["u", "v", "w"][:nf]
    knames = [k[0] for k in KNOWN]
    op = ChebOp(colloc="trigspec" if trig else "ultraS", functions=names, parameters=dict(case["pars"]), domain=dom, n=n, cpar=list(cpar),
                constant_functions={} if trig else {k[0]: k[1] for k in KNOWN}, **kw)
    op.eqn = [text(e, names, knames) for e in eqs]
    op.cts = [text(e, names, knames) if e else "" for e in case.get("cts", [])]
    return op


def points(dom):
    a, b = dom
    return a + (b - a) * np.array([0.0, 0.07, 0.21, 0.38, 0.5, 0.63, 0.79, 0.94, 1.0])


KF = [k[2] for k in KNOWN]


def expand(eqs):
    """Fluxes written out: the evaluator knows d/dx of an expression by a central complex step in x."""
    return eqs


def val(e, xs, S, pars):
    if e[0] == "flux":                               # d/dx, by a complex step in space
        return flux(e[1], xs, S, pars)
    if e[0] in "+-" and len(e) == 3:
        p, q = val(e[1], xs, S, pars), val(e[2], xs, S, pars)
        return p + q if e[0] == "+" else p - q
    return value(e, xs, S, pars, KF)


def flux(e, xs, S, pars):
    """Derivative of the expression along x by high order differences inside analytic continuation (entire expressions only)."""
    r, m = 0.05 * min(1.0, S.dom[1] - S.dom[0]), 32      # Cauchy integral on a small circle
    z = np.exp(2j * np.pi * np.arange(m) / m)
    out = 0
    for zk in z:
        out = out + value(e, xs + r * zk, S, pars, KF) / zk
    return out / (m * r)


def unresolved(e, xs, S, pars):
    """Functions of large arguments (steep states) need more coefficients than the cases have."""
    return any(a[0] in ox.FUN and np.abs(val(a[1], xs, S, pars)).max() > 12 for a in ox.sub(e))


def check(case):
    nf, dom, trig, eqs = case["nf"], case["dom"], case["trig"], case["eqs"]
    make = trig_state if trig else cheb_state
    op = build(case, eqs, nf, dom, trig, case["cpar"])
    eqs = [["+", e, c] if c else e for e, c in zip(eqs, case.get("cts", [None] * nf))]      # constraints are further terms
    pars = dict(case["pars"])
    xs = points(dom)
    deg = case["deg"]
    states = [make(s, nf, dom, deg) for s in case["states"]]
    labels, live, moved = set(), False, False
    with quiet():
        if case["cpar"] and case["states"][0] % 3 == 0:                  # first for solving, then for continuation
            op.compile()
            labels.add("twice")
        op.compile(par=bool(case["cpar"]))
        op.compile(par=case["states"][0] % 2 == 0 and bool(case["cpar"]))
    sizes = case["sizes"]
    for t, S in enumerate(states):
        n = sizes[t % len(sizes)]
        n = n if not trig else n | 1
        if any(unresolved(e, np.linspace(dom[0], dom[1], 60), S, pars) for e in eqs):
            excluded("steep")
        u = fun(S, n)
        if t and case["repar"]:
            pars = {k: v * (0.75 + 0.5 * ((t + j) % 2)) for j, (k, v) in enumerate(pars.items())}
            with quiet():
                op.linSys.setParameters(pars)
        before = u.coeffs.copy()
        with quiet():
            norm = op.residual(u) if t % 2 else None                     # (before anything else knows the size of this state)
            R = op(u)
            norm = op.residual(u) if norm is None else norm
            Q = op.linSys.quasi(u)
        require(np.array_equal(before, u.coeffs), "evaluating the operator changed the state")
        require(R.type == u.type and list(R.domain) == list(u.domain), "residual of type %s on %s", R.type, R.domain)
        got = np.asarray(R(xs)).reshape(len(xs), -1)
        ref = np.array([val(e, xs, S, pars).real for e in eqs]).T
        size = 1 + np.abs(ref).max()
        for e in eqs:                                # terms may cancel
            size = max(size, top(e, xs, S, pars))
        bad = np.abs(got - ref).max() / size
        require(bad <= tol(deg, eqs, n, trig), "residual of %s is off by %.3g", op.eqn, bad)
        y, w = np.polynomial.legendre.leggauss(400)
        y = np.asarray(R((dom[0] + dom[1]) / 2 + (dom[1] - dom[0]) / 2 * y)).reshape(400, -1).real
        full = np.sqrt((dom[1] - dom[0]) / 2 * np.sum(w @ y ** 2))
        require(abs(norm - full) <= 1e-8 * full + 1e-12 * size, "residual norm %.12g of %s instead of %.12g", norm, op.eqn, full)
        live = live or np.abs(ref).max() > 0
        D = make(case["states"][0] + 71 + t, nf, dom, 3)
        for i in range(nf):
            for j in range(nf):
                W = State([c * (k == j) for k, c in enumerate(D.c)], dom, trig)
                ref = directional(eqs[i], xs, S, W, pars)
                B = Q[i, j]
                g = np.zeros(len(xs))
                for k, c in enumerate(B.coeffs):
                    require(list(c.domain) == list(dom), "a coefficient of the derivative lives on %r instead of %r", list(c.domain), list(dom))
                    g = g + np.asarray(c(xs)).reshape(-1).real * D.at(j, k, xs).real
                if B.icoeffs is not None:
                    for c, d in zip(B.icoeffs, B.integrand):
                        s, w = np.polynomial.legendre.leggauss(60)
                        y = (dom[0] + dom[1]) / 2 + (dom[1] - dom[0]) / 2 * s
                        g = g + np.asarray(c(xs)).reshape(-1).real * np.dot(w, np.asarray(d(y)).reshape(-1).real * D.at(j, 0, y).real) * (dom[1] - dom[0]) / 2
                bad = np.abs(g - ref).max() / (size + np.abs(ref).max())
                require(bad <= 10 * tol(deg, eqs, n, trig), "derivative of equation %d of %s with respect to function %d is off by %.3g", i, op.eqn, j, bad)
                moved = moved or np.abs(ref).max() > 0
        for p in case["cpar"]:
            if not any(ox.has(e, "p") and p in {a[1] for a in ox.sub(e) if a[0] == "p"} for e in eqs):
                continue
            with quiet():
                P = op.linSys.pDer(u, p)
            got = np.asarray(P(xs)).reshape(len(xs), -1).real
            up = dict(pars)
            up[p] = pars[p] + 1e-30j
            ref = np.array([val(e, xs, S, up).imag / 1e-30 for e in eqs]).T
            if any(ox.has(e, "flux") for e in eqs):
                h = 1e-4
                lo, hi = dict(pars), dict(pars)
                lo[p], hi[p] = pars[p] - h, pars[p] + h
                ref = np.array([(val(e, xs, S, hi) - val(e, xs, S, lo)).real / (2 * h) for e in eqs]).T
            bad = np.abs(got - ref).max() / (size + np.abs(ref).max())
            require(bad <= 10 * tol(deg, eqs, n, trig) + 1e-6 * any(ox.has(e, "flux") for e in eqs), "derivative of %s with respect to %s is off by %.3g", op.eqn, p, bad)
            labels.add("par")
    for e in eqs:
        for tag in ("int", "flux", "sin", "exp", "/", "k", "x", "tanh", "cosh", "sinh", "sech", "sec", "tan", "atan", "log", "sqrt", "pi"):
            if ox.has(e, tag):
                labels.add(tag)
    labels |= {"eqs%d" % nf, "order%d" % max(ox.order(e) for e in eqs)}
    return sorted(labels) if live and moved else []


def top(e, xs, S, pars):
    if e[0] in "+-" and len(e) == 3:
        return max(top(e[1], xs, S, pars), top(e[2], xs, S, pars))
    return np.abs(val(e, xs, S, pars)).max()


def directional(e, xs, S, W, pars):
    if any(a[0] == "flux" for a in ox.sub(e)):       # the spatial circle uses the complex plane already
        h = 1e-3
        f = lambda t: val(e, xs, S.shifted(W, t), pars).real
        return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)
    return val(e, xs, S.shifted(W, 1e-30j), pars).imag / 1e-30


def tol(deg, eqs, n, trig):
    """Spectral differentiation of coefficients near rounding: eps * n^(2 order) at worst."""
    m = max(ox.order(e) for e in eqs)
    t = 2e-12 * 20.0 ** m
    if any(ox.has(e, "flux") for e in eqs):
        t = max(t, 3e-7)
    return t if not trig else max(t, 1e-6)


def system(top, known, space, size, trig=False, extra=None, cts=False):
    def go(nf):
        e = ox.exprs(nf, PARS, top, known, space, size)
        if extra is not None:
            e = extra(nf, e)
        more = {} if not cts else {"cts": st.lists(st.one_of(st.none(), ox.exprs(nf, PARS, top, 0, space, 2), with_int(nf, ox.exprs(nf, PARS, 1, 0, space, 1))),
                                                   min_size=nf, max_size=nf)}
        return st.fixed_dictionaries({**more,
            "nf": st.just(nf), "eqs": st.lists(e, min_size=nf, max_size=nf), "trig": st.just(trig),
            "dom": st.sampled_from(DOMS + FINE if not trig else [[-1, 1], [-np.pi, np.pi], [0, 2], FINE[0]]), "deg": st.sampled_from([0, 1, 3, 6] if not trig else [1, 2, 4]),
            "states": st.lists(seeds, min_size=1, max_size=3, unique=True), "sizes": st.sampled_from([[129], [129, 161], [161, 129], [200, 97]]),
            "pars": st.fixed_dictionaries({"a": st.sampled_from([1.0, 2.0, 0.3, 1.7]), "b": st.sampled_from([1.0, 0.5, 3.0])}),
            "cpar": st.sampled_from([[], [], ["a"], ["b"], ["a", "b"]]), "repar": st.booleans()})
    return st.integers(1, 2).flatmap(go)


def with_int(nf, e):
    low = st.one_of(*([st.builds(lambda i: ["f", i, 0], st.integers(0, nf - 1))] * 3 + [st.just(["x"]), st.just(["p", "a"]), st.just(["c", 2])]))
    f = st.builds(lambda i: ["f", i, 0], st.integers(0, nf - 1))
    inner = st.one_of(f, st.builds(lambda p, q: ["*", p, q], low, f), st.builds(lambda p, n: ["^", p, n], f, st.integers(2, 3)),
                      st.builds(lambda p, q: ["*", q, ["sin", p]], f, low))
    one = st.builds(lambda p: ["int", p], inner)
    term = st.one_of(one, st.builds(lambda p, q: ["*", p, q], low, one), st.builds(lambda p: ["^", p, 2], one), st.builds(lambda p: ["sin", p], one),
                     st.builds(lambda p, q: ["*", p, q], one, one), st.builds(lambda p, q, r: ["+", ["*", p, q], ["*", r, q]], low, one, low))
    return st.builds(lambda a, s, b: [s, a, b], e, st.sampled_from("+-"), term)


def with_special(nf, e):
    """Functions beyond sine, cosine and exponential, away from their singularities."""
    f = st.builds(lambda i, c: ["*", ["c", c], ["f", i, 0]], st.integers(0, nf - 1), st.sampled_from([0.25, 0.1, -0.2]))
    far = st.builds(lambda p: ["+", ["c", 4], p], f)
    one = st.one_of(st.builds(lambda t, p: [t, p], st.sampled_from(["tanh", "cosh", "sinh", "sech", "sec", "tan", "atan"]), f),
                    st.builds(lambda t, p: [t, p], st.sampled_from(["log", "sqrt"]), far))
    q = st.one_of(st.builds(lambda i, o: ["f", i, o], st.integers(0, nf - 1), st.integers(0, 2)), st.just(["p", "a"]), st.just(["x"]), st.just(["pi"]))
    term = st.one_of(one, st.builds(lambda p, q: ["*", q, p], one, q), st.builds(lambda p: ["^", p, 2], one), st.builds(lambda p, q: ["/", q, ["+", ["c", 3], p]], one, q))
    lead = st.builds(lambda q, i, o: ["*", q, ["f", i, o]], st.one_of(st.just(["p", "a"]), st.just(["c", 2]), st.just(["x"])), st.integers(0, nf - 1), st.integers(0, 2))
    return st.builds(lambda a, s, b: [s, a, b], lead, st.sampled_from("+-"), term)


def with_flux(nf, e):
    f = st.builds(lambda i, o: ["f", i, o], st.integers(0, nf - 1), st.integers(0, 1))
    low = st.one_of(f, f, st.just(["x"]), st.just(["p", "a"]))
    inner = st.one_of(st.builds(lambda p, q: ["*", p, q], low, f), st.builds(lambda p, n: ["^", p, n], f, st.integers(2, 3)),
                      st.builds(lambda p, q, r: ["*", p, ["*", q, r]], low, low, f), st.builds(lambda p, q: ["*", q, ["sin", ["f", p, 0]]], st.integers(0, nf - 1), low))
    return st.builds(lambda a, s, b: [s, a, ["flux", b]], e, st.sampled_from("+-"), inner)


# ------------------------------------------------------------------ constant states (one coefficient per function)

def check_constant(case):
    nf, dom, eqs, trig = case["nf"], case["dom"], case["eqs"], case["trig"]
    op = build(case, eqs, nf, dom, trig, n=1)
    pars = dict(case["pars"])
    x = np.array([0.3 * dom[0] + 0.7 * dom[1]])
    labels, live = set(), False
    for t, seed in enumerate(case["states"]):
        S = (trig_state if trig else cheb_state)(seed, nf, dom, 0)
        u = fun(S, 1)
        with quiet():
            if t and case["repar"]:
                pars = {k: v * (0.75 + 0.5 * ((t + j) % 2)) for j, (k, v) in enumerate(pars.items())}
                op.linSys.setParameters(pars)
            M = op.discretize(u).matrix()[0]
            R = op(u)
        M = M.toarray() if hasattr(M, "toarray") else np.asarray(M)
        require(M.shape == (nf, nf), "the matrix at a constant state has shape %s", M.shape)
        got = np.asarray(R(x)).reshape(-1)
        for i, e in enumerate(eqs):
            size = 1 + top(e, x, S, pars)
            r = val(e, x, S, pars)[0].real
            require(abs(got[i] - r) <= 1e-12 * size, "residual of %r at a constant state is %.15g, not %.15g", op.eqn[i], got[i], r)
            for j in range(nf):
                W = State([np.ones(1) * (k == j) for k in range(nf)], dom, trig)
                r = directional(e, x, S, W, pars)[0]
                require(abs(M[i, j] - r) <= 1e-11 * (size + abs(r)), "derivative of %r at a constant state with respect to function %d is %.15g, not %.15g",
                        op.eqn[i], j, M[i, j], r)
                live = live or abs(r) > 1e-3
    for e in eqs:
        for tag in ("int", "sin", "exp", "/"):
            if ox.has(e, tag):
                labels.add(tag)
    labels |= {"eqs%d" % nf, "trig" if trig else "cheb"}
    return sorted(labels) if live else []


def constant(nf):
    e = ox.exprs(nf, PARS, 0, 0, False, 3)
    return st.fixed_dictionaries({
        "nf": st.just(nf), "eqs": st.lists(st.one_of(e, with_int(nf, e)), min_size=nf, max_size=nf), "trig": st.just(False),
        "dom": st.sampled_from(DOMS + FINE), "states": st.lists(seeds, min_size=1, max_size=3, unique=True), "repar": st.booleans(),
        "pars": st.fixed_dictionaries({"a": st.sampled_from([1.0, 2.0, 0.3]), "b": st.sampled_from([1.0, 0.5, 3.0])})}).filter(lambda c: not any(ox.has(e, "x") for e in c["eqs"]))


# ------------------------------------------------------------------ second derivatives

def check_fold(case):
    nf, dom, eqs = case["nf"], case["dom"], case["eqs"]
    op = build(case, eqs, nf, dom, False, case["cpar"])
    pars = dict(case["pars"])
    p = case["cpar"][0]
    xs = points(dom)
    S, V, W = (cheb_state(s, nf, dom, case["deg"]) for s in case["states"])
    with quiet():
        if case["states"][0] % 3 < 2:                # compiled for something else before
            op.compile(par=case["states"][0] % 3 == 1)
        op.compile(par=True, fold=True)
        op.compile(par=case["states"][0] % 2 == 0)
        u, v, w = fun(S), fun(V), fun(W)
        df = op.linSys.df(u, v)
        dd = op.linSys.ddx(u, v, w)
        dp = np.hstack([f(*u, *v) for f in op.linSys.dxdp.functions[p]])
    get = lambda F: np.asarray(F(xs)).reshape(len(xs), -1)
    size = 1 + max(top(e, xs, S, pars) for e in eqs)
    r1 = np.array([directional(e, xs, S, V, pars) for e in eqs]).T
    bad = np.abs(get(df) - r1).max() / (size + np.abs(r1).max())
    require(bad <= 10 * tol(3, eqs, N, False), "action of the derivative of %s is off by %.3g", op.eqn, bad)
    h = 1e-3
    g = lambda t: np.array([directional(e, xs, S.shifted(W, t), V, pars) for e in eqs]).T
    r2 = (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)
    bad = np.abs(get(dd) - r2).max() / (size + np.abs(r2).max())
    require(bad <= 1e-8 + 100 * tol(3, eqs, N, False), "second derivative of %s is off by %.3g", op.eqn, bad)
    k = lambda t: np.array([directional(e, xs, S, V, dict(pars, **{p: pars[p] + t})) for e in eqs]).T
    r3 = (8 * (k(h) - k(-h)) - (k(2 * h) - k(-2 * h))) / (12 * h)
    bad = np.abs(get(dp) - r3).max() / (size + np.abs(r3).max())
    require(bad <= 1e-8 + 100 * tol(3, eqs, N, False), "mixed derivative of %s with respect to %s is off by %.3g", op.eqn, p, bad)
    return ["eqs%d" % nf] if np.abs(r1).max() > 0 and np.abs(r2).max() > 0 else []


def fold_case(nf):
    return st.fixed_dictionaries({
        "nf": st.just(nf), "eqs": st.lists(ox.exprs(nf, PARS, 2, 0, True, 3), min_size=nf, max_size=nf), "dom": st.sampled_from(DOMS), "deg": st.sampled_from([1, 3, 6]),
        "states": st.lists(seeds, min_size=3, max_size=3, unique=True), "cpar": st.sampled_from([["a"], ["b"], ["a", "b"]]),
        "pars": st.fixed_dictionaries({"a": st.sampled_from([1.0, 2.0, 0.3]), "b": st.sampled_from([1.0, 0.5, 3.0])})}).filter(
            lambda c: all(any(ox.has(e, "p") and q in {a[1] for a in ox.sub(e) if a[0] == "p"} for e in c["eqs"]) for q in c["cpar"]))


# ------------------------------------------------------------------ boundary conditions

def check_bcs(case):
    nf, dom = case["nf"], case["dom"]
    names = ["u", "v", "w"][:nf]
    eqs = [["f", i, 2] for i in range(nf)]
    n = case["n"]
    op = build(case, eqs, nf, dom, n=n)
    texts, refs = [], []
    for bc in case["bcs"]:
        parts = []
        for c, i, o, x in bc["terms"]:
            i %= nf
            x = dom[0] + (dom[1] - dom[0]) * x
            parts.append("%r * %s(%r)" % (c, names[i] if o == 0 else "np.diff(%s, %d)" % (names[i], o) if o > 1 else "np.diff(%s)" % names[i], x))
        t = " + ".join(parts) + " - %r" % bc["rhs"]
        if bc["call"]:
            texts.append(eval("lambda %s: %s" % (", ".join(names), t), {"np": np}))
        else:
            texts.append(t)

        def ref(S, bc=bc, const=True):
            s = 0.0
            for c, i, o, x in bc["terms"]:
                s += c * S.at(i % nf, o, np.array([dom[0] + (dom[1] - dom[0]) * x]))[0].real
            return s + (-bc["rhs"] if const else 0)
        refs.append(ref)
    op.bcs = texts
    labels = set()
    S = cheb_state(case["seed"], nf, dom, 6)
    u = fun(S, n)
    with quiet():
        disc = op.discretize(u)
        rows = disc.getConstraints(n * nf)
        op.linSys.update_partial(u)
    got = np.asarray(op.linSys.cts_res).reshape(-1)
    require(op.linSys.numConstraints == len(refs) and got.shape == (len(refs),), "%d conditions, residuals of shape %s", len(refs), got.shape)
    require(rows.shape == (len(refs), n * nf), "rows of the conditions have shape %s", rows.shape)
    C = u.coeffs.reshape(n, nf).flatten(order="F")
    for k, ref in enumerate(refs):
        scale = 1 + sum(abs(t[0]) for t in case["bcs"][k]["terms"]) * (2 / (dom[1] - dom[0])) ** 2 * 50 + abs(case["bcs"][k]["rhs"])
        r = ref(S)
        require(abs(got[k] - r) <= 1e-12 * scale, "condition %r has residual %.15g, not %.15g", case["bcs"][k], got[k], r)
        r = ref(S, const=False)
        x = float(rows[k] @ C)
        require(abs(x - r) <= 1e-14 * n ** 4 * scale, "row of the condition %r gives %.15g, not %.15g", case["bcs"][k], x, r)
        labels.add("call" if case["bcs"][k]["call"] else "text")
    labels |= {"eqs%d" % nf}
    return sorted(labels)


bc = st.fixed_dictionaries({"terms": st.lists(st.tuples(st.sampled_from([1.0, -1.0, 2.0, 0.5, -3.0]), st.integers(0, 2), st.integers(0, 2), st.sampled_from([0.0, 1.0, 0.0, 1.0, 0.5, 0.3])),
                                              min_size=1, max_size=3), "rhs": st.sampled_from([0.0, 1.0, -2.5, 3.0]), "call": st.booleans()})
bcs_case = st.fixed_dictionaries({"nf": st.integers(1, 3), "dom": st.sampled_from(DOMS), "bcs": st.lists(bc, min_size=1, max_size=4), "seed": seeds, "n": st.integers(7, 33),
                                  "pars": st.fixed_dictionaries({"a": st.sampled_from([1.0, 2.0, 0.3]), "b": st.just(1.0)})})

GROUPS = [
    Group("local", system(2, 2, True, 3), check, quick=120, thorough=2500, weight=2),
    Group("high", system(4, 0, True, 2), check, quick=60, thorough=1200),
    Group("trig", system(2, 0, False, 3, True), check, quick=60, thorough=1200),
    Group("integral", system(2, 0, True, 2, False, with_int), check, quick=60, thorough=1200),
    Group("flux", system(2, 0, True, 2, False, with_flux), check, quick=60, thorough=1200),
    Group("special", system(2, 0, True, 2, False, with_special), check, quick=32, thorough=500),
    Group("constraints", system(2, 0, True, 2, cts=True), check, quick=60, thorough=1200),
    Group("fold", st.integers(1, 2).flatmap(fold_case), check_fold, quick=40, thorough=800, weight=2),
    Group("constant", st.integers(1, 3).flatmap(constant), check_constant, quick=60, thorough=1200),
    Group("bcs", bcs_case, check_bcs, quick=150, thorough=3000),
]
