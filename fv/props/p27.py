"""P27 Deflation removes known solutions consistently."""
import numpy as np
from hypothesis import strategies as st
from .. import opexprs as ox
from ..gens import seeds
from ..harness import Group, require
from .p22 import build, fun, cheb_state, trig_state, quiet, DOMS

RULE = """Cases are states and lists of zero to four known solutions of different lengths on generated domains (one to three functions,
both representations), powers and shifts, random nonsingular matrices with rank-one updates, and deflated Newton systems of generated
nonlinear operators with boundary conditions. Non-trivial: at least one known solution, at a nonzero distance from the state."""
ORACLE = """the product formula with an independently computed first-order Sobolev norm; the product rule and differences of the
deflated residual; dense solves of the updated matrix"""


def parts(S, i, order, y):
    return S.at(i, order, y)


def h1(S, T, U=None, V=None):
    """Inner product of S - T with U - V in the first-order Sobolev space; the norm squared for S - T alone."""
    a, b = S.dom
    s, w = np.polynomial.legendre.leggauss(80)
    y = (a + b) / 2 + (b - a) / 2 * s
    out = 0.0
    for i in range(len(S.c)):
        for o in (0, 1):
            p = S.at(i, o, y) - (T.at(i, o, y) if T is not None else 0)
            q = p if U is None else U.at(i, o, y) - (V.at(i, o, y) if V is not None else 0)
            out += np.dot(w, p * q) * (b - a) / 2
    return out


def state(spec, nf, dom, trig):
    return (trig_state if trig else cheb_state)(spec["seed"], nf, dom, spec["deg"], spec["scale"])


def length(spec, trig):
    n = 2 * spec["deg"] + 1 if trig else spec["deg"] + 1
    return n + 2 * spec["pad"]


def eta_ref(S, K, shift, power):
    out = 1.0
    for k in K:
        out *= shift + h1(S, k) ** (-power / 2)
    return out


def check_value(case):
    from funpy.newton import deflation
    nf, dom, trig = case["nf"], case["dom"], case["trig"]
    S = state(case["u"], nf, dom, trig)
    K = [(state(k, nf, dom, trig), k) for k in case["ks"]]
    K = [k for k in K if h1(S, k[0]) > 1e-6]
    K, specs = [k[0] for k in K], [k[1] for k in K]
    u, ks = fun(S, length(case["u"], trig)), [fun(k, length(c, trig)) for k, c in zip(K, specs)]
    before = [f.coeffs.copy() for f in [u] + ks]
    args = dict(shift=case["shift"], power=case["power"])
    got = deflation(u, known_solutions=ks, **args)
    require(np.size(got) == 1 and np.isreal(got), "deflation factor %r", got)
    got = float(np.real(got))
    ref = eta_ref(S, K, case["shift"], case["power"])
    tol = 1e-9 * (1 + len(ks)) * (1 + case["power"]) if not trig else 2e-6
    require(abs(got - ref) <= tol * abs(ref), "factor %.15g with %d known solutions, should be %.15g", got, len(ks), ref)
    require(all(np.array_equal(a, f.coeffs) for a, f in zip(before, [u] + ks)), "deflation changed its arguments")
    back = float(np.real(deflation(u, known_solutions=ks[::-1], **args)))
    require(abs(back - got) <= 1e-12 * abs(got), "factor depends on the order of the known solutions: %.15g, %.15g", got, back)
    d = deflation(u, known_solutions=ks)
    ref = eta_ref(S, K, 1.0, 2.0)
    require(abs(d - ref) <= tol * abs(ref), "default factor %.15g, should be %.15g", d, ref)
    if not ks:
        require(got == 1.0, "factor %r without known solutions", got)
        return []
    return ["ks%d" % len(ks), "trig" if trig else "cheb", "eqs%d" % nf]


def check_derivative(case):
    from funpy import Fun
    from funpy.newton import deflation_linearization, deflation
    nf, dom, trig = case["nf"], case["dom"], case["trig"]
    S = state(case["u"], nf, dom, trig)
    K = [(state(k, nf, dom, trig), k) for k in case["ks"]]
    K = [k for k in K if h1(S, k[0]) > 1e-6]
    K, specs = [k[0] for k in K], [k[1] for k in K]
    D = state(case["v"], nf, dom, trig)
    # the quadrature of the functional is exact up to the length of the state
    top = max([len(c) for s in [S, D] + K for c in s.c])
    n = 2 * top + case["u"]["pad"]
    n = n | 1
    u, ks = fun(S, n), [fun(k, length(c, trig)) for k, c in zip(K, specs)]
    v = fun(D, n)
    before = [f.coeffs.copy() for f in [u] + ks]
    args = dict(shift=case["shift"], power=case["power"])
    eta, deta = deflation_linearization(u, known_solutions=ks, basis="trigspec" if trig else "coeff", **args)
    require(all(np.array_equal(a, f.coeffs) for a, f in zip(before, [u] + ks)), "the linearisation of the deflation changed its arguments")
    if not ks:
        require(eta == 1.0 and deta is None, "linearisation (%r, %r) without known solutions", eta, deta)
        return []
    ref = eta_ref(S, K, case["shift"], case["power"])
    tol = 1e-9 * (1 + len(ks)) * (1 + case["power"]) if not trig else 5e-6
    eta = float(np.real(eta))
    require(abs(eta - ref) <= tol * abs(ref), "factor %.15g of the linearisation, should be %.15g", eta, ref)
    slope = size = 0.0
    for k in K:
        q = h1(S, k)
        f = case["shift"] + q ** (-case["power"] / 2)
        t = -case["power"] * ref / f * q ** (-case["power"] / 2 - 1)
        slope += t * h1(S, k, D, None)
        size += abs(t) * np.sqrt(q * h1(D, None))
    C = v.coeffs.reshape(n, nf)
    got = [complex(np.squeeze(deta(w))) for w in (v, C.flatten(order="F"))]
    for g, what in zip(got, ("a function", "a coefficient vector")):
        require(abs(g - slope) <= 20 * tol * size + 1e-300, "derivative of the deflation factor along %s is %s, should be %.15g", what, g, slope)
    require(abs(complex(np.squeeze(deta(2.5 * C.flatten(order="F")))) - 2.5 * got[1]) <= 1e-10 * size, "the derivative of the deflation factor is not linear")
    return ["ks%d" % len(ks), "trig" if trig else "cheb", "eqs%d" % nf]


def check_rank1(case):
    import scipy.sparse as sps
    from scipy.sparse.linalg import splu
    from funpy.newton import FrechetDeflated, FrechetDeflatedPrecond
    r = np.random.default_rng(case["seed"])
    n, eta = case["n"], case["eta"]
    A = np.diag(r.uniform(1, 3, n) * r.choice([-1, 1], n)) + 0.4 * r.uniform(-1, 1, (n, n)) / np.sqrt(n)
    b, d, x = r.uniform(-1, 1, n), r.uniform(-1, 1, n) * case["size"], r.uniform(-1, 1, n)
    f = (lambda v: np.dot(d, v)) if case["ks"] else None
    full = eta * A + np.outer(b, d) if case["ks"] else A
    if np.linalg.cond(full) > 1e6:
        return []
    M = FrechetDeflated(sps.csr_matrix(A) if case["sparse"] else A, eta=eta if case["ks"] else None, b=b if case["ks"] else None, deta=f)
    tol = 1e-12 * (np.abs(full).sum() + 1)
    for what, y in (("product", M.matvec(x)), ("@", M @ x)):
        require(np.abs(y - full @ x).max() <= tol, "%s with the deflated derivative is off by %.3g", what, np.abs(y - full @ x).max())
    if case["dense"]:
        T = M.to_matrix()
        T = T.toarray() if sps.issparse(T) else np.asarray(T)
        require(T.shape == (n, n) and np.abs(T - full).max() <= tol, "matrix of the deflated derivative is off by %.3g", np.abs(T - full).max())
    P = FrechetDeflatedPrecond(splu(sps.csc_matrix(A)), b if case["ks"] else None, ks=1 if case["ks"] else 0, functional=f, eta=eta if case["ks"] else None)
    z = np.linalg.solve(full, x)
    got = P.matvec(x)
    require(np.abs(got - z).max() <= 1e-9 * (1 + np.linalg.cond(full) * 1e-3) * (1 + np.abs(z).max()), "the preconditioner is off the inverse by %.3g", np.abs(got - z).max())
    return ["ks" if case["ks"] else "none"] if case["ks"] else []


# ------------------------------------------------------------------ Newton systems

def check_system(case):
    from funpy.newton.NewtonSystem import NewtonSystem
    from funpy.vectorspaces import DeflationState
    nf, dom, trig = case["nf"], case["dom"], case["trig"]
    n = case["n"] | 1
    op = build(case, case["eqs"], nf, dom, trig, n=n)
    names = ["u", "v"][:nf]
    if not trig:
        op.bcs = ["%s(%r) - 0.5" % (s, e) if k else "np.diff(%s)(%r)" % (s, e) for s in names for k, e in enumerate((float(dom[0]), float(dom[1])))]
    S = state(case["u"], nf, dom, trig)
    K = [state(k, nf, dom, trig) for k in case["ks"]]
    K = [k for k in K if h1(S, k) > 1e-2]
    with quiet():
        op.compile()
    ks = [fun(k, n) for k in K]
    u = DeflationState(u=fun(S, n), n=n, **case["pars"])
    with quiet():
        sys = NewtonSystem(u, op, ks=ks, dtype=np.complex128 if trig else np.float64)
        M, _, P = sys.matrix()
    m = M.shape[1]
    require(m == n * nf and M.shape[0] == m, "matrix of shape %s for %d functions of length %d", M.shape, nf, n)
    D = state(case["v"], nf, dom, trig)
    x = fun(D, n).coeffs.reshape(n, nf).flatten(order="F")
    y = np.asarray(M.matvec(x.astype(complex) if trig else x)).reshape(-1)

    def rhs(t):
        w = DeflationState(u=fun(S.shifted(D, t).merged(), n), n=n, **case["pars"])
        with quiet():
            return np.asarray(sys.rhs(w)).reshape(-1)
    h = 1e-3 / max(1.0, np.sqrt(h1(D, None)))
    F = [rhs(t * h) for t in (-2, -1, 1, 2)]
    require(F[0].shape == y.shape, "residual of shape %s, matrix of shape %s", F[0].shape, M.shape)
    ref = (8 * (F[2] - F[1]) - (F[3] - F[0])) / (12 * h)
    size = np.abs(ref).max() + np.abs(y).max() + np.abs(F[0]).max() + 1
    near = min([h1(S, k) for k in K] + [1.0])
    bad = np.abs(y - ref).max() / size
    require(bad <= (1e-6 if not trig else 1e-5) / near, "deflated Newton system of %s with %d known solutions differs from the derivative of its residual by %.3g", op.eqn, len(ks), bad)
    r0 = rhs(0.0)
    with quiet():
        bare = NewtonSystem(u, op, dtype=sys.dtype)
        bare.matrix()
        plain = np.asarray(bare.rhs(u)).reshape(-1)
    e = eta_ref(S, K, 1.0, 2.0)
    require(np.abs(r0 - e * plain).max() <= (1e-8 if not trig else 1e-5) * (1 + np.abs(r0).max()), "the deflated residual is not %.6g times the residual", e)
    return ["ks%d" % len(ks), "trig" if trig else "cheb", "eqs%d" % nf] if ks and np.abs(r0).max() > 1e-8 else []

spec = st.fixed_dictionaries({"seed": seeds, "deg": st.integers(1, 8), "pad": st.integers(0, 4), "scale": st.sampled_from([1.0, 1.0, 0.3, 0.01, 5.0])})
TDOMS = [[-1, 1], [0, 2], [-np.pi, np.pi]]


def defl(extra):
    def go(trig):
        return st.fixed_dictionaries(dict({
            "nf": st.integers(1, 3), "trig": st.just(trig), "dom": st.sampled_from(TDOMS if trig else DOMS), "u": spec, "ks": st.lists(spec, min_size=0, max_size=4),
            "shift": st.sampled_from([1.0, 1.0, 0.5, 2.0, 0.01]), "power": st.sampled_from([2.0, 2.0, 1.0, 3.0, 4.0])}, **extra))
    return st.booleans().flatmap(go)


def systems(trig):
    nf = st.integers(1, 2)

    def go(k):
        small = st.fixed_dictionaries({"seed": seeds, "deg": st.integers(1, 4), "pad": st.just(0), "scale": st.sampled_from([1.0, 0.5])})
        f = st.builds(lambda i: ["f", i, 0], st.integers(0, k - 1))
        term = st.one_of(st.builds(lambda p: ["*", ["p", "a"], p], f), st.builds(lambda p: ["^", p, 2], f), st.builds(lambda p, q: ["*", p, q], f, f),
                         st.just(["c", 1]), st.builds(lambda i: ["f", i, 1], st.integers(0, k - 1)))
        eqs = st.tuples(*[st.builds(lambda s, t, i=i: [s, ["f", i, 2], t], st.sampled_from("+-"), term) for i in range(k)]).map(list)
        return st.fixed_dictionaries({"nf": st.just(k), "trig": st.just(trig), "dom": st.sampled_from(TDOMS if trig else DOMS), "eqs": eqs, "u": small, "v": small,
                                      "ks": st.lists(small, min_size=0, max_size=3), "n": st.sampled_from([25, 31, 41]),
                                      "pars": st.fixed_dictionaries({"a": st.sampled_from([1.0, 2.0, 0.3]), "b": st.just(1.0)})})
    return nf.flatmap(go)


# ------------------------------------------------------------------ seeking several solutions

def seek_problem(case):
    """-k u'' + c prod (u - s - d_k) + k s'', with end conditions, has the solutions s + d_k."""
    dom, trig, nf = case["dom"], case["trig"], case["nf"]
    S = (trig_state if trig else cheb_state)(case["seed"], 1, dom, case["deg"], 0.0 if nf == 2 else 0.5)
    a, L = float(dom[0]), float(dom[1] - dom[0])
    cf = {}
    if trig:
        h = (len(S.c[0]) - 1) // 2
        w = 2 * np.pi / L
        # coefficients of the exponentials of z in [-1, 1], written around the middle
        t = lambda o: " + ".join(["%.17g" % (S.c[0][h].real if o == 0 else 0)] + [
            "(%.17g) * cos(%.17g * (x - %.17g)) + (%.17g) * sin(%.17g * (x - %.17g))" % (
                f * 2 * S.c[0][h + k].real, w * k, a + L / 2, -f * 2 * S.c[0][h + k].imag, w * k, a + L / 2) for k in range(1, h + 1) for f in [(-(w * k) ** 2) if o else 1.0]])
        s0, s2 = "(%s)" % t(0), "(%s)" % t(2)
    else:
        c = S.c[0].real
        c2 = np.polynomial.chebyshev.chebder(c, 2) * (2 / L) ** 2 if len(c) > 2 else np.zeros(1)
        for name, q in (("s0", c), ("s2", c2)):
            cf[name] = "lambda x: np.polynomial.chebyshev.chebval((2 * x - %.17g) / %.17g, [%s])" % (2 * a + L, L, ", ".join("%.17g" % v for v in q))
        s0, s2 = "s0", "s2"
    k = case["diff"]
    eqs = ["-%r * diff(u, x, 2) + %r * %s + %r * %s" % (k, k, s2, case["c"], " * ".join("(u - %s - %r)" % (s0, d) for d in case["roots"]))]
    if nf == 2:
        eqs.append("-diff(v, x, 2) + 2 * v - u")
    return S, eqs, cf


def check_seek(case):
    from funpy.colloc.chebOp import ChebOp
    from funpy.newton.newton_seeker import NewtonSeeker
    from funpy.vectorspaces import DeflationState
    dom, trig, nf, n = case["dom"], case["trig"], case["nf"], case["n"]
    S, eqs, cf = seek_problem(case)
    names = ["u", "v"][:nf]
    a, b = float(dom[0]), float(dom[1])
    with quiet():
        op = ChebOp(colloc="trigspec" if trig else "ultraS", functions=names, parameters={}, constant_functions=cf, domain=dom, n=n, diff_order=2)
        op.eqn = eqs
        op.bcs = [] if trig else ["np.diff(%s)(%r) - (%.17g)" % (f, e, S.at(0, 1, np.array([e]))[0].real if f == "u" else 0.0) for f in names for e in (a, b)]
        op.setDisc(n)
        seeker = NewtonSeeker(op)
    ys = a + (b - a) * np.array([0.0, 0.11, 0.3, 0.52, 0.75, 0.9, 1.0])

    def root(d):
        out = np.zeros((len(ys), nf))
        out[:, 0] = S.at(0, 0, ys).real + d
        if nf == 2:
            out[:, 1] = d / 2
        return out

    def state(d, bump):
        T = (trig_state if trig else cheb_state)(case["seed"] + 3, nf, dom, 2, bump)
        cs = []
        for i in range(nf):
            w = [S.c[0] if i == 0 else 0 * S.c[0], T.c[i]]
            m = max(len(q) for q in w)
            t = np.zeros(m, dtype=complex)
            for q in w:
                o = (m - len(q)) // 2 if trig else 0
                t[o:o + len(q)] += q
            t[m // 2 if trig else 0] += d if i == 0 else d / 2
            cs.append(t)
        return DeflationState(u=fun(ox.State(cs, dom, trig), n), n=n)
    found, labels, other = [], set(), False
    for k, bump, method, learn in case["steps"]:
        d = case["roots"][k % len(case["roots"])]
        if not bump and d in found:
            continue
        u0 = state(d, bump)
        before = u0.u.coeffs.copy()
        un, ok = None, False
        try:
            with quiet():
                un, ok, its = seeker.solve(u0, method=method, tol=1e-9, miter=15, learn_solution=learn)
        except RuntimeError as e:
            # a singular linearisation along the way is no solution
            require("singular" in str(e), "seeking raises %r", e)
        require(np.array_equal(before, u0.u.coeffs), "seeking a solution changed its starting point")
        regular = np.prod([d - e for e in case["roots"] if e != d]) > 0
        near = [e for e in found if np.abs(root(e) - root(d)).max() < 1e-9]
        if bump <= 1e-3 and regular and not near:
            require(bool(ok), "%s, started %.3g from the root %r of %s, fails with known roots %s", method, bump, d, eqs, found)
        if ok:
            val = np.asarray(un.u(ys)).reshape(len(ys), nf)
            dist = {e: np.abs(val - root(e)).max() for e in case["roots"]}
            if bump <= 1e-3 and regular and not near:
                require(dist[d] <= 1e-6, "%s, started %.3g from the root %r of %s, gives one off by %.3g", method, bump, d, eqs, dist[d])
            for e in found:
                require(dist[e] > 1e-4, "%s finds the known solution %r of %s again (known: %s)", method, e, eqs, found)
            hit = [e for e in case["roots"] if dist[e] <= 1e-6]
            with quiet():
                r = op.residual(un.u)
            require(r <= 1e-5, "%s reports a solution of %s with residual %.3g", method, eqs, r)
            labels.add("root" if hit else "other")
            other |= learn and not hit
            if learn and hit:
                found.append(hit[0])
        else:
            labels.add("fails")
        require(other or len(seeker.known_solutions) == len(found), "%d known solutions are kept after finding %d", len(seeker.known_solutions), len(found))
    labels.add("ks%d" % len(found))
    labels.add("trig" if trig else "cheb")
    return sorted(labels) if len(found) >= 1 and len(case["steps"]) >= 2 else []


def seeks(trig):
    step = st.tuples(st.integers(0, 2), st.sampled_from([1e-3, 1e-3, 0.0, 0.3, 1.0]), st.sampled_from(["giant", "nleq"]), st.sampled_from([True, True, True, False])).map(list)
    return st.fixed_dictionaries({"trig": st.just(trig), "nf": st.integers(1, 2), "dom": st.sampled_from(TDOMS if trig else DOMS), "seed": seeds, "deg": st.just(1) if trig else st.integers(1, 4), "n": st.sampled_from([33, 41]),
                                  "roots": st.sampled_from([[1.0], [1.0, 2.0], [1.0, -1.0], [2.0, 1.0, -1.0], [0.5, -0.5, 2.0], [1.0, 3.0]]), "diff": st.sampled_from([1.0, 0.5, 2.0]), "c": st.sampled_from([1.0, 0.5, 2.0]),
                                  "steps": st.lists(step, min_size=2, max_size=5)})


GROUPS = [
    Group("value", defl({}), check_value, quick=400, thorough=8000),
    Group("derivative", defl({"v": spec}), check_derivative, quick=400, thorough=8000),
    Group("rank-one", st.fixed_dictionaries({"seed": seeds, "n": st.integers(2, 25), "eta": st.sampled_from([1.0, 2.0, 0.5, 17.0]), "size": st.sampled_from([1.0, 0.1, 5.0]), "ks": st.sampled_from([True, True, False]),
                                             "sparse": st.booleans(), "dense": st.booleans()}), check_rank1, quick=500, thorough=10000),
    Group("system", systems(False), check_system, quick=80, thorough=1500, weight=2),
    Group("trig-system", systems(True), check_system, quick=60, thorough=1000, weight=2),
    Group("seek", seeks(False), check_seek, quick=60, thorough=1200, weight=2, cpu=120),
    Group("trig-seek", seeks(True), check_seek, quick=40, thorough=800, weight=2, cpu=120),
]
