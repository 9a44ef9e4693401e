"""P31 Continuation corrections and tangents solve the bordered function-space system."""
import types
import numpy as np
import scipy.sparse as sps
from hypothesis import strategies as st
from ..gens import sizes, seeds, EPS
from ..harness import Group, require

RULE = """Cases are regular block matrices acting on the coefficients of one or two Chebyshev functions (dense, banded, diagonal or
upper triangular patterns, scaled), a parameter column, an old tangent (function and parameter, of any length and direction), with or
without a right preconditioner and a basis recombination, sequences of right-hand sides and a bordering for branch points.
Non-trivial: the function has at least two coefficients and the old tangent is not orthogonal to the null direction."""
MORE = 10                                             # quick runs: this many times the cases below
ORACLE = """the dense bordered system with the Gram matrix of Chebyshev polynomials as inner product: residual of the block row, orthogonality
to the tangent, unit length and orientation of the tangent"""


def gram(n, dom):
    """Integrals of products of Chebyshev polynomials."""
    x, w = np.polynomial.legendre.leggauss(n + 2)
    V = np.polynomial.chebyshev.chebvander(x, n - 1)
    return V.T @ (w[:, None] * V) * (dom[1] - dom[0]) / 2


def matrix(kind, N, r):
    if kind == "dense":
        A = r.standard_normal((N, N)) + 2 * np.sqrt(N) * np.eye(N)
    elif kind == "band":
        A = np.triu(np.tril(r.standard_normal((N, N)), 2), -1) + 5 * np.eye(N)
    elif kind == "diag":
        A = np.diag(r.choice([-1.0, 1.0, 2.0, -3.0], N))
    elif kind == "tri":
        A = np.triu(r.uniform(-1, 1, (N, N)) / N, 1) + np.diag(r.choice([-1.0, 1.0, 2.0], N))
    else:
        A = np.linalg.qr(r.standard_normal((N, N)))[0]
    return A


def setup(case):
    from funpy import Fun
    from funpy.vectorspaces import ContinuationState
    from funpy.vectorspaces.parameter import Parameter
    from funpy.linalg import LinearSolverNGSchur
    r = np.random.default_rng(case["seed"])
    n, m, dom = case["n"], case["m"], case["dom"]
    N = n * m
    full = n + case["extra"]                         # coefficients after the basis recombination
    A = matrix(case["kind"], N, r) * case["unit"]
    E = np.zeros((full * m, N))
    for k in range(m):
        B = np.eye(full, n)
        for j in range(n):
            if j + case["extra"] < full and case["extra"]:
                B[j + case["extra"], j] = -1.0
        E[k * full:(k + 1) * full, k * n:(k + 1) * n] = B
    Pm = np.diag(r.choice([1.0, 0.5, 2.0, -1.0], N)) if case["precond"] else None
    Fa = r.standard_normal(N) * case["unit"] * case["push"]
    tu = r.standard_normal((full, m)) * 0.7 ** np.arange(full)[:, None] * case["len"]
    ta = float(r.choice([-1.0, 1.0, 0.2])) * case["len"]
    G = np.kron(np.eye(m), gram(full, dom))
    to_fun = lambda c: Fun.from_coeffs(np.array(c), m, domain=dom)
    to_state = lambda u, a: ContinuationState(u=u, a=Parameter(lam=float(np.squeeze(a))))
    old = to_state(Fun.from_coeffs(tu, m, domain=dom), ta)
    vec = lambda f: np.asarray(padded(f, full)).flatten(order="F")
    return types.SimpleNamespace(**locals()), lambda: LinearSolverNGSchur(wrap(case["form"], A), Fa.copy(), old, sps.csr_matrix(E), P=None if Pm is None else sps.csc_matrix(Pm),
                                                                          to_function=to_fun, to_state=to_state)


def padded(f, n):
    c = np.zeros((n, f.shape[1]))
    k = min(n, f.shape[0])
    require(np.abs(f.coeffs[k:]).max(initial=0) == 0, "function of %d coefficients instead of %d", f.shape[0], n)
    c[:k] = np.real(f.coeffs[:k])
    return c


class Wrapped:
    def __init__(self, A):
        self.A, self.shape = A, A.shape

    def to_matrix(self):
        return sps.csr_matrix(self.A)


def wrap(form, A):
    return sps.csc_matrix(A) if form == "csc" else Wrapped(A)


def check(case):
    c, build = setup(case)
    W = c.E @ np.linalg.solve(c.A, c.Fa)
    v = np.append(c.tu.flatten(order="F"), c.ta)
    beta = c.ta - v[:-1] @ c.G @ W
    ref = np.append(-W, 1.0)
    dot = lambda p, q: p[:-1] @ c.G @ q[:-1] + p[-1] * q[-1]
    ref *= np.sign(beta) / np.sqrt(dot(ref, ref))
    if abs(dot(ref, v)) < 1e-2 * np.sqrt(dot(v, v)):             # the old tangent must not be orthogonal to the new one
        return []
    keep = (c.Fa.copy(), c.old.u.coeffs.copy(), c.old.a)
    s = build()
    t = s.tangent_vector()
    got = np.append(c.vec(t.u), t.a)
    cnd = np.linalg.cond(c.A) * (1 if c.Pm is None else np.linalg.cond(c.Pm))
    tol = 1e3 * EPS * cnd * c.N * np.sqrt(dot(v, v) / dot(ref, v) ** 2) * (1 + np.abs(W).max()) ** 2
    require(abs(dot(got, got) - 1) <= 1e-12, "tangent of length %.15g", np.sqrt(dot(got, got)))
    require(dot(got, v) > 0, "the tangent turned around")
    require(np.abs(got - ref).max() <= tol, "tangent off by %.3g", np.abs(got - ref).max())
    require(t.cpar == "lam" and list(t.u.domain) == list(c.dom), "tangent with parameter %r on %r", t.cpar, t.u.domain)
    for k in range(case["solves"]):
        f = c.r.standard_normal(c.N) * c.r.choice([1.0, 1e-6, 1e3])
        g = f.copy()
        x = s.solve(f)
        require(np.array_equal(f, g), "the right-hand side was changed")
        x = np.append(c.vec(x.u), x.a)
        D = c.E @ np.linalg.solve(c.A, f)
        da = -(ref[:-1] @ c.G @ D) / (ref[-1] - ref[:-1] @ c.G @ W)
        y = np.append(D - da * W, da)
        size = np.abs(y).max() + np.abs(D).max()
        require(np.abs(x - y).max() <= tol * size, "correction off by %.3g: component along the tangent %.3g", np.abs(x - y).max() / size, dot(x, got))
    if case["bif"]:
        r = c.r
        k = int(r.integers(1, case["n"] + 3))           # shorter and longer than the matrix
        given = r.standard_normal((k, case["m"]))
        B = np.zeros((case["n"], case["m"]))
        B[:k] = given[:case["n"]]
        rvec = types.SimpleNamespace(B_u=given.copy(), B_l=float(r.standard_normal()), C_u=c.to_fun(r.standard_normal(c.full * case["m"])), C_l=float(r.standard_normal()), C_a_u=None)
        Cu = c.vec(rvec.C_u)
        J = np.zeros((c.N + 1, c.N + 1))             # unknowns y (before the recombination) and the parameter
        J[:-1, :-1], J[:-1, -1] = c.A, c.Fa
        J[-1, :-1], J[-1, -1] = ref[:-1] @ c.G @ c.E, ref[-1]
        z = np.linalg.solve(J, np.append(B.flatten(order="F"), rvec.B_l))
        z = np.append(c.E @ z[:-1], z[-1])
        q = Cu @ c.G @ z[:-1] + rvec.C_l * z[-1]
        if abs(q) > 1e-2 * np.sqrt(dot(z, z)):
            tau = s.bif_pt(None, rvec)
            part = c.E @ np.linalg.solve(c.A, B.flatten(order="F"))
            require(np.abs(c.vec(rvec.C_a_u) - part).max() <= tol * (1 + np.abs(part).max()), "the solution kept for the next update is off")
            big = np.sqrt(dot(z, z)) / abs(q) * (1 + np.abs(Cu).max())
            require(abs(np.squeeze(tau) * q + 1) <= tol * big, "branching value %.15g instead of %.15g", np.squeeze(tau), -1 / q)
            d = s.bif_dir()
            d = np.append(c.vec(d.u), d.a)
            require(np.abs(d - z / q).max() <= tol * big * np.abs(z / q).max(), "branch direction off by %.3g", np.abs(d - z / q).max())
    require(np.array_equal(keep[0], c.Fa) and np.array_equal(keep[1], c.old.u.coeffs) and keep[2] == c.old.a, "the arguments were changed")
    if case["n"] < 2:
        return []
    return [case["kind"], "m%d" % case["m"], "recombined" if case["extra"] else "plain", "precond" if case["precond"] else "bare"]


schur = st.fixed_dictionaries({
    "n": sizes(24, 1, 40), "m": st.integers(1, 2), "dom": st.sampled_from([[-1, 1], [0, 1], [0, 2], [-3, 0.5]]), "seed": seeds, "extra": st.sampled_from([0, 0, 1, 2]),
    "kind": st.sampled_from(["dense", "band", "diag", "tri", "ortho"]), "unit": st.sampled_from([1.0, 1.0, 1e-6, 1e5]), "push": st.sampled_from([1.0, 1.0, 0.1, 0.0, 10.0]),
    "len": st.sampled_from([1.0, 1.0, 0.3, 10.0]), "precond": st.booleans(), "form": st.sampled_from(["csc", "wrapped"]), "solves": st.integers(1, 3), "bif": st.booleans()})

GROUPS = [Group("schur", schur, check, quick=500)]
