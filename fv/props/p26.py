"""P26 Newton solvers report success only at solutions."""
import contextlib
import io
import warnings
import numpy as np
import scipy.sparse as sps
from hypothesis import strategies as st
from ..gens import sizes, seeds, EPS
from ..harness import Group, require
from .p24 import cond

RULE = """Cases are smooth systems with their derivative (linear, quadratic, trigonometric, cubic, exponential, with a prescribed root; with a
double root; without any root; with a linear solver that fails at a chosen call; with a callback that stops at a chosen step), a unit of the equations (factor), starting point (at, near or far from the root), and solver options (nonlinearity class, restricted or not, quasi-Newton steps on or
off, tolerance, iteration limit). Non-trivial: at least one Newton step was taken on a system of two or more unknowns or that is not
linear."""
MORE = 8                                             # quick runs: this many times the cases below
ORACLE = """the true Newton correction at the returned point, computed by numpy from the stated system; Newton-Kantorovich bound deciding
which starting points are close enough that convergence is certain; bitwise comparison of the starting point; call counts"""


class Problem:
    """F, its derivative, a root (or None) and a Lipschitz bound of the derivative near that root."""

    def __init__(self, case):
        r = np.random.default_rng(case["seed"])
        n, k, c = case["n"], case["kind"], case["c"]
        self.n, self.kind = n, k
        self.root = np.round(r.uniform(-2, 2, n), 2)
        if case["zero"]:
            self.root[:] = 0
        A = r.standard_normal((n, n)) / np.sqrt(n) + np.diag(r.choice([-2.0, 1.0, 2.0, 3.0], n))
        B = r.standard_normal((n, n)) / np.sqrt(n)
        x0 = self.root
        if k == "exact":                             # residuals vanish exactly
            self.root = np.round(self.root)
            x0 = self.root
            A = np.diag(r.choice([-2.0, 1.0, 0.5, 4.0], n)) + np.eye(n, k=1) * r.integers(0, 2)
        if k in ("linear", "exact"):
            self.F, self.J, self.lip = (lambda x: A @ (x - x0)), (lambda x: A), 0.0
        elif k == "quadratic":
            self.F = lambda x: A @ (x - x0) + c * (B @ (x - x0)) ** 2
            self.J = lambda x: A + 2 * c * (B @ (x - x0))[:, None] * B
            self.lip = 2 * c * np.linalg.norm(B, 2) ** 2
        elif k == "trig":
            self.F = lambda x: A @ (x - x0) + c * (np.sin(B @ x) - np.sin(B @ x0))
            self.J = lambda x: A + c * np.cos(B @ x)[:, None] * B
            self.lip = c * np.linalg.norm(B, 2) ** 2
        elif k == "cubic":
            self.F = lambda x: A @ (x - x0) + c * (x ** 3 - x0 ** 3)
            self.J = lambda x: A + 3 * c * np.diag(x ** 2)
            self.lip = 6 * c * 4
        elif k == "exp":
            self.F = lambda x: A @ (x - x0) + c * (np.exp(x) - np.exp(x0))
            self.J = lambda x: A + c * np.diag(np.exp(x))
            self.lip = c * np.exp(4)
        elif k == "double":
            self.F = lambda x: c * (x - x0) * np.abs(B @ np.ones(n) + 3) * (x - x0)
            self.J = lambda x: np.diag(2 * c * (x - x0) * np.abs(B @ np.ones(n) + 3))
            self.lip = None
        elif k == "none":                            # no real root
            d = r.choice([0.5, 1.0, 2.0], n)
            self.F = lambda x: (x - x0) ** 2 + d
            self.J = lambda x: np.diag(2 * (x - x0))
            self.root, self.lip = None, None
        else:                                        # the first component has no root
            self.F = lambda x: A @ (x - x0) * (np.arange(n) > 0) + (np.arange(n) == 0) * (np.exp(-x[0]) + 1.0)
            self.J = lambda x: A * (np.arange(n) > 0)[:, None] + np.outer(np.arange(n) == 0, np.arange(n) == 0) * -np.exp(-x[0])
            self.root, self.lip = None, None
        # Newton's method does not depend on the unit the equations are written in
        self.unit = u = case["unit"]
        if u != 1:
            F, J = self.F, self.J
            self.F, self.J = (lambda x: u * F(x)), (lambda x: u * J(x))
            self.lip = None if self.lip is None else u * self.lip

    def start(self, case):
        r = np.random.default_rng(case["seed"] + 1)
        d = r.standard_normal(self.n)
        d /= np.linalg.norm(d)
        base = self.root if self.root is not None else np.zeros(self.n)
        return base + {"root": 0.0, "tiny": 1e-6, "near": case["r"] * 0.2, "mid": 1.0 + case["r"], "far": 20.0 * case["r"]}[case["start"]] * d

    def certain(self, x):
        """Newton's method surely converges from x (with room)."""
        if self.root is None or self.lip is None:
            return False
        J = self.J(self.root)
        if cond(J) > 1e3:
            return False
        d = np.linalg.norm(x - self.root)
        return self.kind in ("linear", "exact") or (d <= 0.5 and np.linalg.norm(np.linalg.inv(J), 2) * self.lip * d < 0.1)


class Counter:
    def __init__(self):
        self.built = self.solves = self.residuals = 0
        self.called = []


def make(prob, count, failat, xs):
    class System:
        def __init__(self, x, exact=None, **kwargs):
            count.built += 1
            xs.append(np.array(x, dtype=float))
            self.x = np.array(x, dtype=float)
            self.size = prob.n
            self.jac = prob.J(self.x)

        def rhs(self, x):
            count.residuals += 1
            return prob.F(np.asarray(x, dtype=float))

        def solve(self, b):
            count.solves += 1
            if failat is not None and count.solves >= failat:
                return np.zeros(prob.n), False
            try:
                return np.linalg.solve(self.jac, b), True
            except np.linalg.LinAlgError:
                return np.zeros(prob.n), False

        def to_vspace(self, c):
            return c

        def matrix(self, precond=False):
            try:
                P = np.linalg.inv(self.jac)
            except np.linalg.LinAlgError:
                P = np.eye(prob.n)
            return sps.csr_matrix(self.jac), sps.csr_matrix(P), None
    return System


def correction(prob, x):
    """Length of the Newton correction at x."""
    return np.linalg.norm(np.linalg.lstsq(prob.J(x), -prob.F(x), rcond=None)[0])


def check(case):
    from funpy.newton import newton_standard, nleq_err, qnerr
    from funpy.newton.giant import giant_gbit
    prob = Problem(case)
    x0 = prob.start(case)
    if case["ints"] or prob.kind == "exact":
        x0 = np.round(x0)
    if case["start"] not in ("root", "tiny", "near") and prob.kind == "exp":
        x0 = np.clip(x0, -6, 6)
    tol = 10.0 ** case["tol"]
    given = x0.copy()
    count, xs = Counter(), []
    giant = case["solver"] == "giant"
    System = make(prob, count, case["failat"] if not giant else None, xs)

    def callback(*args):
        count.called.append(args[1])
        return case["stopat"] is None or len(count.called) < case["stopat"]

    kw = dict(tol=tol, callback=callback)
    if giant:
        kw["inner"] = np.dot
    miter = case["miter"]
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if case["solver"] == "newton":
            if miter is not None:
                kw["miter"] = miter
            out = newton_standard(System, x0, debug=case["debug"], **kw)
        elif case["solver"] == "nleq":
            if miter is not None:
                kw["miter"] = miter
            out = nleq_err(System, x0, nonlin=case["nonlin"], restricted=case["restricted"], use_qnerr=case["quasi"], debug=case["debug"], **kw)
        elif case["solver"] == "qnerr":
            if miter is not None:
                kw["miter"] = miter
            out = qnerr(System, x0, debug=case["debug"], **kw)
        else:
            if miter is not None:
                kw["max_iter"] = miter
            out = giant_gbit(System, x0, nonlin=case["nonlin"], debug=case["debug"], **kw)
    x, ok, its = out[:3]
    require(len(out) == (5 if giant else 6), "%s returned %d values", case["solver"], len(out))
    require(np.array_equal(x0, given), "%s changed the starting point", case["solver"])
    require(x is not x0 or not ok or np.array_equal(x, given), "result aliases the start")
    labels = [case["solver"], prob.kind, "ok" if ok else "fail"]
    limit = miter if miter is not None else (75 if case["solver"] == "nleq" and case["nonlin"] != "mildly" else 50)
    require(its <= limit + 2, "%d iterations with a limit of %d", its, limit)
    require(count.built <= limit + 2, "%d derivatives with a limit of %d", count.built, limit)
    require(not ok or np.shape(x) == (prob.n,), "result has shape %s", np.shape(x))
    if ok:
        require(bool(np.all(np.isfinite(x))), "success at a point that is not finite")
        require(prob.root is not None, "%s reports success for a system without a root (residual %.3g)", case["solver"], np.linalg.norm(prob.F(x)))
        J = prob.J(x)
        F = prob.F(x)
        scale = 1 + np.linalg.norm(x)
        if prob.lip is not None and cond(J) < 1e6:
            d = correction(prob, x)
            bound = 2 * tol + 1e-13 * cond(J) * scale
            require(d <= bound, "%s reports success for tolerance %.3g where the correction is %.3g", case["solver"], tol, d)
        else:
            require(np.linalg.norm(F) / prob.unit <= 10 * tol * (1 + np.linalg.norm(J) / prob.unit) + 1e-10, "%s reports success with residual %.3g for tolerance %.3g",
                    case["solver"], np.linalg.norm(F), tol)
        require(case["failat"] is None or giant or count.solves < case["failat"], "success although the linear solver failed")
        labels.append("done")
    must = prob.certain(given) and (case["failat"] is None or giant) and (case["stopat"] is None or giant) and tol >= 1e-10
    if must and (miter is None or miter >= 20):
        if case["solver"] != "qnerr" or case["start"] in ("root", "tiny") or prob.kind in ("linear", "exact"):
            require(ok, "%s does not converge from a point close to a regular root", case["solver"])
            labels.append("close")
            if case["solver"] in ("newton",) or (case["solver"] == "nleq" and case["nonlin"] == "mildly" and not case["quasi"]):
                require(its <= 8, "%d steps from a point close to a regular root", its)
            require(np.linalg.norm(x - prob.root) <= 10 * tol + 1e-12 * scale_of(prob, x), "converged to a different point than the close root")
    return labels if count.built >= 1 and (prob.n > 1 or prob.kind not in ("linear", "exact")) else []


def scale_of(prob, x):
    return (1 + np.linalg.norm(x)) * cond(prob.J(prob.root))


CASE = {"n": sizes(5, 1, 12), "seed": seeds, "kind": st.sampled_from(["linear", "exact", "quadratic", "quadratic", "trig", "trig", "cubic", "exp", "double", "none", "partly"]),
        "c": st.sampled_from([0.1, 0.5, 1.0, 2.0]), "zero": st.booleans(), "start": st.sampled_from(["root", "tiny", "near", "near", "mid", "far"]),
        "unit": st.sampled_from([1, 1, 1e-9, 1e9]), "r": st.sampled_from([0.01, 0.1, 0.3, 1.0]), "ints": st.sampled_from([False, False, False, True]), "tol": st.integers(-12, -4),
        "failat": st.sampled_from([None, None, None, None, 1, 2, 3, 5]), "stopat": st.sampled_from([None, None, None, None, 1, 2, 4]),
        "miter": st.sampled_from([None, None, None, 1, 3, 20, 60]), "nonlin": st.sampled_from(["mildly", "mildly", "highly", "extremely"]),
        "restricted": st.booleans(), "quasi": st.booleans(), "debug": st.sampled_from([False, False, False, True])}


def cases(solver):
    return st.fixed_dictionaries(dict(CASE, solver=st.just(solver)))


GROUPS = [
    Group("newton", cases("newton"), check, quick=500, weight=1),
    Group("nleq", cases("nleq"), check, quick=800, weight=2),
    Group("qnerr", cases("qnerr"), check, quick=500, weight=1),
    Group("giant", cases("giant"), check, quick=500, weight=2),
]
