"""P28 Eigenvalues of linearised operators are those of the boundary-value problem."""
import numpy as np
import scipy.linalg as LA
from scipy.optimize import linear_sum_assignment
from hypothesis import strategies as st
from ..gens import seeds
from ..harness import Group, require
from .p22 import fun, cheb_state, trig_state, quiet, DOMS

RULE = """Cases are second-order elliptic systems of one or two equations (leading coefficient, advection, reaction and coupling terms with
variable coefficients, integral terms, quadratic and cubic terms linearised at generated states, a parameter) with Dirichlet, Neumann, mixed
or Robin conditions, or periodic, at sizes that resolve them, and the order in which eigenvalues are asked for; and constant-coefficient
systems of order one to four (periodic, or even order with vanishing even derivatives at both ends). Non-trivial: at least three eigenvalues
lie in the region compared."""
ORACLE = """eigenvalues of an independent collocation discretisation (boundary conditions eliminated), taken where two resolutions agree;
compared both ways in a disk around the origin, with multiplicity; for constant coefficients the
eigenvalues of the symbol at the admissible wave numbers"""


def cheb(n, dom):
    """Chebyshev points, differentiation matrix and quadrature weights on an interval."""
    k = np.arange(n + 1)
    t = np.cos(np.pi * k / n)
    c = np.ones(n + 1)
    c[0] = c[-1] = 2
    c *= (-1.0) ** k
    X = t[:, None] - t[None, :]
    D = np.outer(c, 1 / c) / (X + np.eye(n + 1))
    D -= np.diag(D.sum(1))
    V = np.polynomial.chebyshev.chebvander(t, n)
    m = np.array([2 / (1 - j * j) if j % 2 == 0 else 0 for j in range(n + 1)])
    w = np.linalg.solve(V.T, m)
    h = (dom[1] - dom[0]) / 2
    return dom[0] + h * (t + 1), D / h, w * h


def fourier(n, dom):
    """Equispaced points and differentiation matrix (n odd)."""
    L = dom[1] - dom[0]
    x = dom[0] + L * np.arange(n) / n
    k = np.fft.fftfreq(n, 1.0 / n)
    F = np.fft.fft(np.eye(n), axis=0)
    D = np.real(np.fft.ifft(2j * np.pi / L * k[:, None] * F, axis=0))
    return x, D, np.full(n, L / n)


def coeff(kind, dom, trig):
    """A coefficient as (text, callable)."""
    a, L = float(dom[0]), float(dom[1] - dom[0])
    if trig:
        w = 2 * np.pi / L
        arg = "(%.17g * (x - %.17g))" % (w, a)
        return {"1": ("1", lambda x: 1 + 0 * x), "c": ("cos" + arg, lambda x: np.cos(w * (x - a))), "s": ("sin" + arg, lambda x: np.sin(w * (x - a))),
                "p": ("(2 + cos%s)" % arg, lambda x: 2 + np.cos(w * (x - a)))}[kind]
    return {"1": ("1", lambda x: 1 + 0 * x), "c": ("cos(x)", np.cos), "s": ("x", lambda x: x), "p": ("exp(x / 4)", lambda x: np.exp(x / 4))}[kind]


def terms(case):
    """Per equation a list of (text, [(function, order or 'int', weight(x, S))])."""
    dom, trig, nf = case["dom"], case["trig"], case["nf"]
    names = ["u", "v"][:nf]
    out = []
    for i, e in enumerate(case["eqs"]):
        t, f = coeff(e["lead"], dom, trig) if e["lead"] != "s" and e["lead"] != "c" else coeff("1", dom, trig)
        row = [("%r * %s * diff(%s, x, 2)" % (e["d"], t, names[i]), [(i, 2, lambda x, S, f=f, d=e["d"]: d * f(x))])]
        for kind, c, j, z in e["terms"]:
            j = j % nf
            t, f = coeff(c, dom, trig)
            n = names[j]
            at = lambda S, i, o, x: S.at(i, o, x).real
            if kind == "adv":
                row.append(("%r * %s * diff(%s, x)" % (z, t, names[i]), [(i, 1, lambda x, S, f=f, z=z: z * f(x))]))
            elif kind == "mass":
                row.append(("%r * %s * %s" % (z, t, n), [(j, 0, lambda x, S, f=f, z=z: z * f(x))]))
            elif kind == "par":
                row.append(("a * %s * %s" % (t, n), [(j, 0, lambda x, S, f=f: case["a"] * f(x))]))
            elif kind == "int" and not trig:
                row.append(("%r * int(%s, x)" % (z, n), [(j, "int", lambda x, S, z=z: z + 0 * x)]))
            elif kind == "sq":
                row.append(("%r * %s**2" % (z, n), [(j, 0, lambda x, S, j=j, z=z: 2 * z * at(S, j, 0, x))]))
            elif kind == "cube":
                row.append(("%r * %s * %s**3" % (z, t, n), [(j, 0, lambda x, S, j=j, z=z, f=f: 3 * z * f(x) * at(S, j, 0, x) ** 2)]))
            elif kind == "prod":
                k = (j + 1) % nf
                row.append(("%r * %s * %s" % (z, n, names[k]), [(j, 0, lambda x, S, k=k, z=z: z * at(S, k, 0, x)), (k, 0, lambda x, S, j=j, z=z: z * at(S, j, 0, x))]))
            elif kind == "conv":
                row.append(("%r * %s * diff(%s, x)" % (z, n, names[i]), [(j, 0, lambda x, S, i=i, z=z: z * at(S, i, 1, x)), (i, 1, lambda x, S, j=j, z=z: z * at(S, j, 0, x))]))
        out.append(row)
    return out


CONDS = {"d": (1.0, 0.0), "n": (0.0, 1.0), "r": (2.0, 1.0), "q": (1.0, -0.5)}


def reference(case, S, rows, n):
    dom, trig, nf = case["dom"], case["trig"], case["nf"]
    x, D, w = fourier(n, dom) if trig else cheb(n, dom)
    m = len(x)
    P = {0: np.eye(m), 1: D, 2: D @ D, "int": np.outer(np.ones(m), w)}
    A = np.zeros((nf * m, nf * m))
    for i, row in enumerate(rows):
        for _, parts in row:
            for j, o, f in parts:
                A[i * m:(i + 1) * m, j * m:(j + 1) * m] += f(x, S)[:, None] * P[o]
    if trig:
        return np.linalg.eigvals(A)
    # eliminate the boundary values through the conditions
    C = np.zeros((2 * nf, nf * m))
    for i, (l, r) in enumerate(case["bcs"][:nf]):
        for k, (kind, row) in enumerate(((l, m - 1), (r, 0))):
            a, b = CONDS[kind]
            b = b if k else -b
            C[2 * i + k, i * m:(i + 1) * m] = a * np.eye(m)[row] + b * D[row]
    edge = [i * m + k for i in range(nf) for k in (0, m - 1)]
    core = [k for k in range(nf * m) if k not in edge]
    G = -np.linalg.solve(C[:, edge], C[:, core])
    return np.linalg.eigvals(A[np.ix_(core, core)] + A[np.ix_(core, edge)] @ G)


def conditions(case):
    out = []
    for i, (l, r) in enumerate(case["bcs"][:case["nf"]]):
        for k, kind in enumerate((l, r)):
            a, b = CONDS[kind]
            b = b if k else -b
            n, x = ["u", "v"][i], float(case["dom"][k])
            text = [] if not a else ["%r * %s(%r)" % (a, n, x)]
            text += [] if not b else ["%r * np.diff(%s)(%r)" % (b, n, x)]
            out.append(" + ".join(text))
    return out


def region(l1, l2, k, tol):
    """A radius, in a gap of the moduli, below which both resolutions agree."""
    l1, l2 = l1[np.argsort(np.abs(l1))][:k + 6], l2[np.argsort(np.abs(l2))]
    near = np.array([np.abs(l2 - z).min() <= 0.01 * tol * max(1, abs(z)) for z in l1])
    top = np.argmin(near) if not near.all() else len(l1)
    a = np.abs(l1[:top])
    if top < 4:
        return None, None
    top = min(top, k)
    gaps = (a[1:top] - a[:top - 1]) / np.maximum(1, a[1:top])
    good = [j for j in range(1, top - 1) if gaps[j] > 0.02]
    if not good:
        return None, None
    j = good[-1]
    return (a[j] + a[j + 1]) / 2, l1[:j + 1]


def match(got, ref, tol):
    if len(got) != len(ref):
        return False
    d = np.abs(got[:, None] - ref[None, :]) / np.maximum(1, np.abs(ref))[None, :]
    i, j = linear_sum_assignment(d)
    return d[i, j].max() <= tol


def check(case):
    from funpy.colloc.chebOp import ChebOp
    from funpy.colloc.eig import eigs
    dom, trig, nf = case["dom"], case["trig"], case["nf"]
    S = (trig_state if trig else cheb_state)(case["seed"], nf, dom, case["deg"], 0.0 if case["zero"] else case["scale"])
    rows = terms(case)
    sizes = (61, 75) if trig else (44, 54)
    l1, l2 = [reference(case, S, rows, n) for n in sizes]
    tol = 1e-6
    R, ref = region(l2, l1, case["k"], tol)
    if R is None:
        return []
    n = case["n"]
    with quiet():
        op = ChebOp(colloc="trigspec" if trig else "ultraS", functions=["u", "v"][:nf], parameters={"a": case["a"]}, domain=dom, n=n, diff_order=2)
        op.eqn = [" + ".join(t if case["unit"] == 1 else "%r * %s" % (case["unit"], t) for t, _ in row) for row in rows]
        op.bcs = [] if trig else conditions(case)
        u = fun(S, n)
        before = u.coeffs.copy()
        if case["none"] and case["zero"]:
            ok, lam = eigs(op, sort=case["sort"])
        else:
            ok, lam = eigs(op, u, sort=case["sort"])
        if case["twice"]:
            ok2, lam2 = eigs(op, u, sort=case["sort"])
    require(np.array_equal(before, u.coeffs), "computing eigenvalues changed the state")
    lam = np.asarray(lam) / case["unit"]
    if case["twice"]:
        lam2 = np.asarray(lam2) / case["unit"]
        require(ok2 == ok and len(lam2) == len(lam), "a second computation gives %d eigenvalues instead of %d", len(lam2), len(lam))
    require(bool(ok), "eigenvalues of %s with %s not found", op.eqn, op.bcs)
    require(np.all(np.isfinite(lam)), "eigenvalues %s", lam[~np.isfinite(lam)])
    require(len(lam) == n * nf - (0 if trig else 2 * nf), "%d eigenvalues of %d functions of length %d", len(lam), nf, n)
    got = lam[np.abs(lam) < R]
    require(match(got, ref, tol), "eigenvalues of %s with %s at |z| < %.6g are %s, should be %s", op.eqn, op.bcs, R, np.sort_complex(got), np.sort_complex(ref))
    if case["twice"]:
        require(match(lam2[np.abs(lam2) < R], ref, tol), "a second computation of eigenvalues gives %s, not %s", lam2[np.abs(lam2) < R], got)
    if case["sort"] in ("lhp", "rhp"):
        s = np.real(lam) * (1 if case["sort"] == "lhp" else -1)
        s = s[np.abs(s) > 1e-7 * np.maximum(1, np.abs(lam))]
        late = np.nonzero(s > 0)[0]
        require(len(late) == 0 or np.all(s[late[0]:] > 0), "eigenvalues are not sorted (%s)", case["sort"])
    return ["trig" if trig else "cheb", "eqs%d" % nf, case["sort"], "unit=%g" % case["unit"]] + (["complex"] if np.abs(ref.imag).max() > 1e-3 else []) if len(ref) >= 3 else []


def check_orders(case):
    """Constant coefficients: the eigenfunctions are exponentials or sines, whatever the order of the operator."""
    from funpy.colloc.chebOp import ChebOp
    from funpy.colloc.eig import eigs
    dom, trig, nf, n, top = case["dom"], case["trig"], case["nf"], case["n"], case["top"]
    r = np.random.default_rng(case["seed"])
    names = ["u", "v"][:nf]
    A = [np.round(r.uniform(-2, 2, (nf, nf)) * (r.random((nf, nf)) < 0.6), 2) if (trig or k % 2 == 0) else np.zeros((nf, nf)) for k in range(top)]
    A.append(np.diag(r.choice([1.0, -0.5, 2.0], nf)))                    # every equation has the same order
    L = dom[1] - dom[0]
    eqs = []
    for i in range(nf):
        row = ["%r * %s" % (float(A[k][i, j]), "diff(%s, x, %d)" % (names[j], k) if k else names[j]) for k in range(top + 1) for j in range(nf) if A[k][i, j]]
        eqs.append(" + ".join(row))
    ends = [repr(float(x)) for x in dom]
    with quiet():
        op = ChebOp(colloc="trigspec" if trig else "ultraS", functions=names, domain=dom, n=n, diff_order=top)
        op.eqn = eqs
        op.bcs = [] if trig else [("np.diff(%s, %d)(%s)" % (f, k, e)) if k else "%s(%s)" % (f, e) for f in names for k in range(0, top, 2) for e in ends]
        ok, lam = eigs(op, fun((trig_state if trig else cheb_state)(case["seed"], nf, dom, 2), n), sort=case["sort"])
    require(bool(ok) and np.all(np.isfinite(lam)), "eigenvalues of %s: %s", eqs, lam)
    require(len(lam) == nf * (n - (0 if trig else top)), "%d eigenvalues of %d functions of length %d", len(lam), nf, n)
    h = n // 2
    if trig:
        z = [2j * np.pi * k / L for k in range(-h, h + 1)]
    else:
        z = [1j * np.pi * k / L for k in range(1, case["k"] + 1)]
    vals = [np.linalg.eigvals(sum(a.astype(complex) * q ** k for k, a in enumerate(A))) for q in z]
    ref = np.concatenate(vals)
    size = max(np.abs(a).max() for a in A) * max(1, abs(z[-1])) ** top
    if trig:
        got, tol = np.asarray(lam), 1e-10
    else:                                            # those below a radius in a gap
        mods = np.sort(np.abs(ref))
        far = np.abs(np.linalg.eigvals(sum(a.astype(complex) * (1j * np.pi * (case["k"] + 1) / L) ** k for k, a in enumerate(A)))).min()
        if far < 1.05 * mods[-1]:
            return []
        R, tol = (far + mods[-1]) / 2, 1e-6
        got = np.asarray(lam)[np.abs(lam) < R]
    require(len(got) == len(ref), "%s: %d eigenvalues instead of %d (%s, %s)", eqs, len(got), len(ref), np.sort_complex(got), np.sort_complex(ref))
    i, j = linear_sum_assignment(np.abs(got[:, None] - ref[None, :]))
    bad = np.abs(got[i] - ref[j]).max() / size
    require(bad <= tol, "%s: eigenvalues %s, should be %s (off by %.3g)", eqs, got[i], ref[j], bad)
    return ["trig" if trig else "cheb", "eqs%d" % nf, "top%d" % top]


TDOMS = [[-1, 1], [0, 2], [-np.pi, np.pi]]
Z = st.sampled_from([1.0, -1.0, 0.5, -2.0, 3.0])


def cases(trig):
    kinds = ["adv", "mass", "mass", "par", "sq", "cube", "prod", "conv"] + ([] if trig else ["int"])
    term = st.tuples(st.sampled_from(kinds), st.sampled_from("1csp"), st.integers(0, 1), Z).map(list)
    eq = st.fixed_dictionaries({"lead": st.sampled_from("1p"), "d": st.sampled_from([1.0, 0.5, 2.0]), "terms": st.lists(term, max_size=3)})
    bc = st.sampled_from("dnrq")
    return st.fixed_dictionaries({
        "nf": st.integers(1, 2), "trig": st.just(trig), "dom": st.sampled_from(TDOMS if trig else DOMS), "eqs": st.tuples(eq, eq).map(list), "seed": seeds, "deg": st.integers(0, 3), "scale": st.sampled_from([1.0, 0.5]),
        "zero": st.booleans(), "a": st.sampled_from([1.0, -2.0, 0.3]), "bcs": st.tuples(st.tuples(bc, bc).map(list), st.tuples(bc, bc).map(list)).map(list),
        "n": st.sampled_from([41, 49]) if trig else st.sampled_from([36, 40, 48]), "k": st.integers(5, 9), "sort": st.sampled_from(["lhp", "lhp", "rhp"]), "none": st.booleans(), "twice": st.booleans(), "unit": st.sampled_from([1, 1, 1, 1e-6, 1e-15, 1e4] if trig else [1, 1, 1, 1e-3, 1e3, 1e4])}).map(
            lambda c: dict(c, eqs=c["eqs"][:c["nf"]]))


def orders(trig):
    return st.fixed_dictionaries({
        "nf": st.integers(1, 2), "trig": st.just(trig), "dom": st.sampled_from(TDOMS if trig else DOMS), "seed": seeds, "top": st.sampled_from([1, 2, 3, 4] if trig else [2, 4]),
        "n": st.sampled_from([9, 15, 21, 31]) if trig else st.sampled_from([36, 40, 48]), "k": st.integers(1, 5), "sort": st.sampled_from(["lhp", "rhp"])})


GROUPS = [
    Group("interval", cases(False), check, quick=240, thorough=4000, weight=2, cpu=120),
    Group("periodic", cases(True), check, quick=140, thorough=3000, cpu=120),
    Group("orders", orders(False), check_orders, quick=40, thorough=1500, cpu=120),
    Group("orders-periodic", orders(True), check_orders, quick=60, thorough=2000, cpu=120),
]
