"""P23 Boundary-value solves satisfy the equation and conditions."""
import numpy as np
from hypothesis import strategies as st
from ..gens import seeds
from ..harness import Group, require
from .p22 import fun, cheb_state, trig_state, quiet, DOMS

RULE = """Cases are manufactured boundary- and initial-value problems with a known solution: linear problems of order one to four with variable
coefficients, advection, integral terms and one or two functions; semilinear problems started near their solution; periodic problems;
all of them uniquely solvable by construction. Varied are the solver, adaptivity, size, starting point, the order and scale of the conditions, strings or
callables, and parameters. Non-trivial: the exact solution is not zero and the solver reports success."""
ORACLE = """the manufactured solution, evaluated at fresh points; boundary conditions evaluated on it; agreement between solvers and repeated solves"""

TDOMS = [[-1, 1], [0, 2], [-np.pi, np.pi]]


def series(c):
    return "[" + ", ".join("%.17g" % v for v in c) + "]"


def interp(f, dom, deg=46):
    """Chebyshev coefficients of a smooth function."""
    t = np.cos(np.pi * (np.arange(deg + 1) + 0.5) / (deg + 1))
    x = (dom[0] + dom[1]) / 2 + (dom[1] - dom[0]) / 2 * t
    c = np.polynomial.chebyshev.chebfit(t, f(x), deg)
    c[np.abs(c) < 1e-16 * np.abs(c).max()] = 0
    return c


def known(c, dom):
    return "lambda x: np.polynomial.chebyshev.chebval((2 * x - %.17g) / %.17g, %s)" % (dom[0] + dom[1], dom[1] - dom[0], series(c))


COEFFS = {"1": ("1", lambda x: 1 + 0 * x), "x": ("x", lambda x: x), "x2": ("x**2", lambda x: x ** 2), "cos": ("cos(x)", np.cos), "exp": ("exp(x / 4)", lambda x: np.exp(x / 4)),
          "neg": ("(-1)", lambda x: -1 + 0 * x)}
POS = {"0": ("0", lambda x: 0 * x), "1": ("1", lambda x: 1 + 0 * x), "x2": ("x**2", lambda x: x ** 2), "cos": ("(2 + cos(x))", lambda x: 2 + np.cos(x)), "exp": ("exp(x / 4)", lambda x: np.exp(x / 4))}


def problem(case):
    """Equations (strings), boundary conditions and the manufactured solution."""
    nf, dom, m, trig = case["nf"], case["dom"], case["order"], case["trig"]
    S = (trig_state if trig else cheb_state)(case["seed"], nf, dom, case["deg"], case["scale"])
    names = ["u", "v"][:nf]
    L = (dom[1] - dom[0])
    eqs, cf, fs = [], {}, []
    for i in range(nf):
        u = names[i]
        sign = {1: 1, 2: -1, 3: 1, 4: 1}[m]
        terms = ["%sdiff(%s, x, %d)" % ("-" if sign < 0 else "", u, m) if m > 1 else "diff(%s, x)" % u]
        parts = [lambda x, i=i: sign * S.at(i, m, x).real]
        if case["adv"] and m == 2:
            t, f = COEFFS[case["adv"]]
            terms.append("%s * diff(%s, x)" % (t, u))
            parts.append(lambda x, i=i, f=f: f(x) * S.at(i, 1, x).real)
        t, f = POS[case["pos"]]
        if trig:
            w = 0.0 if case["pos"] == "1" else 1.0
            t, f = ("(1.5 + %r * cos(%.17g * (x - %.17g)))" % (w, 2 * np.pi / L, dom[0]), lambda x: 1.5 + w * np.cos(2 * np.pi / L * (x - dom[0]))) if w else ("1.5", lambda x: 1.5 + 0 * x)
        if t != "0":
            terms.append("%s * %s" % (t, u))
            parts.append(lambda x, i=i, f=f: f(x) * S.at(i, 0, x).real)
        if nf > 1:
            j = 1 - i
            terms.append("0.1 * %s" % names[j])
            parts.append(lambda x, j=j: 0.1 * S.at(j, 0, x).real)
        if case["cubic"]:
            terms.append("%s**3" % u)
            parts.append(lambda x, i=i: S.at(i, 0, x).real ** 3)
        if case["int"] and not trig:
            terms.append("int(%s, x) / %.17g" % (u, 20 * L))
            s, w = np.polynomial.legendre.leggauss(40)
            q = np.dot(w, S.at(i, 0, (dom[0] + dom[1]) / 2 + L / 2 * s).real) * L / 2
            parts.append(lambda x, q=q: q / (20 * L) + 0 * x)
        rhs = lambda x, parts=tuple(parts): sum(p(x) for p in parts)
        if trig:
            # trigonometric interpolation of the right-hand side, written out
            N = 41
            x = dom[0] + L * np.arange(N) / N
            F = np.fft.rfft(rhs(x)) / N
            text = "%.17g" % F[0].real
            for k in range(1, len(F)):
                arg = "(%.17g * (x - %.17g))" % (2 * np.pi * k / L, dom[0])
                if abs(F[k].real) > 1e-15:
                    text += " + %.17g * cos%s" % (2 * F[k].real, arg)
                if abs(F[k].imag) > 1e-15:
                    text += " - %.17g * sin%s" % (2 * F[k].imag, arg)
            terms.append("-(%s)" % text)
        else:
            cf["rhs%d" % i] = known(interp(rhs, dom), dom)
            terms.append("-rhs%d" % i)
            if case["par"]:
                cf["sol%d" % i] = known(S.c[i], dom)
                terms.append("a * (%s - sol%d)" % (u, i) if sign > 0 or m == 2 else "0")
        eqs.append(" + ".join(terms).replace("+ -", "- ") if case["unit"] == 1 else "%r * (%s)" % (case["unit"], " + ".join(terms).replace("+ -", "- ")))
        fs.append(rhs)
    # conditions
    conds = []
    for i in range(nf):
        a, b = float(dom[0]), float(dom[1])
        kind = case["bc"]
        if trig:
            break
        if m == 1:
            cs = [[(1, 0, a)]]
        elif m == 3 or (m == 2 and kind == "initial"):
            cs = [[(1, o, a)] for o in range(m)]
        elif m == 4:
            cs = [[(1, 0, a)], [(1, 1, a)], [(1, 0, b)], [(1, 1, b)]] if kind != "hinged" else [[(1, 0, a)], [(1, 2, a)], [(1, 0, b)], [(1, 2, b)]]
        elif kind == "robin":
            cs = [[(-1, 1, a), (2, 0, a)], [(1, 1, b), (0.5, 0, b)]]
        elif kind == "mixed":
            cs = [[(1, 0, a)], [(1, 1, b)]]
        else:
            cs = [[(1, 0, a)], [(1, 0, b)]]
        conds += [(i, c) for c in cs]
    r = np.random.default_rng(case["seed"])
    conds = [conds[k] for k in r.permutation(len(conds))] if case["shuffle"] else conds
    bcs = []
    for i, c in conds:
        scale = float(r.choice([1.0, 2.0, -1.0, 0.5])) if case["shuffle"] else 1.0
        value = scale * sum(w * S.at(i, o, np.array([x]))[0].real for w, o, x in c)
        name = names[i]
        text = " + ".join("%r * %s(%r)" % (scale * w, name if o == 0 else "np.diff(%s, %d)" % (name, o) if o > 1 else "np.diff(%s)" % name, x) for w, o, x in c) + " - %.17g" % value
        text = text.replace("- -", "+ ")
        bcs.append(eval("lambda %s: %s" % (", ".join(names), text), {"np": np}) if case["call"] else text)
    return S, eqs, bcs, cf


def operator(case, eqs, bcs, cf):
    from funpy.colloc.chebOp import ChebOp
    op = ChebOp(colloc="trigspec" if case["trig"] else "ultraS", functions=["u", "v"][:case["nf"]], parameters={"a": case["a"]}, domain=case["dom"], n=case["n"],
                constant_functions=cf, diff_order=case["order"])
    op.eqn = eqs
    if case["split"]:                                # part of the equations as constraints
        names = ["u", "v"][:case["nf"]]
        op.eqn = ["%s - %r * a * %s" % (e, 2 * case["unit"], f) for e, f in zip(eqs, names)]
        op.cts = ["%r * a * %s" % (2 * case["unit"], f) for f in names]
    op.bcs = bcs
    return op


def start(case, S):
    if case["start"] == "none":
        return None
    D = (trig_state if case["trig"] else cheb_state)(case["seed"] + 5, case["nf"], case["dom"], case["deg"], 1.0 if not case["cubic"] else 0.05)
    if case["start"] == "near" or case["cubic"]:
        return fun(S.shifted(D, 0.1).merged(), 9 if not case["trig"] else 17)
    return fun(D, 9 if not case["trig"] else 17)


def check(case):
    from funpy.vectorspaces import DeflationState
    S, eqs, bcs, cf = problem(case)
    nf, dom, trig = case["nf"], case["dom"], case["trig"]
    a, b = dom
    xs = a + (b - a) * np.array([0.0, 0.03, 0.17, 0.31, 0.5, 0.64, 0.77, 0.91, 1.0])
    ref = np.array([S.at(i, 0, xs).real for i in range(nf)]).T
    size = max(1.0, np.abs(ref).max())
    op = operator(case, eqs, bcs, cf)
    labels = set()
    sols = []
    for method in case["methods"]:
        u0 = start(case, S)
        before = None if u0 is None else u0.coeffs.copy()
        begin = u0
        if case["state"] and u0 is not None:
            begin = DeflationState(u=u0, a=case["a"] + 0.75, n=case["n"])
        with quiet():
            args = dict(method=method, adaptive=case["adaptive"])
            if case["adaptive"]:
                args.update(eps=1e-9, up_steps=5)
            soln, success, res = op.solve(begin, **args)
        require(isinstance(bool(success), bool) and soln is not None, "solver %s returned %r", method, soln)
        if u0 is not None and not case["adaptive"] and not case["state"]:
            require(np.array_equal(before[:min(before.shape[0], u0.coeffs.shape[0])], u0.coeffs[:before.shape[0]]) or trig, "solving changed the starting point")
        got = np.asarray(soln(xs)).reshape(len(xs), -1)
        require(got.shape == ref.shape, "solution with values of shape %s", got.shape)
        require(list(soln.domain) == list(dom) and soln.type == ("trig" if trig else "cheb"), "solution of type %s on %s", soln.type, soln.domain)
        bad = np.abs(got - ref).max() / size
        tol = 2e-7
        if success:
            require(bad <= tol, "%s (adaptive %s) reports success, but its solution of %s with %s is off by %.3g (residual reported %.3g)", method, case["adaptive"], eqs, bcs, bad, res)
            require(res <= 1e-4 * max(1, case["unit"]), "%s reports success with residual %.3g", method, res)
            sols.append(got)
            labels.add("ok-" + method)
        else:
            labels.add("no-" + method)
        if method == "giant" or case["adaptive"]:
            require(bool(success), "%s (adaptive %s) fails to solve %s with %s: error %.3g, residual %.3g", method, case["adaptive"], eqs, bcs, bad, res)
        elif not case["cubic"]:
            require(bad <= tol, "%s gives up on the linear problem %s with %s: error %.3g, residual %.3g", method, eqs, bcs, bad, res)
    labels |= {"order%d" % case["order"], "eqs%d" % nf, "trig" if trig else "cheb", "adaptive" if case["adaptive"] else "fixed"}
    return sorted(labels) if sols and np.abs(ref).max() > 1e-8 else []


METHODS = ["giant", "nleq", "qnerr", "lu", "qr"]


def check_late(case):
    """Forcing without low modes: the coarsest grids of an adaptive solve see nothing of it."""
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    from .p28 import cheb
    dom, m = case["dom"], case["m"]
    c = np.zeros(m + len(case["c"]))
    c[m:] = case["c"]
    (a, b), h = dom, (dom[1] - dom[0]) / 2
    f = lambda x: np.polynomial.chebyshev.chebval((x - a) / h - 1, c)
    x, D, _ = cheb(70, dom)
    k = Fun(op=f, domain=list(dom))
    if np.abs(np.asarray(k(x)).ravel() - f(x)).max() > 1e-10:      # (the sampling grid of the constructor misses it as well)
        return []
    A = -D @ D + case["q"] * np.eye(len(x))
    A[[0, -1]] = np.eye(len(x))[[0, -1]]
    g = f(x)
    g[[0, -1]] = 0
    ref = np.linalg.solve(A, g)
    cf = {"k": "lambda x: np.polynomial.chebyshev.chebval((x - %.17g) / %.17g - 1, %s)" % (a, h, series(c))}
    begin = None if case["start"] == "none" else Fun(op=lambda x: 0 * x, domain=list(dom)).prolong(1 if case["start"] == "one" else 17)
    with quiet():
        op = ChebOp(colloc="ultraS", functions=["u"], parameters={}, domain=dom, n=17, constant_functions=cf, diff_order=2)
        op.eqn = ["-diff(u, x, 2) + %r * u - k" % case["q"]]
        op.bcs = ["u(%r)" % float(a), "u(%r)" % float(b)]
        soln, success, res = op.solve(begin, method=case["method"], adaptive=True)
    bad = np.abs(np.asarray(soln(x)).ravel() - ref).max() / np.abs(ref).max()
    require(not success or bad <= 1e-5, "%s reports success for %s with k = %s, but its solution is off by %.3g", case["method"], op.eqn, cf["k"], bad)
    require(bool(success), "%s fails to solve %s", case["method"], op.eqn)
    return ["m%02d" % (m - m % 4), case["method"], case["start"]]


def check_constant(case):
    """Constant solutions (one coefficient per function) of algebraic equations with one solution."""
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    n, dom = case["nf"], case["dom"]
    r = np.random.default_rng(case["seed"])
    names = ["u", "v", "w"][:n]
    A = np.round(r.uniform(-1, 1, (n, n)), 2)
    g = np.round(r.uniform(-0.5, 0.5, n), 2) / (dom[1] - dom[0])
    q = np.round(r.uniform(0, 2, n), 2) * case["cubic"]
    A += np.diag(2 + np.abs(A).sum(1))               # diagonally dominant derivative at every state: one solution
    c = r.uniform(-1, 1, n) * case["scale"]
    L = dom[1] - dom[0]
    k = [int(r.integers(n)) for _ in range(n)]
    rhs = A @ c + q * c ** 3 + g * L * c[k]
    with quiet():
        op = ChebOp(colloc="ultraS", functions=list(names), parameters={"a": 1.0}, domain=dom, n=1, diff_order=2)
        op.eqn = [" + ".join("%r * a * %s" % (float(A[i, j]), names[j]) for j in range(n)) + " + %r * %s**3 + %r * int(%s, x) - %.17g"
                  % (float(q[i]), names[i], float(g[i]), names[k[i]], rhs[i]) for i in range(n)]
        x0 = (c + 0.05 * case["scale"] * r.uniform(-1, 1, n)) if case["cubic"] else r.uniform(-1, 1, n)
        u0 = Fun.from_coeffs(x0[None].copy(), n, domain=dom)
    labels = set()
    for m in METHODS:
        with quiet():
            soln, success, res = op.solve(u0, method=m, adaptive=False)
        got = np.asarray(soln.coeffs)
        require(np.array_equal(u0.coeffs, x0[None]), "solving changed the starting point")
        if success:
            require(got.shape == (1, n), "constant solution with coefficients of shape %s", got.shape)
            bad = np.abs(got[0] - c).max() / max(1, np.abs(c).max())
            require(bad <= 1e-7 and list(soln.domain) == list(dom), "%s reports success for %s, but its solution %s is off by %.3g", m, op.eqn, got, bad)
            labels.add("ok-" + m)
        require(success or m != "giant", "%s fails to solve %s", m, op.eqn)
    return sorted(labels | {"eqs%d" % n})


def cases(orders, trig=False, cubic=False):
    return st.fixed_dictionaries({
        "nf": st.integers(1, 2), "order": st.sampled_from(orders), "trig": st.just(trig), "cubic": st.just(cubic), "dom": st.sampled_from(TDOMS if trig else DOMS), "seed": seeds,
        "deg": st.integers(1, 5) if trig else st.integers(0, 8), "scale": st.sampled_from([1.0, 1.0, 0.1]) if cubic else st.sampled_from([1.0, 1.0, 10.0, 0.01]),
        "adv": st.sampled_from(["", "", "1", "x", "cos", "neg"]) if not trig else st.sampled_from(["", "1", "neg"]), "pos": st.sampled_from(sorted(POS)), "int": st.booleans() if not cubic else st.just(False), "par": st.booleans(),
        "bc": st.sampled_from(["dirichlet", "robin", "mixed", "initial", "hinged"]), "shuffle": st.booleans(), "call": st.booleans(), "n": st.sampled_from([41, 49, 64, 65]) if not trig else st.sampled_from([33, 41, 65]),
        "start": st.sampled_from(["none", "random", "near"]) if not cubic else st.just("near"), "state": st.booleans(), "a": st.sampled_from([0.5, 1.0, 2.0]),
        "adaptive": st.booleans(), "split": st.sampled_from([False, False, False, True]), "unit": st.sampled_from([1, 1, 1, 1e-6, 1e-12, 1e6]), "methods": st.permutations(METHODS).map(lambda m: list(m[:2]))}).map(
            # (the sparse QR factorisation takes badly scaled conditions and equations for dependent ones)
            lambda c: c if c["unit"] >= 1 else dict(c, methods=[m if m != "qr" else "lu" for m in c["methods"]]))


GROUPS = [
    Group("linear", cases([1, 2, 2, 2]), check, quick=48, thorough=1500, weight=2, cpu=120),
    Group("high", cases([3, 4]), check, quick=24, thorough=800, cpu=120),
    Group("nonlinear", cases([2], cubic=True), check, quick=32, thorough=1000, weight=2, cpu=120),
    Group("trig", cases([1, 2, 2, 3, 4], trig=True), check, quick=24, thorough=800, cpu=120),
    Group("trig-nonlinear", cases([2], trig=True, cubic=True), check, quick=16, thorough=600, cpu=120),
    Group("constant", st.fixed_dictionaries({"nf": st.integers(1, 3), "dom": st.sampled_from(DOMS), "seed": seeds, "cubic": st.sampled_from([0, 1]), "scale": st.sampled_from([1.0, 1.0, 0.1, 3.0])}),
          check_constant, quick=24, thorough=600, cpu=120),
    Group("late", st.fixed_dictionaries({
        "dom": st.sampled_from(DOMS), "m": st.integers(0, 26), "c": st.lists(st.sampled_from([1.0, -1.0, 0.5, 2.0]), min_size=1, max_size=3), "q": st.sampled_from([0.0, 1.0, 3.0]),
        "start": st.sampled_from(["none", "one", "zero"]), "method": st.sampled_from(["giant", "nleq"])}), check_late, quick=40, thorough=1000, cpu=120),
]
