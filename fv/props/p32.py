"""P32 Printed expressions evaluate to the expression."""
import numpy as np
from hypothesis import strategies as st
from .. import opexprs as ox
from ..opexprs import State, value
from ..gens import seeds
from ..harness import Group, require
from .p22 import cheb_state, fun, unresolved

RULE = """Cases are expression trees (sums, differences, products, quotients with positive denominators, powers, sine, cosine, exponential, hyperbolic and
inverse functions, parameters, the space variable, functions, derivatives, integrals; conditions, maxima, absolute values and steps) turned into
sympy expressions and printed as code (also integrals up to x), which is executed on floats, arrays and function objects. Non-trivial: the value depends on at least
one function or symbol and is not zero."""
MORE = 3                                             # quick runs: this many times the cases below
ORACLE = "an independent numerical evaluator of the expression tree"


def build(e, F, X, P, un):
    """The tree as a sympy expression."""
    import sympy as sp
    t = e[0]
    go = lambda a: build(a, F, X, P, un)
    if t == "c":
        v = e[1]
        return sp.Integer(v) if v == int(v) else sp.Float(v)
    if t == "x":
        return X
    if t == "pi":
        return sp.pi
    if t == "p":
        return P[e[1]]
    if t == "f":
        return F[e[1]] if e[2] == 0 else sp.Derivative(F[e[1]], (X, e[2]))
    if t in "+-*/":
        a, b = go(e[1]), go(e[2])
        return a + b if t == "+" else a - b if t == "-" else a * b if t == "*" else a / b
    if t == "^":
        return go(e[1]) ** e[2]
    if t == "neg":
        return -go(e[1])
    if t == "int":
        return sp.Integral(go(e[1]), X)
    if t == "max":
        return sp.Max(go(e[1]), go(e[2]))
    if t == "min":
        return sp.Min(go(e[1]), go(e[2]))
    if t == "abs":
        return sp.Abs(go(e[1]))
    if t == "step":
        return sp.Heaviside(go(e[1]))
    if t == "if":
        return sp.Piecewise((go(e[1]), go(e[2]) > go(e[3])), (go(e[4]), True))
    return getattr(sp, t)(go(e[1]))


def ref(e, f, x, p, flat):
    """Value at numbers.  flat: functions are constant, so derivatives vanish and integrals (over the unit interval) are their integrands."""
    t = e[0]
    go = lambda a: ref(a, f, x, p, flat)
    if t == "c":
        return e[1] + 0 * x
    if t == "pi":
        return np.pi + 0 * x
    if t == "x":
        return x
    if t == "p":
        return p[e[1]] + 0 * x
    if t == "f":
        return f[e[1]] if e[2] == 0 else 0 * x
    if t == "+":
        return go(e[1]) + go(e[2])
    if t == "-":
        return go(e[1]) - go(e[2])
    if t == "*":
        return go(e[1]) * go(e[2])
    if t == "/":
        return go(e[1]) / go(e[2])
    if t == "^":
        return go(e[1]) ** e[2]
    if t == "neg":
        return -go(e[1])
    if t == "int":
        return go(e[1])
    if t == "max":
        return np.maximum(go(e[1]), go(e[2]))
    if t == "min":
        return np.minimum(go(e[1]), go(e[2]))
    if t == "abs":
        return np.abs(go(e[1]))
    if t == "step":
        return np.heaviside(go(e[1]), 0.5)
    if t == "if":
        return np.where(go(e[2]) > go(e[3]), go(e[1]), go(e[4]))
    return ox.FUN[t](go(e[1]))


def largest(e, f, x, p):
    """Largest intermediate value, and how close a condition is to switching."""
    big, near = 1.0, 1.0
    for a in ox.sub(e):
        v = ref(a, f, x, p, True)
        big = max(big, np.abs(v).max())
        if a[0] in ("step", "abs"):
            near = min(near, np.abs(ref(a[1], f, x, p, True)).min())
        if a[0] in ("max", "min"):
            near = min(near, np.abs(ref(a[1], f, x, p, True) - ref(a[2], f, x, p, True)).min())
        if a[0] == "if":
            near = min(near, np.abs(ref(a[2], f, x, p, True) - ref(a[3], f, x, p, True)).min())
    return big, near


def check_numbers(case):
    """Functions as numbers or arrays: npcode and spcode take symbols, odecode functions of x."""
    import sympy as sp
    import funpy
    nf, e, kind = case["nf"], case["e"], case["print"]
    names = ["u", "v", "w"][:nf]
    X = sp.Symbol("x")
    P = {k: sp.Symbol(k) for k in ("a", "b")}
    F = [sp.Function(n)(X) for n in names] if kind == "odecode" else [sp.Symbol(n) for n in names]
    with_names = {"function_names": names} if kind == "odecode" else {}
    expr = build(e, F, X, P, kind)
    kept = sp.srepr(expr)
    r = np.random.default_rng(case["seed"])
    shape = {"float": (), "array": (5,)}[case["shape"]]
    f = [np.round(r.uniform(-1, 1, shape), 3) + 0.0005 for _ in names]
    x = np.round(r.uniform(0, 1, shape), 3) + 0.0005
    p = {"a": 1.7, "b": 0.3}
    big, near = largest(e, f, x, p)
    if case["shape"] == "array" and (ox.has(e, "max") or ox.has(e, "min")):              # numpy's maximum of a list of equal shapes only
        f, x = [g[0] for g in f], x[0]
    if near < 1e-6 or not np.isfinite(big) or big > 1e6:
        return []
    for qualified in (case["qualified"], not case["qualified"]):
        check_code(case, expr, kept, with_names, qualified, names, f, p, x, big)
    want = ref(e, f, x, p, True)
    labels = {kind, case["shape"]}
    for t in ("f", "int", "if", "max", "step", "sech", "/", "^"):
        if ox.has(e, t):
            labels.add(t)
    moved = np.abs(ref(e, [g + 0.37 for g in f], x + 0.1, {"a": 2.1, "b": 0.7}, True) - want).max() > 1e-8
    return sorted(labels) if moved else []


def check_code(case, expr, kept, with_names, qualified, names, f, p, x, big):
    import scipy
    import scipy.special
    import sympy as sp
    import funpy
    e, kind = case["e"], case["print"]
    scope = {"numpy": np, "np": np, "pi": np.pi, "scipy": scipy}
    code = getattr(funpy, kind)(expr, fully_qualified_modules=qualified, **with_names)
    again = getattr(funpy, kind)(expr, fully_qualified_modules=qualified, **with_names)
    require(isinstance(code, str) and code == again, "%s printed %r, then %r", kind, code, again)
    require(sp.srepr(expr) == kept, "printing changed the expression")
    if not qualified:
        scope.update({n: getattr(np, n) for n in dir(np) if n not in ("abs", "max", "min")})
    got = eval(code, scope, {**dict(zip(names, f)), **p, "x": x})
    want = ref(e, f, x, p, True)
    bad = np.abs(np.asarray(got) - want).max() / big
    require(bad <= 1e-12, "%s(%s) = %r evaluates to %r instead of %r", kind, expr, code, got, want)


def check_functions(case):
    """cpcode: the code runs on function objects, to functions (no_evaluation) or to values at x."""
    import sympy as sp
    import funpy
    nf, e, dom = case["nf"], case["e"], case["dom"]
    names = ["u", "v", "w"][:nf]
    X = sp.Symbol("x")
    P = {k: sp.Symbol(k) for k in ("a", "b")}
    expr = build(e, [sp.Function(n)(X) for n in names], X, P, "cpcode")
    if not any(a[0] == "f" for a in ox.sub(e)) or not expr.atoms(sp.Function):
        return []
    S = cheb_state(case["seed"], nf, dom, case["deg"])
    p = {"a": 1.7, "b": 0.3}
    xs = dom[0] + (dom[1] - dom[0]) * np.array([0.0, 0.13, 0.5, 0.77, 1.0])
    want = value(e, xs, S, p).real
    big = max([1.0] + [np.abs(value(a, xs, S, p)).max() for a in ox.sub(e) if a[0] != "int"])
    if not np.isfinite(big) or big > 1e6 or unresolved(e, np.linspace(dom[0], dom[1], 60), S, p):
        return []
    if any(a[0] == "/" and np.abs(value(a[2], np.linspace(dom[0], dom[1], 60), S, p)).max() > 8 for a in ox.sub(e)):       # (poles close by)
        return []
    scope = {**p, **dict(zip(names, fun(S))), "np": np, "pi": np.pi, **{n: getattr(np, n) for n in ("sin", "cos", "exp", "tanh", "cosh", "sinh", "sqrt", "log", "tan", "arctan")}}
    m = max([a[2] for a in ox.sub(e) if a[0] == "f"] + [0])
    tol = 2e-12 * 20.0 ** m
    scope["x"] = fun(State([np.array([(dom[0] + dom[1]) / 2, (dom[1] - dom[0]) / 2])], dom))
    code = funpy.cpcode(expr, no_evaluation=True, function_names=names, fully_qualified_modules=False)
    got = eval(code, scope)
    got = np.asarray(got(xs) if hasattr(got, "domain") else got).reshape(-1)             # an integral is a number
    bad = np.abs(got - want).max() / big
    require(bad <= tol, "cpcode(%s) = %r is off by %.3g", expr, code, bad)
    if not ox.has(e, "int"):                         # the evaluated form
        code = funpy.cpcode(expr, allow_unknown_functions=True, fully_qualified_modules=False)
        for pts in (xs, xs[3]):
            got = np.asarray(eval(code, dict(scope, x=pts))).reshape(-1)
            bad = np.abs(got - value(e, np.atleast_1d(pts), S, p).real).max() / big
            require(bad <= tol, "cpcode(%s) = %r at points is off by %.3g", expr, code, bad)
    return sorted({"order%d" % m} | {t for t in ("int", "sin", "exp", "/", "x") if ox.has(e, t)}) if np.abs(want).max() > 1e-8 else []


def check_running(case):
    """Integrals up to x: functions vanishing at the left end."""
    import sympy as sp
    import funpy
    e, dom = case["e"], case["dom"]
    X = sp.Symbol("x")
    P = {k: sp.Symbol(k) for k in ("a", "b")}
    U = sp.Function("u")(X)
    inner = build(e, [U], X, P, "cpcode")
    if len(inner.atoms(sp.Function)) != 1 or ox.has(e, "/"):
        return []
    outer = sp.Integral(inner, (X, dom[0], X))
    S = cheb_state(case["seed"], 1, dom, case["deg"])
    p = {"a": 1.7, "b": 0.3}
    scope = {**p, "u": fun(S), "np": np, "x": fun(State([np.array([(dom[0] + dom[1]) / 2, (dom[1] - dom[0]) / 2])], dom))}
    xs = dom[0] + (dom[1] - dom[0]) * np.array([0.0, 0.13, 0.5, 0.77, 1.0])
    t, w = np.polynomial.legendre.leggauss(60)
    want = np.array([(y - dom[0]) / 2 * (w @ value(e, (y + dom[0]) / 2 + (y - dom[0]) / 2 * t, S, p).real) for y in xs])
    size = max(1.0, np.abs(value(e, np.linspace(dom[0], dom[1], 60), S, p)).max())
    how, c = case["how"], case["c"]
    if how == "scaled":
        outer, want, size = c * outer, c * want, size * abs(c)
    if how == "plus":
        outer, want = outer + U ** 2, want + value(["f", 0, 0], xs, S, p).real ** 2
    if how == "square":
        outer, want, size = outer ** 2, want ** 2, size ** 2 * (1 + dom[1] - dom[0])
    size += np.abs(value(["f", 0, 0], np.linspace(dom[0], dom[1], 60), S, p)).max() ** 2
    if size > 1e8:
        return []
    code = funpy.cpcode(outer, no_evaluation=True, function_names=["u"], fully_qualified_modules=False)
    got = np.asarray(eval(code, scope)(xs)).reshape(-1)
    m = max([a[2] for a in ox.sub(e) if a[0] == "f"] + [0])
    bad = np.abs(got - want).max() / size
    require(bad <= 2e-12 * 20.0 ** m, "cpcode(%s) = %r is off by %.3g", outer, code, bad)
    return [how, "order%d" % m] if np.abs(want).max() > 1e-8 else []


def trees(nf, orders, ints, special):
    f = st.builds(lambda i, o: ["f", i, o], st.integers(0, nf - 1), st.sampled_from(orders))
    leaf = st.one_of(f, f, f, st.just(["x"]), st.sampled_from([["p", "a"], ["p", "b"]]), st.builds(lambda c: ["c", c], st.sampled_from([1, 2, -3, 0.5, -0.25, 1.5])))
    if special:
        leaf = st.one_of(leaf, st.just(["pi"]))

    def grow(s):
        two = st.builds(lambda o, a, b: [o, a, b], st.sampled_from("+-**"), s, s)
        pw = st.builds(lambda a, n: ["^", a, n], s, st.integers(2, 3))
        safe = st.builds(lambda a, b: ["/", a, ["+", ["c", 2], ["^", b, 2]]], s, s)
        fn = st.builds(lambda t, a: [t, ["*", ["c", 0.5], a]], st.sampled_from(["sin", "cos", "exp"]), f)
        opts = [two, two, pw, safe, fn, st.builds(lambda a: ["neg", a], s)]
        if ints:
            opts += [st.builds(lambda a, g, o: ["int", [o, a, g]], s, f, st.sampled_from("+*"))] * 2
        if special:
            opts += [st.builds(lambda t, a: [t, ["*", ["c", 0.5], a]], st.sampled_from(["tanh", "cosh", "sinh", "sech", "sec", "tan", "atan"]), f),
                     st.builds(lambda t, a: [t, ["+", ["c", 2], ["^", a, 2]]], st.sampled_from(["log", "sqrt"]), s),
                     st.builds(lambda t, a, b: [t, a, b], st.sampled_from(["max", "min"]), s, s), st.builds(lambda a: ["abs", a], s), st.builds(lambda a, b: ["step", ["-", a, b]], f, leaf),
                     st.builds(lambda a, b, c, d: ["if", a, b, c, d], s, f, leaf, s)]
        return st.one_of(*opts)
    return st.recursive(leaf, grow, max_leaves=5)


def numbers(nf):
    return st.sampled_from(["npcode", "spcode", "odecode", "odecode"]).flatmap(lambda k: st.fixed_dictionaries({
        "nf": st.just(nf), "print": st.just(k), "e": trees(nf, [0, 0, 1, 2] if k == "odecode" else [0], k == "odecode", True), "seed": seeds,
        "shape": st.sampled_from(["float", "array"]), "qualified": st.booleans()}))


def functions(nf):
    return st.fixed_dictionaries({"nf": st.just(nf), "e": trees(nf, [0, 0, 0, 1, 1, 2, 3, 4, 5], True, False), "seed": seeds, "deg": st.sampled_from([1, 3, 6]),
                                  "dom": st.sampled_from([[-1, 1], [0, 1], [0, 2], [-1, 0.5], [2, 3]])})


def running():
    f = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4]).map(lambda o: ["f", 0, o])
    leaf = st.one_of(f, f, f, st.just(["x"]), st.just(["p", "a"]), st.builds(lambda c: ["c", c], st.sampled_from([1, 2, -3, 0.5])))
    tree = st.recursive(leaf, lambda s: st.one_of(st.builds(lambda o, a, b: [o, a, b], st.sampled_from("+-**"), s, s), st.builds(lambda a: ["^", a, 2], s)), max_leaves=4)
    tree = st.builds(lambda o, a, b: [o, a, b], st.sampled_from("+-**"), f, tree)
    return st.fixed_dictionaries({"e": tree, "seed": seeds, "deg": st.sampled_from([1, 3, 6]), "how": st.sampled_from(["plain", "scaled", "plus", "square"]),
                                  "c": st.sampled_from([2, -3, 0.5]), "dom": st.sampled_from([[-1, 1], [0, 1], [0, 2], [-1, 0.5], [2, 3]])})


GROUPS = [
    Group("numbers", st.integers(1, 3).flatmap(numbers), check_numbers, quick=400, thorough=8000),
    Group("functions", st.integers(1, 2).flatmap(functions), check_functions, quick=150, thorough=3000),
    Group("running", running(), check_running, quick=100, thorough=2500),
]
