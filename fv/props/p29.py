"""P29 Operators keep their meaning when they are combined, copied and stored."""
import copy
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from .. import opexprs as ox
from ..gens import seeds
from ..harness import Group, require
from .p22 import DOMS, PARS, build, cheb_state, trig_state, fun, points, quiet, system, with_int

RULE = """Cases are generated systems of one or two equations (local, with integrals, periodic) with parameters, named constant functions
and boundary conditions. Combinations: random expressions in sums, differences, signs and multiples of the derivatives of two operators at
several states and of their residuals. Copies and files: the operator is copied or written and read back, before or after it was compiled
and used, then the copy is changed. Non-trivial: the operators act on the test functions differently from zero (combinations), or the
operator has a non-zero residual (copies and files)."""
ORACLE = """linearity: the action of a combination on test functions is the combination of the actions; a copy, or the operator read from
the file, has the same description, residual, matrix and conditions as the original, and changing the copy leaves the original alone"""

NODES, WEIGHTS = np.polynomial.legendre.leggauss(60)


def act(Q, D, xs, dom, nf):
    """The action of every block on the test functions."""
    out = np.zeros((nf, nf, len(xs)), dtype=complex)
    h = (dom[1] - dom[0]) / 2
    y = (dom[0] + dom[1]) / 2 + h * NODES
    for i in range(nf):
        for j in range(nf):
            B = Q[i, j]
            info = np.asarray(B.info())
            for k, c in enumerate(B.coeffs):
                t = np.asarray(c(xs)).reshape(-1) * D.at(j, k, xs)
                require(info[k] or np.abs(t).max() == 0, "the derivative of order %d is not announced by a block", k)
                out[i, j] += t
            require((B.icoeffs is None) == (B.integrand is None), "half an integral term")
            if B.icoeffs is not None:
                require(len(B.icoeffs) == len(B.integrand), "%d factors for %d integrals", len(B.icoeffs), len(B.integrand))
                for c, d in zip(B.icoeffs, B.integrand):
                    s = np.dot(WEIGHTS, np.asarray(d(y)).reshape(-1) * D.at(j, 0, y)) * h
                    out[i, j] += np.asarray(c(xs)).reshape(-1) * s
    return out


def combine(t, leaves):
    k = t[0]
    if k == "leaf":
        return leaves[t[1] % len(leaves)]
    if k == "neg":
        return -combine(t[1], leaves)
    if k == "pos":
        return +combine(t[1], leaves)
    if k == "rmul":
        return t[2] * combine(t[1], leaves)
    if k == "mul":
        return combine(t[1], leaves) * t[2]
    a, b = combine(t[1], leaves), combine(t[2], leaves)
    return a + b if k == "add" else a - b


def weight(t, c=1.0):
    """Sum of the moduli of the factors: the size rounding is measured against."""
    if t[0] == "leaf":
        return abs(c)
    if t[0] in ("add", "sub"):
        return weight(t[1], c) + weight(t[2], c)
    return weight(t[1], c * t[2] if "mul" in t[0] else c)


def check_algebra(case):
    nf, dom, trig = case["nf"], case["dom"], case["trig"]
    make = trig_state if trig else cheb_state
    lead = lambda eqs: [["+", e, ["*", ["c", 17], ["f", i, 2]]] for i, e in enumerate(eqs)]
    xs = points(dom)
    S = [make(s, nf, dom, case["deg"]) for s in case["states"]]
    n = 33 if trig else 40
    us = [fun(s, n) for s in S]
    with quiet():
        ops = [build(case, lead(case[k]), nf, dom, trig, n=n) for k in ("eqs", "other")]
        for op in ops:
            op.compile()
            op.linSys.setDisc(n)
        Q, R, snap = [], [], []
        D = make(case["states"][0] + 7, nf, dom, 3)
        for op in ops:
            for u in us:
                Q.append(op.linSys.quasi(u))
                snap.append(act(Q[-1], D, xs, dom, nf))
                op.linSys.update_partial(u)
                r = op.linSys.rhs
                R.append((+r, np.array(r.values)))
    for q, s in zip(Q, snap):
        require(np.abs(act(q, D, xs, dom, nf) - s).max() <= 1e-13 * (1 + np.abs(s).max()), "a derivative changed when another one was computed")
    size = max(1.0, max(np.abs(s).max() for s in snap))
    for t in case["trees"]:
        with quiet():
            C = combine(t, Q)
        ref = combine(t, snap)
        require(C.shape == (nf, nf), "combination of shape %s", C.shape)
        bad = np.abs(act(C, D, xs, dom, nf) - ref).max()
        require(bad <= (1e-11 if not trig else 1e-7) * size * max(1, weight(t)), "combination %s of derivatives is off by %.3g", t, bad)
    for q, s in zip(Q, snap):
        require(np.abs(act(q, D, xs, dom, nf) - s).max() <= 1e-13 * (1 + np.abs(s).max()), "a derivative changed when it was combined")
    vals = [v for _, v in R]
    from funpy.colloc.rhs import Residual
    res = [Residual(None, n_disc=n, values=v.copy()) for v in vals]
    for t in case["trees"]:
        got = combine(t, res).values
        ref = combine(t, vals)
        require(got.shape == ref.shape and np.abs(got - ref).max() <= 1e-14 * max(1, weight(t)) * max(1, max(np.abs(v).max() for v in vals)),
                "combination %s of residuals is wrong", t)
    require(all(np.array_equal(r.values, v) for r, v in zip(res, vals)), "a residual changed when it was combined")
    for f in (lambda: Q[0][0, 0] * "2", lambda: Q[0][0, 0].__iadd__(Q[1][0, 0])):
        try:
            f()
        except (ValueError, RuntimeError, TypeError):
            continue
        require(False, "a meaningless combination of operators was accepted")
    labels = {"eqs%d" % nf, "trig" if trig else "cheb"} | {k for t in case["trees"] for k in kinds(t)}
    if any(ox.has(e, "int") for e in case["eqs"] + case["other"]):
        labels.add("int")
    return sorted(labels) if size > 1e-3 else []


def kinds(t):
    return {t[0]}.union(*[kinds(s) for s in t[1:] if isinstance(s, list)]) - {"leaf"}


def tree(depth):
    leaf = st.builds(lambda i: ["leaf", i], st.integers(0, 3))
    c = st.sampled_from([2, -1.0, 0.5, -3, 0.0, 1.7])
    if not depth:
        return leaf
    s = tree(depth - 1)
    return st.one_of(st.builds(lambda a, b: ["add", a, b], s, s), st.builds(lambda a, b: ["sub", a, b], s, s), st.builds(lambda a: ["neg", a], s),
                     st.builds(lambda a: ["pos", a], s), st.builds(lambda a, z: ["mul", a, z], s, c), st.builds(lambda a, z: ["rmul", a, z], s, c), leaf)


def algebra(trig):
    def go(c):
        more = ox.exprs(c["nf"], PARS, 2, 0 if trig else 2, not trig, 2)
        if not trig:
            more = st.one_of(more, with_int(c["nf"], more))
        return st.fixed_dictionaries({"other": st.lists(more, min_size=c["nf"], max_size=c["nf"]), "trees": st.lists(tree(3), min_size=1, max_size=4),
                                      "states": st.lists(seeds, min_size=2, max_size=2, unique=True)}).map(lambda d: dict(c, **d))
    return system(2, 0 if trig else 2, not trig, 2, trig, None if trig else with_int).flatmap(go)


# ------------------------------------------------------------------ copies and files

FIELDS = ("function_names", "constant_function_names", "operator_names", "kernels", "parameter_names", "colloc", "colloc_type", "ftype", "n_disc", "n_min",
          "eqn", "cts", "bcs", "cpar", "eps", "lin_tol", "diffOrder", "linear")


def describe(op):
    out = {}
    for k in FIELDS:
        v = getattr(op, k)
        out[k] = dict(v) if isinstance(v, dict) else list(v) if isinstance(v, (list, tuple)) else v
    out["domain"] = [float(d) for d in op.domain]
    return out


def use(op, u, trig, pars):
    """The residual, matrix and conditions at a state."""
    with quiet():
        op.compile(par=bool(op.cpar))
        op.linSys.setParameters(dict(pars))
        disc = op.discretize(u)
        M = disc.matrix()[0]
        M = M.toarray() if hasattr(M, "toarray") else np.asarray(M)
        C = [] if not op.bcs else np.asarray(disc.getConstraints(M.shape[1]))
        R = op(u)
        op.linSys.update_partial(u)
        cts = np.array(op.linSys.cts_res, dtype=float).reshape(-1) if op.bcs else []
    return [np.array(R.coeffs), M, np.array(C), np.array(cts)]


def alike(a, b):
    return all(x.shape == y.shape and (not x.size or np.abs(x - y).max() <= 1e-12 * max(1.0, np.abs(x).max())) for x, y in zip(a, b))


def check_copy(case):
    import h5py
    nf, dom, trig = case["nf"], list(case["dom"]), case["trig"]
    make = trig_state if trig else cheb_state
    names = ["u", "v"][:nf]
    eqs = [["+", e, ["*", ["c", 17], ["f", i, 2]]] for i, e in enumerate(case["eqs"])]
    n = case["n"] | 1 if trig else case["n"]
    kw = {k: v for k, v in case["kw"].items() if v is not None}
    op = build(case, eqs, nf, dom, trig, case["cpar"], n=n, **kw)
    op.eqn = [e + case["tail"] * " + 0.01 * u" for e in op.eqn]
    if not trig:
        op.bcs = ["%r * %s(%r) + %r * np.diff(%s)(%r)" % (1.0 + k, m, float(x), 0.5 * k, m, float(x)) for m in names for k, x in enumerate(dom)]
    S = [make(s, nf, dom, case["deg"]) for s in case["states"]]
    us = [fun(s, n) for s in S]
    pars = dict(case["pars"])
    labels = {case["how"], "eqs%d" % nf, "trig" if trig else "cheb", "used" if case["used"] else "fresh"}
    if case["used"]:
        use(op, us[1], trig, pars)
    before = describe(op)
    if case["how"] == "copy":
        other = copy.deepcopy(op)
    elif case["how"] == "shallow list":
        other = copy.deepcopy([op, op])
        require(other[0] is other[1], "two copies of the same operator in a list")
        other = other[0]
    else:
        from funpy.colloc.chebOp import ChebOp
        fd, path = tempfile.mkstemp(suffix=".h5")
        os.close(fd)
        try:
            with h5py.File(path, "w") as f:
                op.writeHDF5(f)
            other = ChebOp()
            with h5py.File(path, "r") as f:
                other.readHDF5(f["ChebOp"])
        finally:
            os.unlink(path)
    require(describe(op) == before, "copying or writing an operator changed it: %s",
            [k for k, v in describe(op).items() if before[k] != v])
    got = describe(other)
    require(got == before, "the copy differs in %s", [(k, got[k], before[k]) for k in before if got[k] != before[k]])
    ref = use(op, us[0], trig, pars)
    new = use(other, us[0], trig, pars)
    require(alike(ref, new), "the copy acts differently")
    after = describe(op)
    pars2 = {k: v + 0.5 for k, v in pars.items()}
    mine = use(other, us[1], trig, pars2)
    again = use(op, us[0], trig, pars)
    require(alike(ref, again), "using the copy changed the original")
    require(alike(mine, use(op, us[1], trig, pars2)), "the copy acts differently with other parameters")
    # now change the copy
    other.eqn[0] = other.eqn[0] + " + 1"
    other.function_names.append("zz")
    other.parameter_names["a"] = 77.0
    other.constant_function_names["k9"] = "lambda x: x"
    other.operator_names.append("zz")
    other.cpar.append("zz")
    other.bcs.append("zz")
    other.cts.append("zz")
    other.domain[0] -= 1
    other.setDisc(n + 10)
    require(describe(op) == after, "changing the copy changed the original: %s", [k for k, v in describe(op).items() if after[k] != v])
    require(alike(ref, use(op, us[0], trig, pars)), "changing the copy changed the action of the original")
    return sorted(labels) if np.abs(ref[0]).max() > 0 else []


def copies(trig, cts=False):
    def go(c):
        return st.fixed_dictionaries({
            "how": st.sampled_from(["file", "copy", "file", "shallow list", "file"]), "used": st.booleans(), "tail": st.sampled_from([0, 1, 3, 30]),
            "n": st.sampled_from([15, 24, 33, 40]), "states": st.lists(seeds, min_size=2, max_size=2, unique=True),
            "kw": st.fixed_dictionaries({"eps": st.sampled_from([None, 1e-9, 1e-6]), "tol": st.sampled_from([None, 1e-11]), "n_min": st.sampled_from([None, 5, 11]),
                                         "diff_order": st.sampled_from([None, 2]), "linear": st.sampled_from([None, True]),
                                         "solver_debug": st.sampled_from([None, False])})}).map(lambda d: dict(c, **d))
    return system(2, 0 if trig else 2, not trig, 2, trig, None, cts=cts).flatmap(go)


GROUPS = [
    Group("algebra", algebra(False), check_algebra, quick=60, thorough=1200, weight=2),
    Group("trig-algebra", algebra(True), check_algebra, quick=40, thorough=800),
    Group("copy", copies(False), check_copy, quick=60, thorough=1200),
    Group("constraints-copy", copies(False, True), check_copy, quick=30, thorough=600),
    Group("trig-copy", copies(True), check_copy, quick=40, thorough=800),
]
