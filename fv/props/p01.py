"""P01 adaptive construction reproduces the sampled function."""
MORE = 3                                             # quick runs: this many times the cases below
ORACLE = "the sampled callable evaluated directly, in extended precision where it matters"
RULE = """Cases are expression trees of smooth (periodic) callables, 1-3 columns of differing scale, intervals, tolerances, sampling
strategies and evaluation points; unresolvable callables with length limits. A case is non-trivial when construction
happened and its result was compared with the callable (for 'unresolved': the flag and the length were judged)."""
import numpy as np
from hypothesis import strategies as st
from ..gens import domains, points, xpts, DENSE, relbad, EPS, as2d
from ..harness import Group, require, fail
from .. import exprs

EXTRA = 6     # coefficients at rounding level may survive the chopping
SCALES = st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e-4, 1e3, 1e7, 1e12])


def build(case, typ):
    from funpy import Fun
    dom = case["dom"]
    ops = [exprs.on_domain(e, dom, sc) for e, sc in zip(case["e"], case["scale"])]
    kw = {"domain": dom}
    if typ == "trig":
        kw["type"] = "trig"
    if case["eps"]:
        kw["eps"] = case["eps"]
    if case["resample"]:
        kw["resample"] = "resample"
    how = case["how"]
    if how == "stack" and len(ops) > 1 and typ == "cheb":
        f = Fun(op=lambda x: np.stack([o(x) for o in ops], axis=-1), **kw)
    elif how == "list" or len(ops) > 1:
        f = Fun(op=list(ops), **kw)
    else:
        f = Fun(op=ops[0], **kw)
    return f, ops


def scale_of(op, dom):
    return float(np.max(np.abs(op(xpts(np.linspace(-1, 1, 201), dom)))))


def accuracy(case, typ, default_eps):
    f, ops = build(case, typ)
    dom = case["dom"]
    eps = case["eps"] or default_eps
    m = len(ops)
    require(f.m == m, "%d callables gave %d columns", m, f.m)
    require(f.type == typ, "representation is %s", f.type)
    require(bool(f.ishappy), "a smooth callable was reported unresolved (length %d)", len(f))
    x = np.concatenate((xpts(DENSE, dom), xpts(case["t"], dom)))
    got = as2d(f(x), x.size, m)
    cond = 1 + max(abs(dom[0]), abs(dom[1])) / (dom[1] - dom[0])
    scs = [scale_of(op, dom) for op in ops]
    for j, op in enumerate(ops):
        # Fourier objects measure size over all columns together
        sc = scs[j] if typ == "cheb" else max(scs)
        hs = max(1.0, abs(dom[0]), abs(dom[1]))
        tol = sc * (2e3 * eps * (hs if typ == "cheb" else 1.0) + 4e-13 * cond)
        bad = relbad(got[:, j] + 0j, op(x) + 0j, tol)
        require(bad is None, "column %d (size %.3g) differs from the callable: %s", j, sc, bad)
    return f, ops


def check_cheb(case):
    f, ops = accuracy(case, "cheb", EPS)
    labels = ["m=1" if len(ops) == 1 else "m>1", case["how"], "resample" if case["resample"] else "nested",
              "len>50" if len(f) > 50 else "len<=50"]
    degs = [exprs.degree(e) for e in case["e"]]
    if all(d is not None for d in degs):
        require(len(f) <= max(degs) + 1 + EXTRA, "polynomials of degree %d are stored with %d coefficients", max(degs), len(f))
        labels.append("poly")
    return labels


def check_trig(case):
    f, ops = accuracy(case, "trig", 1e-10)
    labels = ["m=1" if len(ops) == 1 else "m>1", case["how"], "len>50" if len(f) > 50 else "len<=50"]
    cplx = any(np.iscomplexobj(op(np.array(case["dom"]))) for op in ops)
    labels.append("cplx" if cplx else "real")
    degs = [exprs.degree(e) for e in case["e"]]
    if all(d is not None for d in degs):
        require(len(f) <= 2 * max(degs) + 1 + 2 * EXTRA, "trigonometric polynomials of degree %d are stored with %d coefficients",
                max(degs), len(f))
        labels.append("tpoly")
    return labels


def check_unresolved(case):
    """Callables which no representation within the length limit can resolve."""
    from funpy import Fun
    dom, typ = case["dom"], case["type"]
    a, b = dom
    c = case["c"]

    def s(x):
        return (2 * np.asarray(x) - a - b) / (b - a)
    shapes = {
        "sign": lambda x: np.sign(np.sin(np.pi * (s(x) - c))) + 0.0,
        "abs": lambda x: np.abs(np.sin(np.pi * (s(x) - c))),
        "sqrt": lambda x: np.sqrt(np.abs(np.sin(np.pi * (s(x) - c)))),
        "osc": lambda x: np.cos(np.pi * 37717.3 * s(x)**2 + c),
    }
    kw = {"domain": dom, "type": typ}
    limit = case["maxLength"]
    kw["maxLength"] = limit
    if case["resample"]:
        kw["resample"] = "resample"
    f = Fun(op=shapes[case["shape"]], **kw)
    # with fewer than 17 samples there is too little to judge the decay of the coefficients
    require(limit < 17 or not bool(f.ishappy), "an unresolvable callable (%s) was reported resolved with length %d", case["shape"], len(f))
    require(1 <= len(f) <= limit, "length %d exceeds the limit %d", len(f), limit)
    return [typ, case["shape"]]


def cases(expr, m_max=3, eps=None):
    return st.integers(1, m_max).flatmap(lambda m: st.fixed_dictionaries({
        "e": st.lists(expr, min_size=m, max_size=m), "scale": st.lists(SCALES, min_size=m, max_size=m),
        "dom": domains, "t": points, "eps": eps, "resample": st.sampled_from([False, False, True]),
        "how": st.sampled_from(["plain", "list", "stack"])}))


GROUPS = [
    Group("cheb", cases(exprs.smooth, eps=st.sampled_from([None, None, None, 1e-6, 1e-9, 1e-12])), check_cheb, 2400, weight=2),
    Group("trig", cases(exprs.periodic_any, eps=st.sampled_from([None, None, None, 1e-6, 1e-13])), check_trig, 2400, weight=2),
    Group("unresolved", st.fixed_dictionaries({
        "dom": domains, "type": st.sampled_from(["cheb", "trig"]), "shape": st.sampled_from(["sign", "abs", "sqrt", "osc"]),
        "c": st.floats(-0.9, 0.9).map(lambda v: round(v, 3) + 1e-4 * np.pi), "maxLength": st.sampled_from([10, 12, 13, 16, 17, 17, 65, 100, 513, 1000, 4097]),
        "resample": st.booleans()}), check_unresolved, 160),
]
