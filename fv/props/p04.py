"""P04 arithmetic on Chebyshev functions is pointwise."""
import numpy as np
from hypothesis import strategies as st
from ..gens import aspec, rspec, arr, domains, points, xpts, DENSE, zof, cheb_at, cheb_tol, sup, as2d, relbad, EPS, LD, sizes
from ..harness import Group, require, fail

RULE = """Cases are pairs of Chebyshev coefficient arrays (lengths, columns, decay, scale), an operator, numbers, an
interval and evaluation points; or a pool of functions with a sequence of out-of-place and in-place operations.
Non-trivial: the operation was carried out on a function that is not identically zero and its values were compared."""
MORE = 2                                             # quick runs: this many times the cases below
ORACLE = "pointwise extended-precision values of the operands; snapshots of operands; value model over operation histories"


def make(c, dom):
    from funpy import Fun
    return Fun(coeffs=np.copy(c, order="F"), domain=list(dom), simplify=False)


def pts(case):
    x = np.concatenate((xpts(DENSE, case["dom"]), xpts(case["t"], case["dom"])))
    return x, zof(x, case["dom"])


def snap(f):
    return np.copy(f.coeffs), f.eps, tuple(f.domain)


def unchanged(f, s, what):
    require(f.coeffs.shape == s[0].shape and np.array_equal(f.coeffs, s[0]), "%s was changed by the operation", what)
    require(tuple(f.domain) == s[1 + 1], "%s has another interval after the operation", what)


def compare(h, x, ref, tol, dom, what):
    require(h.type == "cheb", "%s: result is %s", what, h.type)
    require(np.allclose(np.asarray(h.domain, float), dom, rtol=0, atol=1e-12), "%s: result lives on %s", what, h.domain)
    m = ref.shape[1]
    require(h.m == m, "%s: %d columns instead of %d", what, h.m, m)
    bad = relbad(as2d(h(x), x.size, m), ref.astype(float), tol)
    require(bad is None, "%s: %s", what, bad)


def wide(c, m):
    return np.repeat(c, m, axis=1) if c.shape[1] == 1 else c


def check_linear(case):
    """+, -, *, unary operators and numbers, both sides, any columns."""
    dom, op = case["dom"], case["op"]
    cf, cg = arr(case["f"]), arr(case["g"])
    if case["same"]:
        cg = cf.copy(order="F")
    if cf.shape[1] != cg.shape[1] and 1 not in (cf.shape[1], cg.shape[1]):
        m = min(cf.shape[1], cg.shape[1])
        cf, cg = np.asfortranarray(cf[:, :m]), np.asfortranarray(cg[:, :m])
    m = max(cf.shape[1], cg.shape[1])
    f = make(cf, dom)
    g = f if case["alias"] and case["same"] else make(cg, dom)
    x, z = pts(case)
    F, G = wide(cheb_at(cf, z), m), wide(cheb_at(cg, z), m)
    tf, tg = wide(cheb_tol(cf, dom)[None], m), wide(cheb_tol(cg, dom)[None], m)
    sf, sg = wide(sup(cf)[None], m), wide(sup(cg)[None], m)
    both = max(sf.max(), sg.max())
    a = case["a"]
    s1, s2 = snap(f), snap(g)
    if op == "+":
        h, ref, tol = f + g, F + G, tf + tg + 8 * EPS * both
    elif op == "-":
        h, ref, tol = f - g, F - G, tf + tg + 8 * EPS * both
    elif op == "*":
        h, ref = f * g, F * G
        tol = tf * sg + tg * sf + 2e-13 * (cf.shape[0] + cg.shape[0]) * sf * sg
    else:
        m1 = cf.shape[1]
        F, tf, sf = cheb_at(cf, z), cheb_tol(cf, dom)[None], sup(cf)[None]
        v = np.array([a + 0.5 * j for j in range(m1)])
        t1 = tf + 8 * EPS * (np.abs(v) + abs(a) + sf)
        t2 = (tf + 8 * EPS * sf) * abs(a)
        table = {"-f": (lambda: -f, -F, tf), "+f": (lambda: +f, F, tf),
                 "f+a": (lambda: f + a, F + LD(a), t1), "a+f": (lambda: a + f, F + LD(a), t1),
                 "f-a": (lambda: f - a, F - LD(a), t1), "a-f": (lambda: a - f, LD(a) - F, t1),
                 "f*a": (lambda: f * a, F * LD(a), t2), "a*f": (lambda: a * f, F * LD(a), t2),
                 "f/a": (lambda: f / (a or 1.0), F / LD(a or 1.0), (tf + 1e-14 * sf) / abs(a or 1.0)),
                 "f+v": (lambda: f + v, F + v.astype(LD), t1), "v+f": (lambda: v + f, F + v.astype(LD), t1),
                 "f-v": (lambda: f - v, F - v.astype(LD), t1), "v-f": (lambda: v - f, v.astype(LD) - F, t1),
                 "f/v": (lambda: f / (v + 9.5), F / (v + 9.5).astype(LD), tf + 1e-14 * sf)}
        fn, ref, tol = table[op]
        h = fn()
        g = None
    unchanged(f, s1, "first operand of " + op)
    if g is not None:
        unchanged(g, s2, "second operand of " + op)
    compare(h, x, ref, tol, dom, op)
    # the result is independent of its operands
    before = snap(f)
    h += 1.0
    unchanged(f, before, "operand (after changing the result of %s in place)" % op)
    if not cf.any():
        return []
    return [op, "m=%s" % ("1" if m == 1 else ">1"), "n=" if cf.shape[0] == cg.shape[0] else "n!=",
            "const" if 1 in (cf.shape[0], cg.shape[0]) else "nonconst"]


# ------------------------------------------------------------------ nonlinear operations

UF = {
    "exp": (np.exp, None), "sin": (np.sin, None), "cos": (np.cos, None), "tanh": (np.tanh, None), "arctan": (np.arctan, None),
    "cosh": (np.cosh, None), "square": (np.square, None), "expm1": (np.expm1, None), "sinh": (np.sinh, None),
    "log": (np.log, "pos"), "sqrt": (np.sqrt, "pos"), "log1p": (np.log1p, "pos"), "reciprocal": (np.reciprocal, "def"),
    "abs": (np.abs, "def"), "absolute": (np.absolute, "def"), "cbrt": (np.cbrt, "pos"),
}
OPS = sorted(UF) + ["g/f", "1/f", "f**p", "f**k", "abs()"]


def check_nonlinear(case):
    """Operations whose result is a new approximation. |f| lies in [0.35, 1.9] (times s) unless any sign is allowed."""
    dom, op, s = case["dom"], case["op"], case["s"]
    cf, cg = arr(case["f"]), arr(case["g"])
    m = min(cf.shape[1], cg.shape[1])
    cf, cg = np.asfortranarray(cf[:, :m]), np.asfortranarray(cg[:, :m])
    cf = 0.75 * cf / np.maximum(sup(cf), 1e-30)
    kind = UF[op][1] if op in UF else {"g/f": "def", "1/f": "def", "f**p": "pos", "f**k": "any", "abs()": "def"}[op]
    if kind in ("pos", "def"):
        cf[0] = cf[0] + 1.1 if case["sign"] > 0 or kind == "pos" else cf[0] - 1.1
        cf = s * cf
    elif kind is None or kind == "any":
        cf = 1.5 * cf
        s = 1.0
    cf = np.asfortranarray(cf)
    x, z = pts(case)
    F, G = cheb_at(cf, z), cheb_at(cg, z)
    f, g = make(cf, dom), make(cg, dom)
    s1, s2 = snap(f), snap(g)
    p, k = case["p"], case["k"]
    if op in UF:
        ref, h = UF[op][0](F), UF[op][0](f)
    elif op == "abs()":
        ref, h = np.abs(F), abs(f)
    elif op == "g/f":
        ref, h = G / F, g / f
    elif op == "1/f":
        ref, h = LD(k + 1) / F, (k + 1) / f
    elif op == "f**p":
        ref, h = F**LD(p), f**p
    else:
        ref, h = F**k, f**k
    unchanged(f, s1, "operand of " + op)
    unchanged(g, s2, "operand of " + op)
    size = np.max(np.abs(ref).astype(float), axis=0)
    if op == "g/f":
        size = np.maximum(size, sup(cg) / (0.35 * s))
    cond = 1 + max(abs(dom[0]), abs(dom[1])) / (dom[1] - dom[0])
    n = max(cf.shape[0], cg.shape[0])
    tol = 2e-12 * (size + 1e-3 * size.max()) * cond * (4 + n) + 1e-300
    compare(h, x, ref, tol, dom, op)
    if not (op == "f**p" and p == 1.0 or op == "f**k" and k == 1):
        require(bool(h.ishappy), "%s: result reported unresolved", op)
    return [op, "m=%s" % ("1" if m == 1 else ">1")] if cf.any() else []


# ------------------------------------------------------------------ in-place forms and histories

def check_history(case):
    dom = case["dom"]
    x, z = pts(case)
    M = case["m"]
    pool = []
    for spec, wide_ in zip(case["pool"], case["wide"]):
        c = arr(dict(spec, m=M if wide_ else 1))
        f = make(c, dom)
        pool.append([f, cheb_at(c, z), cheb_tol(c, dom).max(), max(sup(c).max(), 1e-3)])
    labels = set()
    for step, (op, i, j, a) in enumerate(case["ops"]):
        i, j = i % len(pool), j % len(pool)
        f, F, tf, sf = pool[i]
        g, G, tg, sg = pool[j]
        what = "step %d: %s on %d, %d" % (step, op, i, j)
        if op in ("*", "*=", "**=") and (len(f) + len(g) > 300 or sf * sg > 1e8 or sf > 1e4):
            continue
        shape = (x.size, max(F.shape[1], G.shape[1]))
        if op in ("+=", "-=", "*=") and F.shape[1] < G.shape[1]:
            continue
        V = np.array([a + 0.25 * q for q in range(F.shape[1])])
        tm = tf * sg + tg * sf + 2e-13 * (len(f) + len(g)) * sf * sg
        ts = tf + tg + 8 * EPS * (sf + sg)
        others = [(snap(p[0]), p[0]) for k, p in enumerate(pool) if k != i]
        new = None
        if op == "+":
            new = (f + g, F + G, ts, sf + sg)
        elif op == "-":
            new = (f - g, F - G, ts, sf + sg)
        elif op == "*":
            new = (f * g, F * G, tm, sf * sg)
        elif op == "neg":
            new = (-f, -F, tf, sf)
        elif op == "copy":
            new = (np.copy(f), F, tf, sf)
        elif op == "pow1":
            new = (f**1, F, tf, sf)
        elif op == "pos":
            new = (+f, F, tf, sf)
        elif op == "col":
            q = abs(int(4 * a)) % F.shape[1]
            new = (np.copy(f[q]), F[:, q:q + 1], tf, sf)
        else:
            own = f
            if op == "+=":
                f += g
                F, tf, sf = F + G, ts, sf + sg
            elif op == "-=":
                f -= g
                F, tf, sf = F - G, ts, sf + sg
            elif op == "*=":
                f *= g
                F, tf, sf = F * G, tm, sf * sg
            elif op == "**=":
                f **= 2
                F, tf, sf = F * F, 2 * tf * sf + 2e-12 * (len(own) + 20) * sf * sf, sf * sf
            elif op == "+=a":
                f += a
                F, tf, sf = F + LD(a), tf + 8 * EPS * (sf + abs(a)), sf + abs(a)
            elif op == "-=a":
                f -= a
                F, tf, sf = F - LD(a), tf + 8 * EPS * (sf + abs(a)), sf + abs(a)
            elif op == "*=a":
                f *= a
                F, tf, sf = F * LD(a), tf * abs(a) + 8 * EPS * sf * abs(a), max(sf * abs(a), 1e-3)
            elif op == "/=a":
                b = a if abs(a) > 0.3 else 2.0
                f /= b
                F, tf, sf = F / LD(b), (tf + 1e-14 * sf) / abs(b), max(sf / abs(b), 1e-3)
            elif op == "+=v":
                f += V
                F, tf, sf = F + V.astype(LD), tf + 8 * EPS * (sf + abs(V).max()), sf + abs(V).max()
            require(f is own, "%s: the in-place form gave another object", what)
            pool[i] = [f, F, tf, sf]
        # functions that are not assigned to stay as they are
        for s, h in others:
            unchanged(h, s, what + ": another function")
        if new is not None:
            if len(pool) < 6:
                pool.append(list(new))
                where = len(pool) - 1
            else:
                where = j
                pool[j] = list(new)
        else:
            where = i
        h, ref, tol, size = pool[where]
        compare(h, x, ref, tol + 1e-300, dom, what)
        labels.add(op)
    for k, (h, ref, tol, size) in enumerate(pool):
        compare(h, x, ref, tol + 1e-300, dom, "function %d at the end" % k)
    return sorted(labels)


def check_mismatch(case):
    from funpy import Fun
    a, b = case["dom"]
    d = case["delta"]
    other = {"left": [a - d, b], "right": [a, b + d], "shift": [a + d, b + d], "inner": [a + d / 4, b - d / 4 if b - d / 4 > a + d / 4 else b + d]}[case["how"]]
    f, g = make(arr(case["f"]), [a, b]), make(arr(case["g"]), other)
    m = min(f.m, g.m)
    f, g = (f[0], g[0]) if f.m != g.m else (f, g)
    import operator
    fn = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
          "+=": operator.iadd, "-=": operator.isub, "*=": operator.imul}[case["op"]]
    for u, v in ((f, g), (g, f)):
        try:
            h = fn(u, v)
        except ValueError:
            continue
        fail("%s of functions on %s and %s gave a result on %s" % (case["op"], list(u.domain), list(v.domain), list(h.domain)))
    return [case["op"], case["how"]]


def check_out(case, kind="cheb"):
    """numpy functions with an output argument store there what they would return."""
    from funpy import Fun
    from ..gens import tarr
    dom = case["dom"]
    mk = lambda sp: Fun(coeffs=arr(sp) if kind == "cheb" else tarr(sp), domain=list(dom), type=kind, simplify=False)
    f, g, h = (mk(dict(case[k], m=case["m"])) for k in "fgh")
    fn = case["fn"] if case["fn"] not in ("exp", "cos") or sup(f.coeffs).max() < 30 else "negative"
    u = getattr(np, fn)
    args = (f,) if u.nin == 1 else (f, case["a"]) if case["second"] == "num" else (case["a"], f) if case["second"] == "first" and case["fn"] != "true_divide" else (f, f) if case["second"] == "same" and case["fn"] != "true_divide" else (f, g)
    if case["fn"] == "true_divide":
        args = (f, case["a"] or 2.0)
    ref = u(*args)
    out = {"new": h, "f": f, "g": g}[case["out"]]
    keep = [(o, np.copy(o.coeffs), np.copy(o.values)) for o in (f, g, h) if o is not out]
    r = u(*args, out=out)
    require(r is out, "%s with an output argument returns another object", case["fn"])
    for o, c, v in keep:
        require(o.coeffs.shape == c.shape and np.array_equal(o.coeffs, c) and np.array_equal(o.values, v), "%s changed a function that is not its output", case["fn"])
    x = xpts(DENSE, dom)
    a, b = as2d(out(x), x.size, case["m"]), as2d(ref(x), x.size, case["m"])
    lim = 1e-11 * (np.abs(b).max(axis=0) + sup(f.coeffs) + sup(g.coeffs)) + 1e-300
    bad = relbad(a + 0j, b + 0j, lim)
    require(bad is None, "%s with an output argument: %s", case["fn"], bad)
    require(out.type == kind and np.allclose(out.domain, dom), "%s with an output argument: %s on %s", case["fn"], out.type, out.domain)
    z = zof(out.x, dom)
    from ..gens import trig_at
    bad = relbad(as2d(out.values, out.n, case["m"]) + 0j, (cheb_at if kind == "cheb" else trig_at)(out.coeffs, z) + 0j, 1e-11 * (np.abs(b).max() + sup(out.coeffs).max()) + 1e-300)
    require(bad is None, "%s with an output argument: stored samples: %s", case["fn"], bad)
    return [case["fn"], case["out"], case["second"]] if f.coeffs.any() else []


LIN = ["+", "-", "*", "*", "-f", "+f", "f+a", "a+f", "f-a", "a-f", "f*a", "a*f", "f/a", "f+v", "v+f", "f-v", "v-f", "f/v"]
num = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5]), st.integers(-40, 40).map(lambda v: v / 8), st.integers(-3, 3))
smooth = rspec(n=sizes(24), envs=["geo", "geo", "even", "odd", "alg"]).map(lambda s: dict(s, rho=min(s["rho"], 0.7)))
HOPS = ["+", "-", "*", "neg", "copy", "pow1", "pos", "col", "+=", "-=", "*=", "**=", "+=a", "-=a", "*=a", "/=a", "+=v"]

GROUPS = [
    Group("linear", st.fixed_dictionaries({
        "f": aspec(), "g": aspec(), "dom": domains, "t": points, "op": st.sampled_from(LIN), "a": num,
        "same": st.sampled_from([False, False, False, True]), "alias": st.booleans()}), check_linear, 9000, weight=2),
    Group("nonlinear", st.fixed_dictionaries({
        "f": smooth, "g": smooth, "dom": domains, "t": points, "op": st.sampled_from(OPS), "sign": st.sampled_from([-1, 1]),
        "s": st.sampled_from([1.0, 1.0, 0.01, 30.0]), "p": st.sampled_from([0.5, -1.0, 1.5, 2.0, -0.5, 1.0, 3.0]),
        "k": st.integers(0, 5)}), check_nonlinear, 4000, weight=2),
    Group("history", st.fixed_dictionaries({
        "pool": st.lists(rspec(n=sizes(12)), min_size=2, max_size=3), "wide": st.lists(st.booleans(), min_size=3, max_size=3),
        "m": st.sampled_from([1, 2, 3]), "dom": domains, "t": points,
        "ops": st.lists(st.tuples(st.sampled_from(HOPS), st.integers(0, 5), st.integers(0, 5), num).map(list), min_size=1, max_size=10)}),
        check_history, 2400, weight=2),
    Group("mismatch", st.fixed_dictionaries({
        "f": aspec(), "g": aspec(), "dom": domains, "delta": st.sampled_from([0.01, 0.1, 1.0, 5.0]),
        "how": st.sampled_from(["left", "right", "shift", "inner"]), "op": st.sampled_from(["+", "-", "*", "/", "+=", "-=", "*="])}),
        check_mismatch, 600, weight=0.5),
    Group("out", st.fixed_dictionaries({
        "f": smooth, "g": smooth, "h": aspec(), "m": st.sampled_from([1, 1, 2, 3]), "dom": domains, "out": st.sampled_from(["new", "new", "f", "g"]),
        "fn": st.sampled_from(["add", "subtract", "multiply", "add", "subtract", "multiply", "true_divide", "negative", "cos", "exp"]), "second": st.sampled_from(["fun", "fun", "num", "first", "same"]),
        "a": num}), check_out, 900, weight=0.5),
]
