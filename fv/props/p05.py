"""P05 arithmetic on periodic (Fourier) functions is pointwise."""
import numpy as np
from hypothesis import strategies as st
from ..gens import tspec, tarr, domains, points, xpts, DENSE, zof, trig_at, trig_tol, sup, as2d, relbad, EPS, LD, CLD, sizes
from .p04 import check_out
from ..harness import Group, require, fail

RULE = """Cases are pairs of Fourier coefficient arrays (even/odd lengths, columns, real/complex, decay, scale), an operator,
numbers, an interval and evaluation points; or a pool of functions with a sequence of operations.
Non-trivial: the operation was carried out on a function that is not identically zero and its values were compared."""
ORACLE = "pointwise extended-precision values of the operands; snapshots of operands; value model over operation histories"


def make(c, dom):
    from funpy import Fun
    return Fun(coeffs=np.copy(c, order="F"), domain=list(dom), type="trig", simplify=False)


def pts(case):
    x = np.concatenate((xpts(DENSE, case["dom"]), xpts(case["t"], case["dom"])))
    return x, zof(x, case["dom"])


def snap(f):
    return np.copy(f.coeffs), np.copy(f.values), np.copy(f.isReal), tuple(f.domain)


def unchanged(f, s, what):
    ok = (f.coeffs.shape == s[0].shape and np.array_equal(f.coeffs, s[0]) and f.values.shape == s[1].shape
          and np.array_equal(f.values, s[1]) and np.array_equal(f.isReal, s[2]) and tuple(f.domain) == s[3])
    require(ok, "%s was changed by the operation", what)


def compare(h, x, ref, tol, dom, what, real=None):
    require(h.type == "trig", "%s: result is %s", what, h.type)
    require(np.allclose(np.asarray(h.domain, float), dom, rtol=0, atol=1e-12), "%s: result lives on %s", what, h.domain)
    m = ref.shape[1]
    require(h.m == m, "%s: %d columns instead of %d", what, h.m, m)
    tol = np.broadcast_to(np.asarray(tol, float), (1, m)) if np.ndim(tol) < 2 else tol
    got = as2d(h(x), x.size, m)
    bad = relbad(got + 0j, ref + 0j, tol)
    require(bad is None, "%s: %s", what, bad)
    # samples and coefficients of the result describe the same function
    require(h.values.shape == h.coeffs.shape, "%s: values %s and coefficients %s", what, h.values.shape, h.coeffs.shape)
    grid = zof(h.x, dom)
    lim = tol.max(axis=0) + trig_tol(h.coeffs) * 4 + 8e-10 * sup(h.coeffs)
    bad = relbad(h.values + 0j, trig_at(h.coeffs, grid) + 0j, lim)
    require(bad is None, "%s: stored samples disagree with the coefficients: %s", what, bad)
    if real is True:
        require(bool(h.isreal), "%s: a real result is reported complex", what)
        require(not np.iscomplexobj(np.asarray(h(x))) or not np.any(np.imag(h(x))), "%s: a real result has complex values", what)


def wide(c, m):
    return np.repeat(c, m, axis=1) if c.shape[1] == 1 else c


def check_linear(case):
    dom, op = case["dom"], case["op"]
    cf, cg = tarr(case["f"]), tarr(case["g"])
    if case["same"]:
        cg = cf.copy(order="F")
    if cf.shape[1] != cg.shape[1] and not (cg.shape[1] == 1 or (op == "*" and cf.shape[1] == 1)):
        m = min(cf.shape[1], cg.shape[1])
        cf, cg = np.asfortranarray(cf[:, :m]), np.asfortranarray(cg[:, :m])
    m = max(cf.shape[1], cg.shape[1])
    f = make(cf, dom)
    g = f if case["alias"] and case["same"] else make(cg, dom)
    real = case["f"]["kind"] == "real"
    realg = real if case["same"] else case["g"]["kind"] == "real"
    x, z = pts(case)
    F, G = wide(trig_at(cf, z), m), wide(trig_at(cg, z), m)
    tf, tg = wide(trig_tol(cf, dom)[None], m), wide(trig_tol(cg, dom)[None], m)
    sf, sg = wide(sup(cf)[None], m), wide(sup(cg)[None], m)
    n = cf.shape[0] + cg.shape[0]
    rnd = 16 * EPS * (sf + sg) * n
    a = complex(*case["a"]) if case["a"][1] else case["a"][0]
    areal = not case["a"][1]
    s1, s2 = snap(f), snap(g)
    if op == "+":
        h, ref, tol, rr = f + g, F + G, tf + tg + rnd, real and realg
    elif op == "-":
        h, ref, tol, rr = f - g, F - G, tf + tg + rnd, real and realg
    elif op == "*":
        h, ref, rr = f * g, F * G, real and realg
        tol = tf * sg + tg * sf + (4e-14 * n + 1e-12) * sf * sg
    else:
        F, tf, sf = trig_at(cf, z), trig_tol(cf, dom)[None], sup(cf)[None]
        t1 = tf + 16 * EPS * (abs(a) + sf) * n
        t2 = (tf + 16 * EPS * sf * n) * abs(a)
        b = a if abs(a) > 1e-3 else 1.0
        A, B = CLD(a), CLD(b)
        table = {"-f": (lambda: -f, -F, tf, real), "+f": (lambda: +f, F, tf, real),
                 "f+a": (lambda: f + a, F + A, t1, real and areal), "a+f": (lambda: a + f, F + A, t1, real and areal),
                 "f-a": (lambda: f - a, F - A, t1, real and areal), "a-f": (lambda: a - f, A - F, t1, real and areal),
                 "f*a": (lambda: f * a, F * A, t2, real and areal), "a*f": (lambda: a * f, F * A, t2, real and areal),
                 "f/a": (lambda: f / b, F / B, (tf + 1e-14 * sf * n) / abs(b), real and areal)}
        # one number per column, as a row
        v = np.array([[a + 0.5 * j for j in range(cf.shape[1])]])
        w = np.array([[b + (0.5 * j if np.real(b) > 0 else -0.5 * j) for j in range(cf.shape[1])]])
        tv, tw = t1 + 16 * EPS * np.abs(v) * n, (tf + 1e-14 * sf * n) / np.abs(w)
        V, W = v.astype(CLD), w.astype(CLD)
        table.update({"f+v": (lambda: f + v, F + V, tv, real and areal), "v+f": (lambda: v + f, F + V, tv, real and areal),
                      "f-v": (lambda: f - v, F - V, tv, real and areal), "v-f": (lambda: v - f, V - F, tv, real and areal),
                      "f+v flat": (lambda: f + v.reshape(-1), F + V, tv, real and areal),
                      "f/v": (lambda: f / w, F / W, tw, real and areal),
                      "f/v flat": (lambda: f / w.reshape(-1), F / W, tw, real and areal)})
        fn, ref, tol, rr = table[op]
        h = fn()
        g = None
    unchanged(f, s1, "first operand of " + op)
    if g is not None:
        unchanged(g, s2, "second operand of " + op)
    compare(h, x, ref, tol + 1e-300, dom, op, rr or None)
    before = snap(f)
    h += 1.0
    unchanged(f, before, "operand (after changing the result of %s in place)" % op)
    if not cf.any():
        return []
    return [op, "m=1" if m == 1 else "m>1", "%s/%s" % ("even" if cf.shape[0] % 2 == 0 else "odd", "even" if cg.shape[0] % 2 == 0 else "odd"),
            "n=" if cf.shape[0] == cg.shape[0] else "n!=", "real" if rr else "cplx"]


UF = {"exp": (np.exp, None), "sin": (np.sin, None), "cos": (np.cos, None), "square": (np.square, None), "sinh": (np.sinh, None),
      "tanh": (np.tanh, "real"), "arctan": (np.arctan, "real"), "log": (np.log, "pos"), "sqrt": (np.sqrt, "pos"),
      "abs": (np.abs, "def"), "reciprocal": (np.reciprocal, "def"), "fabs": (np.fabs, "def")}
OPS = sorted(UF) + ["g/f", "a/f", "f**k", "f**k", "abs()", "a**f", "f**p"]


def check_nonlinear(case):
    dom, op = case["dom"], case["op"]
    kind = UF[op][1] if op in UF else {"g/f": "ndef", "a/f": "ndef", "f**k": None, "abs()": "def", "a**f": None, "f**p": "pos"}[op]
    sf = dict(case["f"])
    if kind in ("real", "pos", "def"):
        sf["kind"] = "real"
    cf, cg = tarr(sf), tarr(case["g"])
    if cf.shape[0] % 2 == 0:
        cf[0] = 0
    m = min(cf.shape[1], cg.shape[1])
    cf, cg = np.asfortranarray(cf[:, :m]), np.asfortranarray(cg[:, :m])
    cf = 0.75 * cf / np.maximum(sup(cf), 1e-30)
    z0 = cf.shape[0] // 2
    if kind in ("pos", "def", "ndef"):
        cf[z0] = cf[z0] + (1.1 if kind == "pos" or case["sign"] > 0 else -1.1)
    cf = np.asfortranarray(cf * (case["s"] if kind else 1.0))
    x, z = pts(case)
    F, G = trig_at(cf, z), trig_at(cg, z)
    real = sf["kind"] == "real"
    f, g = make(cf, dom), make(cg, dom)
    if real:
        F = F.real
    s1, s2 = snap(f), snap(g)
    k, a = case["k"], float(case["k"] + 1)
    rr = real
    if op in UF:
        ref, h = (np.abs(F) if op == "fabs" else UF[op][0](F)), UF[op][0](f)
    elif op == "abs()":
        ref, h = np.abs(F), abs(f)
    elif op == "g/f":
        ref, h, rr = G / F, g / f, real and case["g"]["kind"] == "real"
    elif op == "a/f":
        ref, h = LD(a) / F, a / f
    elif op == "a**f":
        ref, h = np.exp(F * np.log(LD(a))), a**f
    elif op == "f**p":
        ref, h = F**LD(1.5), f**1.5
    else:
        ref, h = F**k, f**k
    unchanged(f, s1, "operand of " + op)
    unchanged(g, s2, "operand of " + op)
    size = np.max(np.abs(ref).astype(float))
    if op == "g/f":
        size = max(size, float(np.max(sup(cg))) / (0.35 * case["s"]))
    # approximations of Fourier functions are made to a tolerance of 1e-10, and the chopping rule accepts plateaus
    # at the 2/3 power of the tolerance (about 2e-7 per coefficient)
    compare(h, x, ref, 5e-6 * size + 1e-300, dom, op, rr or None)
    return [op, "m=1" if m == 1 else "m>1", "real" if real else "cplx"] if cf.any() else []


def check_history(case):
    dom = case["dom"]
    x, z = pts(case)
    M = case["m"]
    pool = []
    for spec, wide_ in zip(case["pool"], case["wide"]):
        c = tarr(dict(spec, m=M if wide_ else 1))
        pool.append([make(c, dom), trig_at(c, z), trig_tol(c, dom).max() + 1e-15 * sup(c).max(), max(sup(c).max(), 1e-3), spec["kind"] == "real"])
    labels = set()
    for step, (op, i, j, ar, ai) in enumerate(case["ops"]):
        i, j = i % len(pool), j % len(pool)
        f, F, tf, sf, rf = pool[i]
        g, G, tg, sg, rg = pool[j]
        a = complex(ar, ai) if ai else ar
        what = "step %d: %s on %d, %d" % (step, op, i, j)
        if op in ("*", "*=", "**=") and (len(f) + len(g) > 200 or sf * sg > 1e6 or sf > 1e3):
            continue
        if op in ("+", "-", "+=", "-=", "*=") and F.shape[1] < G.shape[1]:
            continue
        n = len(f) + len(g)
        tm = tf * sg + tg * sf + (4e-14 * n + 1e-12) * sf * sg
        ts = tf + tg + 16 * EPS * n * (sf + sg)
        A = CLD(a)
        others = [(snap(p[0]), p[0]) for k, p in enumerate(pool) if k != i]
        new = None
        if op == "+":
            new = [f + g, F + G, ts, sf + sg, rf and rg]
        elif op == "-":
            new = [f - g, F - G, ts, sf + sg, rf and rg]
        elif op == "*":
            new = [f * g, F * G, tm, max(sf * sg, 1e-3), rf and rg]
        elif op == "neg":
            new = [-f, -F, tf, sf, rf]
        elif op == "copy":
            new = [np.copy(f), F, tf, sf, rf]
        elif op == "pos":
            new = [+f, F, tf, sf, rf]
        else:
            own = f
            if op == "+=":
                f += g
                F, tf, sf, rf = F + G, ts, sf + sg, rf and rg
            elif op == "-=":
                f -= g
                F, tf, sf, rf = F - G, ts, sf + sg, rf and rg
            elif op == "*=":
                f *= g
                F, tf, sf, rf = F * G, tm, max(sf * sg, 1e-3), rf and rg
            elif op == "**=":
                f **= 2
                F, tf, sf = F * F, 2 * tf * sf + 5e-6 * sf * sf, max(sf * sf, 1e-3)
            elif op == "+=a":
                f += a
                F, tf, sf, rf = F + A, tf + 16 * EPS * n * (sf + abs(a)), sf + abs(a), rf and not ai
            elif op == "-=a":
                f -= a
                F, tf, sf, rf = F - A, tf + 16 * EPS * n * (sf + abs(a)), sf + abs(a), rf and not ai
            elif op == "*=a":
                f *= a
                F, tf, sf, rf = F * A, tf * abs(a) + 16 * EPS * n * sf * abs(a), max(sf * abs(a), 1e-3), rf and not ai
            elif op == "/=a":
                b = a if abs(a) > 0.3 else 2.0
                f /= b
                F, tf, sf, rf = F / CLD(b), (tf + 1e-14 * sf * n) / abs(b), max(sf / abs(b), 1e-3), rf and (not ai or b == 2.0)
            require(f is own, "%s: the in-place form gave another object", what)
            pool[i] = [f, F, tf, sf, rf]
        for s, h in others:
            unchanged(h, s, what + ": another function")
        if new is not None:
            if len(pool) < 6:
                pool.append(new)
                where = len(pool) - 1
            else:
                where = j
                pool[j] = new
        else:
            where = i
        h, ref, tol, size, rr = pool[where]
        # imaginary parts below 3e-10 of the size are dropped by design
        compare(h, x, ref, tol + 1e-9 * size, dom, what, rr or None)
        labels.add(op)
    for k, (h, ref, tol, size, rr) in enumerate(pool):
        compare(h, x, ref, tol + 1e-9 * size, dom, "function %d at the end" % k, rr or None)
    return sorted(labels)


def check_mismatch(case):
    a, b = case["dom"]
    d = case["delta"]
    other = {"left": [a - d, b], "right": [a, b + d], "shift": [a + d, b + d]}[case["how"]]
    cf, cg = tarr(dict(case["f"], m=1)), tarr(dict(case["g"], m=1))
    f, g = make(cf, [a, b]), make(cg, other)
    import operator
    fn = {"+": operator.add, "-": operator.sub, "*": operator.mul, "+=": operator.iadd, "*=": operator.imul}[case["op"]]
    for u, v in ((f, g), (g, f)):
        try:
            h = fn(u, v)
        except ValueError:
            continue
        fail("%s of functions on %s and %s gave a result on %s" % (case["op"], list(u.domain), list(v.domain), list(h.domain)))
    return [case["op"], case["how"]]


re_ = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5]), st.integers(-40, 40).map(lambda v: v / 8), st.integers(-3, 3))
num = st.tuples(re_, st.sampled_from([0, 0, 0, 1.0, -2.0, 0.5])).map(list)
LIN = ["+", "-", "*", "*", "*", "-f", "+f", "f+a", "a+f", "f-a", "a-f", "f*a", "a*f", "f/a", "f+v", "v+f", "f-v", "v-f", "f/v", "f/v flat", "f+v flat"]
smooth = tspec(n=sizes(13)).map(lambda s: dict(s, rho=0.3 if s["rho"] > 0.5 else s["rho"], env="geo" if s["env"] in ("flat", "alg") else s["env"]))
HOPS = ["+", "-", "*", "neg", "copy", "pos", "+=", "-=", "*=", "**=", "+=a", "-=a", "*=a", "/=a"]

smallt = tspec(n=sizes(16), kinds=("real",)).map(lambda s: dict(s, scale=min(s["scale"], 3.0)))

GROUPS = [
    Group("linear", st.fixed_dictionaries({
        "f": tspec(), "g": tspec(), "dom": domains, "t": points, "op": st.sampled_from(LIN), "a": num,
        "same": st.sampled_from([False, False, False, True]), "alias": st.booleans()}), check_linear, 6000, weight=2),
    Group("nonlinear", st.fixed_dictionaries({
        "f": smooth, "g": smooth, "dom": domains, "t": points, "op": st.sampled_from(OPS), "sign": st.sampled_from([-1, 1]),
        "s": st.sampled_from([1.0, 1.0, 0.01, 30.0]), "k": st.integers(0, 4)}), check_nonlinear, 2500, weight=2),
    Group("history", st.fixed_dictionaries({
        "pool": st.lists(tspec(n=sizes(10)), min_size=2, max_size=3), "wide": st.lists(st.booleans(), min_size=3, max_size=3),
        "m": st.sampled_from([1, 2, 3]), "dom": domains, "t": points,
        "ops": st.lists(st.tuples(st.sampled_from(HOPS), st.integers(0, 5), st.integers(0, 5), re_, st.sampled_from([0, 0, 1.0, -0.5])).map(list),
                        min_size=1, max_size=8)}), check_history, 1500, weight=2),
    Group("mismatch", st.fixed_dictionaries({
        "f": tspec(), "g": tspec(), "dom": domains, "delta": st.sampled_from([0.01, 0.1, 1.0, 5.0]),
        "how": st.sampled_from(["left", "right", "shift"]), "op": st.sampled_from(["+", "-", "*", "+=", "*="])}),
        check_mismatch, 400, weight=0.5),
    Group("out", st.fixed_dictionaries({
        "f": smallt, "g": smallt, "h": tspec(kinds=("real",)), "m": st.sampled_from([1, 1, 2, 3]), "dom": domains, "out": st.sampled_from(["new", "new", "f", "g"]),
        "fn": st.sampled_from(["add", "subtract", "multiply", "add", "subtract", "multiply", "true_divide", "negative", "cos"]), "second": st.sampled_from(["fun", "fun", "num", "first", "same"]),
        "a": st.sampled_from([1.0, -2.0, 0.5, 3.0])}), lambda case: check_out(case, "trig"), 600, weight=0.5),
]
