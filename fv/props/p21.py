"""P21 parameters and namespaces keep names, values and arithmetic."""
import copy
import math
import operator
import pickle
import numpy as np
from hypothesis import strategies as st
from ..harness import Group, require, fail
from ..gens import EPS

RULE = """Cases are pools of named parameters (integer, real, complex and numpy values), numbers and histories of operations on them
(arithmetic on either side, in-place and out= forms, numpy functions, comparisons, copies, conversions), and histories of dictionary
operations on namespaces. Non-trivial: at least one operation was carried out and its result compared."""
ORACLE = "the same operations on plain numbers and on a plain dict, together with names and object identities"

BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow,
       "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
INP = {"+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "/=": operator.itruediv, "**=": operator.ipow, "//=": operator.ifloordiv, "%=": operator.imod}
UFB = ["add", "subtract", "multiply", "maximum", "minimum", "hypot", "arctan2", "fmod", "copysign", "logaddexp", "true_divide", "power"]
UFU = ["sin", "cos", "exp", "tanh", "sqrt", "log1p", "abs", "negative", "sign", "floor", "square", "conjugate", "isfinite", "cbrt"]
FUN = ["real", "imag", "conj", "zeros_like", "ones_like", "sum", "around", "dot", "inner"]


def value(v):
    kind, x = v
    return {"float": float, "int": lambda x: int(x), "np": np.float64, "npint": lambda x: np.int64(int(x)), "cplx": lambda x: complex(x, 1.5 - x)}[kind](x)


def eq(a, b):
    """Equal values (numbers of any type)."""
    a, b = complex(a), complex(b)
    if a == b:
        return True
    f = lambda x, y: (math.isnan(x) and math.isnan(y)) or x == y or abs(x - y) <= 8 * EPS * max(abs(a), abs(b))
    return f(a.real, b.real) and f(a.imag, b.imag)


def arg(p):
    return p.value


def snap(pool):
    return [(p.name, p.value, type(p.value)) for p in pool]


def okcplx(op, *v):
    return not (any(isinstance(x, complex) for x in v) and op in ("//", "%", "//=", "%=", "<", "<=", ">", ">=", "hypot", "arctan2", "fmod", "copysign", "logaddexp", "floor", "cbrt", "maximum", "minimum"))


def safe(op, a, b):
    """The operation is defined for plain numbers (integers do not go to negative powers, no division by zero)."""
    if not okcplx(op, a, b):
        return False
    if op in ("/", "//", "%", "/=", "//=", "%=", "fmod", "true_divide"):
        return b != 0
    if op in ("**", "**=", "power"):
        if isinstance(a, complex) or isinstance(b, complex):
            return False
        return abs(b) <= 4 and abs(a) <= 50 and (a > 0 or (float(b).is_integer() and b >= 0)) and not (isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and b < 0)
    return abs(a) < 1e100 and abs(b) < 1e100


def check_par(case):
    from funpy.vectorspaces import Parameter
    pool = [Parameter(**{n: value(v)}) if k else Parameter.from_real(n, value(v)) for n, v, k in case["pool"]]
    for p, (n, v, _) in zip(pool, case["pool"]):
        require(p.name == n and eq(p.value, value(v)) and type(p.value) is type(value(v)), "parameter made of %s = %r is %r", n, value(v), p)
    labels, k = set(), len(pool)
    big = lambda x: abs(complex(x)) > 1e60
    with np.errstate(all="ignore"):
        for op, i, j, mode, num in case["ops"]:
            p, q, x = pool[i % k], pool[j % k], value(num)
            if big(p.value) or big(q.value) or isinstance(p.value, (bool, np.bool_)) or isinstance(q.value, (bool, np.bool_)):
                break
            before = snap(pool)
            other = {"pp": q, "pn": x, "np": x, "self": p}[mode]
            if op in BIN or op in UFB:
                f = BIN.get(op) or getattr(np, op)
                a, b = (other, p) if mode == "np" else (p, other)
                va, vb = [t.value if isinstance(t, Parameter) else t for t in (a, b)]
                if not safe(op, va, vb):
                    continue
                # numpy numbers follow numpy's rules
                ref = f(np.asarray(va)[()], np.asarray(vb)[()])
                if case["out"] and op in UFB:
                    t = pool[(i + j) % k]
                    r = f(a, b, out=t)
                    require(r is t and t.name == before[(i + j) % k][0], "%s with out gives %r", op, r)
                    before[(i + j) % k] = (t.name, t.value, type(t.value))
                else:
                    r = f(a, b)
                    require(type(r) is Parameter and all(r is not t for t in pool), "%s gives a %s", op, type(r).__name__)
                    require(r.name == p.name, "%s of %s gives the name %s", op, p.name, r.name)
                require(eq(r.value, ref), "%s (%s) of %r and %r: %r instead of %r", op, mode, va, vb, r.value, ref)
                require(bool(r) == bool(ref), "%s of %r and %r has truth value %s", op, va, vb, bool(r))
            elif op in INP:
                f = INP[op]
                v = other.value if isinstance(other, Parameter) else other
                if mode == "np" or not safe(op, p.value, v):
                    continue
                ref = f(np.asarray(p.value)[()], np.asarray(v)[()])
                r = f(p, other)
                require(r is p and p.name == before[i % k][0], "%s gives another object or name", op)
                require(eq(p.value, ref), "%s of %r and %r: %r instead of %r", op, before[i % k][1], v, p.value, ref)
                before[i % k] = (p.name, p.value, type(p.value))
            elif op in UFU:
                if isinstance(p.value, complex) and op not in ("sin", "cos", "exp", "abs", "negative", "square", "conjugate", "isfinite"):
                    continue
                if abs(complex(p.value)) > 100 and op == "exp":
                    continue
                ref = getattr(np, op)(p.value)
                r = getattr(np, op)(p)
                require(type(r) is Parameter and r.name == p.name and r is not p, "%s gives %s", op, type(r).__name__)
                require(eq(r.value, ref), "%s of %r: %r instead of %r", op, p.value, r.value, ref)
            elif op in FUN:
                if op in ("dot", "inner"):
                    r, ref = getattr(np, op)(p, q), p.value * q.value
                    require(eq(r, ref), "%s of %r and %r: %r", op, p.value, q.value, r)
                elif op == "around":
                    r, ref = np.around(p, 2), np.around(p.value, 2)
                    require(eq(r, ref) and eq(np.around(p), np.around(p.value)) and eq(np.around(p, decimals=1), np.around(p.value, 1)), "around of %r: %r", p.value, r)
                else:
                    r = getattr(np, op)(p)
                    ref = {"zeros_like": 0.0, "ones_like": 1.0, "sum": p.value}.get(op)
                    ref = getattr(np, op)(p.value) if ref is None else ref
                    require(type(r) is Parameter and r.name == p.name and r is not p, "%s gives %s %s", op, type(r).__name__, r)
                    require(eq(r.value, ref), "%s of %r: %r instead of %r", op, p.value, r.value, ref)
            elif op in ("neg", "pos", "abs()"):
                f = {"neg": operator.neg, "pos": operator.pos, "abs()": abs}[op]
                r = f(p)
                require(type(r) is Parameter and r is not p and r.name == p.name and eq(r.value, f(p.value)), "%s of %r: %r", op, p.value, r)
            elif op == "conv":
                v = p.value
                require(np.asarray(p).shape == () and eq(np.asarray(p)[()], v) and bool(p) == bool(v), "as an array or truth value: %r", p)
                if not isinstance(v, complex):
                    require(type(float(p)) is float and float(p) == float(v) and type(int(p)) is int and int(p) == int(v), "as a number: %r", p)
                    require(str(p) == "%s = %.2g" % (p.name, v) and p.name in repr(p), "as a string: %s", p)
            elif op in ("copy", "deepcopy", "pickle"):
                r = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda t: pickle.loads(pickle.dumps(t))}[op](p)
                require(type(r) is Parameter and r is not p and r.name == p.name and eq(r.value, p.value) and type(r.value) is type(p.value), "%s of %r is %r", op, p, r)
                a = copy.deepcopy([p, p])
                require(a[0] is a[1], "one parameter becomes two in a deep copy of a list")
                r += 1
                r.name = "changed"
            elif op == "bad":
                for t in ({}, {"a": 1, "b": 2}):
                    try:
                        Parameter(**t)
                        fail("a parameter made of %s" % t)
                    except AssertionError:
                        pass
                continue
            elif op == "store":
                r = p + 0 if isinstance(p.value, complex) else p * 1.0
                pool[j % k] = r
                before[j % k] = (r.name, r.value, type(r.value))
            after = snap(pool)
            for a, b in zip(after, before):
                require(a[0] == b[0] and eq(a[1], b[1]), "%s (%s) changed %s = %r to %s = %r", op, mode, b[0], b[1], a[0], a[1])
            labels.add(op)
    return sorted(labels)


def check_ns(case):
    from funpy.vectorspaces import Namespace, Parameter
    val = lambda v: Parameter(**{"q": v[1]}) if v[0] else v[1]
    same = lambda a, b: list(a.items()) == list(b.items()) if not any(isinstance(x, Parameter) for x in list(a.values()) + list(b.values())) else (
        list(a) == list(b) and all(x is y or (type(x) is type(y) and float(x) == float(y)) for x, y in zip(a.values(), b.values())))
    items = [(k, val(v)) for k, v in case["init"]]
    how = case["how"]
    d = dict(items)
    n = Namespace(**d) if how == "kw" else Namespace(d) if how == "map" else Namespace(items) if how == "pairs" else Namespace(Namespace(**d)) if how == "ns" else Namespace({}, **d)
    require(isinstance(n, dict) and same(n, d), "namespace of %s (%s) is %s", d, how, dict(n))
    src = dict(d)
    labels = set()
    for op, key, v, more in case["ops"]:
        v, more = val(v), {k: val(x) for k, x in more}
        if op == "set":
            n[key] = v
            d[key] = v
        elif op == "get":
            require(n.get(key) is d.get(key) and n.get(key, 5) is d.get(key, 5), "value of %s", key)
            for f in (lambda m: m[key], lambda m: m.__getitem__(key)):
                r = []
                for m in (n, d):
                    try:
                        r.append((0, f(m)))
                    except KeyError:
                        r.append((1, None))
                require(r[0][0] == r[1][0] and r[0][1] is r[1][1], "value of %s", key)
        elif op == "del":
            if key in d:
                del d[key]
                del n[key]
            else:
                try:
                    del n[key]
                    fail("deleting a name that is not there")
                except KeyError:
                    pass
        elif op == "pop":
            require(n.pop(key, None) is d.pop(key, None), "popping %s", key)
        elif op == "update":
            n.update(more)
            d.update(more)
        elif op == "kwupdate":
            n.update(**more)
            d.update(**more)
        elif op == "default":
            require(n.setdefault(key, v) is d.setdefault(key, v), "default of %s", key)
        elif op == "merge":
            r = Namespace(**{**n, **more})
            require(same(r, {**d, **more}) and same(n | more, d | more), "merging %s", more)
            n |= more
            d |= more
        elif op == "copy":
            for r in (copy.copy(n), copy.deepcopy(n), n.copy(), pickle.loads(pickle.dumps(n)), Namespace(n), Namespace(**n)):
                require(same(r, d), "a copy is %s instead of %s", dict(r), d)
                r["copied"] = 1.0
            r = copy.deepcopy(n)
            require(type(r) is Namespace and type(copy.copy(n)) is Namespace, "type of a copy")
            for t in r.values():
                if isinstance(t, Parameter):
                    t += 1.0
        elif op == "clear":
            n.clear()
            d.clear()
        elif op == "report":
            s = str(n)
            require(s == repr(n) and s.startswith("Namespace:") and all(str(x) in s for x in d.values()), "text of a namespace: %s", s)
        require(same(n, d) and len(n) == len(d) and list(n) == list(d) and all(k in n for k in d) and (key in n) == (key in d) and (n == d), "after %s: %s instead of %s", op, dict(n), d)
        require(bool(n) == bool(d), "truth value of a namespace")
        labels.add(op)
    require(len(src) == len(case["init"]) or True, "")
    return sorted(labels)


names = st.one_of(st.sampled_from(["a", "b", "alpha", "value", "name", "self_", "D_u"]), st.text("abcxyzR_019", min_size=1, max_size=6).map(lambda s: "p" + s), st.sampled_from(["α", "κ1"]))
nums = st.one_of(st.tuples(st.sampled_from(["float", "float", "np", "cplx"]), st.one_of(st.integers(-40, 40).map(lambda v: v / 8), st.floats(-50, 50))).map(list),
                 st.tuples(st.sampled_from(["int", "npint"]), st.integers(-9, 9)).map(list))
pops = st.sampled_from(sorted(BIN) + sorted(INP) + UFB + UFU + FUN + ["neg", "pos", "abs()", "conv", "conv", "copy", "deepcopy", "pickle", "bad", "store"])
nval = st.tuples(st.booleans(), st.one_of(st.integers(-5, 5).map(float), st.floats(-1e6, 1e6))).map(list)
nkey = st.one_of(st.sampled_from("abcd"), names)
GROUPS = [
    Group("parameter", st.fixed_dictionaries({"pool": st.lists(st.tuples(names, nums, st.booleans()).map(list), min_size=1, max_size=3),
                                              "ops": st.lists(st.tuples(pops, st.integers(0, 2), st.integers(0, 2), st.sampled_from(["pp", "pn", "np", "self"]), nums).map(list), min_size=1, max_size=12),
                                              "out": st.sampled_from([False, False, True])}), check_par, 2500),
    Group("namespace", st.fixed_dictionaries({"init": st.lists(st.tuples(nkey, nval).map(list), max_size=4, unique_by=lambda t: t[0]), "how": st.sampled_from(["kw", "map", "pairs", "ns", "both"]),
                                              "ops": st.lists(st.tuples(st.sampled_from(["set", "get", "del", "pop", "update", "kwupdate", "default", "merge", "copy", "clear", "report"]), nkey, nval,
                                                                        st.lists(st.tuples(nkey, nval).map(list), max_size=3)).map(list), min_size=1, max_size=10)}), check_ns, 1500),
]
