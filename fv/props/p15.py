"""P15 saving to and loading from HDF5 is lossless."""
import copy
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from ..gens import aspec, arr, domains, xpts, DENSE, as2d, sizes
from ..harness import Group, require, fail

RULE = """Cases are lists of Chebyshev function objects (each built from coefficients, with a tolerance, a length limit and a resolved
flag, or adaptively, and then possibly processed), parameters, namespaces or continuation states that are written to one file,
read back after closing it, compared, used further and saved again. Non-trivial: at least one object with data was read back."""
MORE = 2                                             # quick runs: this many times the cases below
ORACLE = "round trip: attribute-by-attribute identity with the object saved, bitwise equal values, identical results of further operations"


class scratch:
    """A file in a fresh directory."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="p15-")
        self.path = os.path.join(self.dir, "f.h5")
        return self

    def write(self, items):
        import h5py
        with h5py.File(self.path, "w") as fh:
            if items[0][0] is None:
                items[0][1].writeHDF5(fh)
            else:
                for name, o in items:
                    o.writeHDF5(fh.create_group(name))

    def read(self, items, cls):
        import h5py
        out = []
        with h5py.File(self.path, "r") as fh:
            for name, o in items:
                out.append(cls(o).from_hdf5(fh if name is None else fh[name]))
        return out

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(spec):
    from funpy import Fun
    dom = spec["dom"]
    if spec["how"] == "adaptive":
        a, b = spec["ab"]
        f = Fun(op=lambda x: np.exp(a * x / 10) * np.cos(b * x / 3) + a, domain=list(dom), eps=spec["eps"])
    elif spec["how"] == "unresolved":
        f = Fun(op=lambda x: np.abs(x - 0.1234 * (dom[0] + dom[1])) + spec["ab"][0], domain=list(dom), maxLength=spec["maxLength"])
    else:
        kw = {}
        if spec["eps"]:
            kw["eps"] = spec["eps"]
        if spec["happy"]:
            kw["ishappy"] = True
        f = Fun(coeffs=arr(spec["c"]), domain=list(dom), simplify=False, maxLength=spec["maxLength"], **kw)
    d = np.array(dom) if spec["dtype"] == "array" else (tuple(dom) if spec["dtype"] == "tuple" else list(dom))
    f = Fun(onefun=f.onefun, domain=d)
    for op in spec["ops"]:
        if op == "scale":
            f = f * 1.25
        elif op == "diff":
            f = np.diff(f)
        elif op == "prolong":
            f.prolong(f.n + 5)
        elif op == "col":
            f = f[0]
        elif op == "copy":
            f = np.copy(f)
        elif op == "inplace":
            f += 0.5
    return f


def same_fun(f, g, what="loaded function"):
    from funpy import Fun
    require(type(g) is Fun and g.type == f.type, "%s is a %s of type %s instead of %s", what, type(g).__name__, getattr(g, "type", None), f.type)
    require(np.shape(g.domain) == np.shape(f.domain) and np.array_equal(np.asarray(g.domain, float), np.asarray(f.domain, float)),
            "%s lives on %s instead of %s", what, g.domain, f.domain)
    require(g.coeffs.shape == f.coeffs.shape and g.coeffs.dtype == f.coeffs.dtype, "%s has coefficients %s %s instead of %s %s",
            what, g.coeffs.dtype, g.coeffs.shape, f.coeffs.dtype, f.coeffs.shape)
    require(np.array_equal(g.coeffs, f.coeffs), "%s has other coefficients", what)
    for name in ("eps", "hscale", "maxLength", "ishappy"):
        a, b = getattr(f.onefun, name), getattr(g.onefun, name)
        require(np.all(a == b), "%s has %s = %r instead of %r", what, name, b, a)
    require(bool(g == f), "%s does not compare equal to the original", what)
    x = xpts(DENSE, np.asarray(f.domain, float))
    require(np.array_equal(g(x), f(x)), "%s evaluates differently", what)


def further(f, g):
    """The loaded object can be used like the original one."""
    for name, op in (("simplify", lambda u: np.copy(u).simplify()), ("derivative", lambda u: np.diff(u)), ("cumsum", np.cumsum),
                     ("sum with the original", lambda u: u + f), ("product", lambda u: u * u), ("in place", lambda u: _ip(np.copy(u))),
                     ("prolong", lambda u: np.copy(u).prolong(f.n + 3))):
        same_fun(op(f), op(g), "%s of the loaded function" % name)
    require(np.array_equal(np.sum(f), np.sum(g)), "the loaded function has another integral")
    same_fun(f, copy.deepcopy(g), "deep copy of the loaded function")


def _ip(u):
    u *= -2.0
    return u


def roundtrip(objs, single, cls=lambda o: type(o)):
    items = [(None, objs[0])] if single else [("item %d" % i, o) for i, o in enumerate(objs)]
    with scratch() as s:
        s.write(items)
        out = s.read(items, cls)
        items2 = [(n, o) for (n, _), o in zip(items, out)]
        s.write(items2)                                     # save the loaded objects again
        out2 = s.read(items2, cls)
    return [o for _, o in items], out, out2


def check_fun(case):
    fs = [build(s) for s in case["funs"]]
    keep = [copy.deepcopy(f) for f in fs]
    orig, one, two = roundtrip(fs, case["single"])
    for f, k, g, h in zip(orig, keep, one, two):
        same_fun(k, f, "saved function")
        same_fun(f, g)
        same_fun(f, h, "twice loaded function")
        further(f, g)
    f = orig[0]
    return [case["funs"][0]["how"], "m=1" if f.m == 1 else "m>1", "several" if len(orig) > 1 else "one", "happy" if f.ishappy else "unhappy"]


def check_trig(case):
    """A Fourier object is saved losslessly or refused, never altered silently."""
    from funpy import Fun
    a, b = case["ab"]
    L = case["dom"][1] - case["dom"][0]
    f = Fun(op=lambda x: np.cos(2 * np.pi * (x - case["dom"][0]) / L * (1 + abs(a) % 4)) + b, domain=case["dom"], type="trig")
    try:
        _, one, _ = roundtrip([f], True)
    except (AttributeError, NotImplementedError, TypeError):
        return ["refused"]
    g = one[0]
    require(g.type == "trig" and np.array_equal(g.coeffs, f.coeffs), "a Fourier object changed in a round trip")
    x = xpts(DENSE, case["dom"])
    require(np.array_equal(g(x), f(x)), "a Fourier object evaluates differently after a round trip")
    return ["saved"]


def plain(v):
    return v.value if hasattr(v, "value") else v


def num(v):
    return complex(v[0], v[1]) if isinstance(v, list) else v


def same_value(a, b):
    a, b = plain(a), plain(b)
    return type(a)(b) == a if isinstance(a, str) else (np.asarray(b) == np.asarray(a)).all() and np.iscomplexobj(a) == np.iscomplexobj(b)


def check_par(case):
    from funpy.vectorspaces import Parameter, Namespace
    ps = [Parameter(**{n: num(v)}) for n, v in case["pars"]]
    orig, one, two = roundtrip(ps, case["single"])
    for p, g in list(zip(orig, one)) + list(zip(orig, two)):
        require(type(g) is Parameter and g.name == p.name, "loaded parameter %r is called %r", p.name, g.name)
        require(same_value(p.value, g.value), "loaded parameter %s has value %r instead of %r", p.name, g.value, p.value)
        require(np.asarray(2 * g + 1).item() == np.asarray(2 * p + 1).item(), "arithmetic on a loaded parameter differs")
    ns = Namespace(**{n: (Parameter(**{n: num(v)}) if k else num(v)) for (n, v), k in zip(case["pars"], case["wrap"] * len(case["pars"]))})
    _, one, two = roundtrip([ns], case["single"])
    for g in one + two:
        require(type(g) is Namespace and sorted(g.keys()) == sorted(ns.keys()), "loaded namespace has names %s instead of %s", sorted(g), sorted(ns))
        for k in ns:
            require(same_value(ns[k], g[k]), "loaded namespace has %s = %r instead of %r", k, g[k], plain(ns[k]))
    g = Namespace(old=1.0)
    import h5py
    with scratch() as s:
        s.write([(None, ns)])
        with h5py.File(s.path, "r") as fh:
            g.readHDF5(fh)
    require(sorted(g.keys()) == sorted(set(ns.keys()) | {"old"}), "reading into a namespace gives names %s", sorted(g))
    require(all(same_value(ns[k], g[k]) for k in ns), "reading into a namespace gives other values")
    return ["several" if len(ps) > 1 else "one"]


def check_state(case):
    from funpy.vectorspaces import ContinuationState, Parameter
    f = build(case["fun"])
    (pn, pv), extra = case["pars"][0], dict(case["pars"][1:])
    for k in (pn, "a", "u", "ns", "weights", "funcs", "reals", "signature"):       # constructor arguments
        extra.pop(k, None)
    st_ = ContinuationState(a=Parameter(**{pn: pv}), u=f, **extra)
    for op in case["sops"]:
        if op == "scale":
            st_ = st_ * 0.5
        elif op == "add":
            st_ = st_ + st_
        elif op == "inplace":
            st_ *= 3.0
        elif op == "copy":
            st_ = copy.deepcopy(st_)
        elif op == "weights":
            st_.weights = np.array([2.0, 0.25])
    orig, one, two = roundtrip([st_], case["single"])
    for g in (one[0], two[0]):
        require(type(g) is ContinuationState, "the loaded state is a %s", type(g).__name__)
        same_fun(st_.u, g.u, "function of the loaded state")
        require(g.cpar == st_.cpar and g.a == st_.a, "loaded state has parameter %s = %r instead of %s = %r", g.cpar, g.a, st_.cpar, st_.a)
        require(np.array_equal(np.asarray(g.weights), np.asarray(st_.weights)), "loaded state has weights %s instead of %s", g.weights, st_.weights)
        require(list(g.signature) == list(st_.signature), "loaded state has signature %s", g.signature)
        a, b = {k: float(v) for k, v in g.items()}, {k: float(v) for k, v in st_.items()}
        require(a == b, "loaded state has parameters %s instead of %s", a, b)
        require(np.array_equal(np.asarray(g), np.asarray(st_)), "the loaded state has another coefficient vector")
        if abs(st_.a) < 1e150:                       # (else the sum of squares is out of range)
            require(g.norm() == st_.norm() or (np.isnan(g.norm()) and np.isnan(st_.norm())), "loaded state has another norm")
        h, k = g + st_, st_ + st_
        require(np.array_equal(np.asarray(h), np.asarray(k)), "a sum with the loaded state differs")
        ip = np.inner(g, st_), np.inner(st_, st_)
        require(np.array_equal(*map(np.asarray, ip)), "an inner product with the loaded state differs: %s", ip)
    return ["ns" if extra else "no ns", "m=1" if f.m == 1 else "m>1", "ops" if case["sops"] else "plain"]


names = st.one_of(st.sampled_from(["a", "b", "alpha", "lambda", "r0", "name", "value"]), st.text("abcxyzR_019", min_size=1, max_size=6).map(lambda s: "p" + s), st.sampled_from(["α", "κ1", "D_u"]))
reals = st.one_of(st.integers(-5, 5), st.floats(-1e6, 1e6), st.sampled_from([0.0, 1e-300, 1 / 3, -1e300, 2.0**60]))
values = st.one_of(reals, reals, st.tuples(st.floats(-5, 5), st.floats(0.5, 5)).map(list))
fun = st.fixed_dictionaries({
    "how": st.sampled_from(["coeffs", "coeffs", "coeffs", "adaptive", "unresolved"]), "c": aspec(), "dom": domains,
    "eps": st.sampled_from([2.220446049250313e-16, 1e-8, 1e-12, 3e-5]), "happy": st.booleans(), "maxLength": st.sampled_from([65, 257, 16385, 1025]),
    "ab": st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list), "dtype": st.sampled_from(["list", "array", "tuple"]),
    "ops": st.lists(st.sampled_from(["scale", "diff", "prolong", "col", "copy", "inplace"]), max_size=3)})
pars = st.lists(st.tuples(names, reals.map(float)).map(list), min_size=1, max_size=4, unique_by=lambda t: t[0])
GROUPS = [
    Group("fun", st.fixed_dictionaries({"funs": st.lists(fun, min_size=1, max_size=3), "single": st.booleans()}), check_fun, 450, weight=2),
    Group("trig", st.fixed_dictionaries({"ab": st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list), "dom": domains}), check_trig, 60),
    Group("par", st.fixed_dictionaries({"pars": st.lists(st.tuples(names, values).map(list), min_size=1, max_size=5, unique_by=lambda t: t[0]),
                                        "wrap": st.lists(st.booleans(), min_size=1, max_size=3), "single": st.booleans()}), check_par, 300),
    Group("state", st.fixed_dictionaries({"fun": fun, "pars": pars.filter(lambda p: all(n not in ("name", "value") for n, _ in p)), "single": st.booleans(),
                                          "sops": st.lists(st.sampled_from(["scale", "add", "inplace", "copy", "weights"]), max_size=3)}), check_state, 300),
]
