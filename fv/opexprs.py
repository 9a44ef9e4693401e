"""Expressions of differential and integral operators: strings for the library and an independent numerical evaluator."""
import numpy as np
from hypothesis import strategies as st

NODES = 60


class State:
    """Exact functions (value and derivatives) on a domain.

    cheb: numpy Chebyshev series in the scaled variable.  trig: real parts of sums c_k exp(i k pi s)."""

    def __init__(self, coeffs, domain, trig=False):
        self.c, self.dom, self.trig = [np.asarray(c) for c in coeffs], domain, trig
        a, b = domain
        self.half = (b - a) / 2
        self.parts = [(1.0, self.c)]

    def at(self, i, order, x):
        a, b = self.dom
        s = (2 * x - a - b) / (b - a)
        out = 0
        for w, coeffs in self.parts:
            c = coeffs[i]
            if self.trig:
                k = np.arange(len(c)) - len(c) // 2
                v = sum(ck * (1j * np.pi * kk / self.half) ** order * np.exp(1j * np.pi * kk * s) for ck, kk in zip(c, k)).real
            else:
                if order:
                    c = np.polynomial.chebyshev.chebder(c, order) / self.half ** order if len(c) > order else np.zeros(1)
                v = np.polynomial.chebyshev.chebval(s, c) + 0 * s
            out = out + w * v
        return out

    def shifted(self, other, h):
        """This state plus h times the other; a tiny imaginary h stays apart from rounding."""
        out = State(self.c, self.dom, self.trig)
        out.parts = self.parts + [(h * w, c) for w, c in other.parts]
        return out

    def merged(self):
        """The same functions with one list of coefficients (real steps only)."""
        acc = []
        for i in range(len(self.c)):
            n = max(len(c[i]) for _, c in self.parts)
            r = 0
            for w, c in self.parts:
                o = (n - len(c[i])) // 2 if self.trig else 0
                r = r + w * np.pad(c[i], (o, n - len(c[i]) - o))
            acc.append(r)
        return State(acc, self.dom, self.trig)


# nodes: ["c", v] ["x"] ["p", name] ["f", i, order] ["k", i] ["+",a,b] ["-",a,b] ["*",a,b] ["^",a,n] ["sin",a] ["cos",a] ["exp",a] ["/",a,b] ["int",a] ["neg",a]
FUN = {"sin": np.sin, "cos": np.cos, "exp": np.exp, "tanh": np.tanh, "cosh": np.cosh, "sinh": np.sinh, "sech": lambda z: 1 / np.cosh(z),
       "sec": lambda z: 1 / np.cos(z), "tan": np.tan, "atan": np.arctan, "log": np.log, "sqrt": np.sqrt, "cot": lambda z: 1 / np.tan(z), "csc": lambda z: 1 / np.sin(z)}


def text(e, names, knames=()):
    t = e[0]
    go = lambda a: text(a, names, knames)
    if t == "c":
        return "%s" % e[1] if e[1] >= 0 else "(%s)" % e[1]
    if t in ("x", "pi"):
        return t
    if t == "p":
        return e[1]
    if t == "k":
        return knames[e[1]]
    if t == "f":
        return names[e[1]] if e[2] == 0 else ("diff(%s, x)" % names[e[1]] if e[2] == 1 else "diff(%s, x, %d)" % (names[e[1]], e[2]))
    if t in "+-*/":
        return "(%s %s %s)" % (go(e[1]), t, go(e[2]))
    if t == "^":
        return "(%s)**%d" % (go(e[1]), e[2])
    if t == "neg":
        return "(-%s)" % go(e[1])
    if t == "int":
        return "int(%s, x)" % go(e[1])
    if t == "flux":
        return "diff(%s, x)" % go(e[1])
    return "%s(%s)" % (t, go(e[1]))


def value(e, x, state, pars, known=()):
    """Value at the points x (complex; the complex part carries a derivative)."""
    t = e[0]
    go = lambda a: value(a, x, state, pars, known)
    if t == "c":
        return np.full(x.shape, complex(e[1]))
    if t == "pi":
        return np.full(x.shape, complex(np.pi))
    if t == "x":
        return x.astype(complex)
    if t == "p":
        return np.full(x.shape, complex(pars[e[1]]))
    if t == "k":
        return known[e[1]](x).astype(complex)
    if t == "f":
        return state.at(e[1], e[2], x) + 0j
    if t == "+":
        return go(e[1]) + go(e[2])
    if t == "-":
        return go(e[1]) - go(e[2])
    if t == "*":
        return go(e[1]) * go(e[2])
    if t == "/":
        return go(e[1]) / go(e[2])
    if t == "^":
        return go(e[1]) ** e[2]
    if t == "neg":
        return -go(e[1])
    if t == "int":
        s, w = np.polynomial.legendre.leggauss(NODES)
        a, b = state.dom
        y = value(e[1], (a + b) / 2 + (b - a) / 2 * s, state, pars, known)
        return np.full(x.shape, np.dot(w, y) * (b - a) / 2)
    return FUN[t](go(e[1]))


def sub(e):
    yield e
    for a in e[1:]:
        if isinstance(a, (list, tuple)):
            yield from sub(a)


def order(e):
    return max([a[2] for a in sub(e) if a[0] == "f"] + [0])


def has(e, *tags):
    return any(a[0] in tags for a in sub(e))


def uses(e):
    return {a[1] for a in sub(e) if a[0] == "f"}


CONST = st.sampled_from([1, 2, 3, -1, -2, 0.5, -1.5, 0.25, 4])


def factors(nf, pars, top, known=0, space=True):
    """Atoms."""
    out = [st.builds(lambda i, o: ["f", i, top - o], st.integers(0, nf - 1), st.sampled_from(range(top + 1))),
           st.builds(lambda i, o: ["f", i, o], st.integers(0, nf - 1), st.sampled_from(range(top + 1))),
           st.builds(lambda i: ["f", i, 0], st.integers(0, nf - 1))]
    if space:
        out.append(st.just(["x"]))
    if pars:
        out.append(st.builds(lambda p: ["p", p], st.sampled_from(pars)))
    if known:
        out.append(st.builds(lambda i: ["k", i], st.integers(0, known - 1)))
    out.append(st.builds(lambda c: ["c", c], CONST))
    return st.one_of(*out)


def exprs(nf, pars, top, known=0, space=True, size=3):
    """Smooth expressions of moderate size."""
    atom = factors(nf, pars, top, known, space)
    low = factors(nf, pars, min(top, 1), known, space)

    flat = factors(nf, pars, 0, known, space)

    def inner(a):                                    # arguments of transcendental functions stay moderate: they must be resolved
        return st.one_of(a, st.builds(lambda i: ["*", ["c", 0.1], ["f", i, 1]], st.integers(0, nf - 1)), st.builds(lambda p, q: ["*", p, q], a, a), st.builds(lambda c, q: ["*", ["c", c], q], st.sampled_from([0.5, 2, -1]), a))
    term = st.one_of(
        atom, atom,
        st.builds(lambda p, q: ["*", p, q], atom, atom),
        st.builds(lambda p, q, r: ["*", p, ["*", q, r]], low, low, atom),
        st.builds(lambda p, n: ["^", p, n], low, st.integers(2, 3)),
        st.builds(lambda t, p: [t, p], st.sampled_from(["sin", "cos"]), inner(flat)),
        st.builds(lambda t, p, q: ["*", q, [t, p]], st.sampled_from(["sin", "cos", "exp"]), st.builds(lambda i: ["*", ["c", 0.5], ["f", i, 0]], st.integers(0, nf - 1)), atom),
        st.builds(lambda p, i: ["/", p, ["+", ["c", 4], ["^", ["f", i, 0], 2]]], low, st.integers(0, nf - 1)),
    )

    def fold(ts):
        e = ts[0][1]
        for s, t in ts[1:]:
            e = [s, e, t]
        return e
    return st.lists(st.tuples(st.sampled_from("+-"), term), min_size=1, max_size=size).map(fold)
