#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts below plus what the property modules, known_findings.txt and seeded/ say themselves."""
import ast, glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Deciding funpy's properties by property-based testing

(Written by `tools/mkdesign.py` from its own text, the property modules in `fv/props/`, `known_findings.txt` and `seeded/`.)

## Method

Every property is an executable predicate over JSON-able *cases*. Hypothesis generates (and shrinks) the cases, a plain
function `check(case)` decides each case against an oracle which does not use the code under test, and a failing shrunk
case is written to `replays/` and can be re-run without Hypothesis: `./check PXX --replay FILE`.

* **Build.** funpy is copied from `/repo`'s working tree into a private scratch directory on every run and its Cython modules
  are compiled there (the `.so` files lying in `/repo` are never trusted; compilations are cached by the hash of the
  sources in `/verif/.cache`). No hooks were needed in `/repo`, so `MANIFEST.json` lists none.
* **Search.** 8 worker processes run disjoint seeded shards of every group; all random choice comes from Hypothesis, seeded
  from (VERIF_SEED, property, group, shard). The quick tier stops after 100 s, thorough after 600 s; cases that did not run
  because the time was up are counted as `late` in the evidence, never as passed. A single case may take a stated
  number of CPU seconds (an infinite loop in the code is a violation, not a hang of the check).
* **Verdict.** An exception the statement does not allow is a violation, as is a failed comparison. `check` returns labels;
  no labels means the case was trivial by the module's RULE. Evidence records counts per label, the number of
  non-trivial cases and samples of them.
* **Oracles** are independent of funpy: closed forms, extended-precision (80-bit) series, Gauss-Legendre quadrature,
  dense numpy linear algebra, complex-step and finite differences, independent collocation codes, plain Python models of histories,
  snapshots of all operands. Where funpy itself appears on both sides the relation is metamorphic (an algebraic law, a
  round trip, the same operation component by component).
* **Tolerances** follow the rounding model of the operation, relative to operand sizes and series lengths, with at least one
  order of magnitude of slack on the unchanged tree over many seeds, so that reordered sums or rewritten loops do not raise
  alarms. Bitwise equality is demanded only of copies, stored data and untouched operands.
* **Why this reaches what the unit tests cannot**: the 203 tests use fixed well-behaved functions, mostly one column on
  [-1, 1], odd lengths, O(1) sizes. The generators deliberately mix even/odd lengths, several columns (some zero, some tiny),
  intervals with awkward ends, real/complex, sizes from 1e-300 to 1e300 where the code should be scale-free, unresolved and
  over-long representations, repeated and interleaved operations on shared objects, and degenerate sizes 0/1/2.

"""

# what is bounded or left out, per property
NOTES = {
"P01": "Callables come from a grammar of expressions whose variation a 17-point grid can see; a callable that vanishes on the sampling grid is outside the statement (any sampling method can be fooled). Breakpoints/piecewise functions do not exist in this code base.",
"P02": "Lengths to about 130 (quick), 500 (thorough).",
"P03": "Points on the interval including both ends and next-to-end floats; evaluation outside is refused by the code and not claimed further.",
"P04": "Quotients and powers only where the divisor/base stays away from zero or the branch cut; in-place forms, scalars, rows of scalars, out=, and histories of operations are included.",
"P05": "As P04. Imaginary parts below about 3e-10 of a function's size are dropped by design when a result is declared real; complex comparisons allow for that.",
"P06": "Derivative orders to length + 2, antiderivatives, definite integrals.",
"P07": "The unpaired cosine of an even length has no representable odd derivative/antiderivative; the statement fixes it to zero (values on the grid). Integrals of order 2 and more are reachable only on the technical object (`trigtech.cumsum(f, m)`).",
"P08": "Odd p-norms of Fourier functions are slow and sampled thinly.",
"P09": "Completeness is demanded of simple, separated roots (separation relative to the resolution); double roots may be reported once, twice or not at all within tolerance.",
"P10": "Location is compared through the attained value, so ties between equal extrema are not alarms.",
"P11": "Chopping may keep up to a few coefficients more than needed; the promised size of the change is checked, not the exact length, except where the statement fixes it (prolong, exact zeros).",
"P12": "`f[i]` is a view on the coefficients by design (aliasing of views is not claimed); np.real may share data.",
"P13": "Columns are independent with condition to 1e8 after scaling; rank-deficient input is not claimed.",
"P14": "Kernels and the nonlocal operator modules (`colloc.kernels`, aggregation through ChebOp) cannot be imported in this tree and are not claimed.",
"P15": "Chebyshev functions, parameters, namespaces and continuation states have I/O; Fourier functions have none. Operators are P29.",
"P16": "", "P17": "", "P18": "chebcolloc2's np.sum is a stub and not claimed.",
"P19": "", "P20": "Weights are ordered functions first, then parameters.", "P21": "",
"P22": "Not claimed: parameters in boundary conditions, nonlocal operators, ddx_adj, integrals of derivatives, second derivatives of constraints (`cts`), bif (asserts False).",
"P23": "Manufactured problems are uniquely solvable and well conditioned. Not claimed: systems mixing differential orders; forcing that the constructor's own sampling grid misses. Badly scaled equations (1e-12 to 1e6) are included except for the sparse QR factorisation, which takes them for singular.",
"P24": "Not claimed: BEM.mat/BEMW.mat, BEMW.det, BEM.nullspace, FoldSolver.solve_adj (unused and unfinished). Condition numbers to 1e6, nearly singular blocks to 1e-13.",
"P25": "", "P26": "The statement is one-sided: success only at solutions, convergence demanded only inside a region where the theory guarantees it.",
"P27": "DeflatedResidual/DeflatedResidualPrecond (superseded, broken imports) are not claimed. In the search for several solutions a step that starts exactly at a known root is skipped (the factor is infinite there).",
"P28": "Eigenvalues are compared only inside a disk in which two resolutions of an independent discretisation agree. Scalings beyond 1e4 are generated only for periodic problems: next to unscaled boundary conditions the QZ algorithm itself loses those digits.",
"P29": "Not claimed: sums of operators of different differential order (refused), boundary conditions given as lambdas in files.",
"P30": "Not claimed: loglog coefficient plots.",
"P31": "Matrices are regular and the old tangent is not nearly orthogonal to the new one (the update divides by that product).",
"P32": "Not claimed: convolution integrals (two functions under an integral with limits), which need the broken kernels module; numpy's maximum of scalars and arrays mixed (a limit of sympy's printer).",
}

NOT = """## Parts of the repository without a claim

`funpy.chebpoly`, `newton.newton_gauss`, `newton.newton_new`, `support.continuation`, `colloc.kernels`, `colloc.cont`,
`colloc/source.py` (shadowed by the package), `colloc.ultraS.test` and `cheb.benchmarks.*` cannot be imported or are never imported; `mapping.inv` and
`support.tools.functional` are unused and broken. `colloc/BiLinSys.py` (fold systems) uses np.float and a source
field that is never made; `cheb/resample.py` is unused; a periodic operator of size one raises TypeError. Nothing a user relies on is behind them.

No property had to be declared not applicable: the code is deterministic and single-threaded, so generated inputs and
operation histories reach all of it.

## False alarms met while building, and what was done

* Even-length Fourier series: whether the unpaired mode counts as cosine or exponential; the statements of P05/P07/P14 now fix the cosine.
* Evaluating twice may differ in the last bit (BLAS kernels depend on alignment): comparisons of repeated evaluations use tolerances.
* Imaginary parts below 3e-10: see P05. Root separation and multiplicity: see P09. Exponent ties in P10: see above.
* Backward errors of solves with nearly singular blocks (P24) and QZ with mixed scalings (P28): generators keep to the range in which the algorithm's own theory promises the digits.
* Long trigonometric right-hand sides can make sympy's simplifier run for minutes: generated expressions are kept short.
* A seeker step started exactly at a found root (P27), deflation of a state with itself: excluded by the statement.

"""


def consts(path):
    t = ast.parse(open(path).read())
    d = {}
    groups = []
    for n in ast.walk(t):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ORACLE"):
            d[n.targets[0].id] = " ".join(ast.literal_eval(n.value).split())
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Group":
            q = [ast.literal_eval(a) for a in n.args[3:4]] + [ast.literal_eval(k.value) for k in n.keywords if k.arg == "quick"]
            th = [ast.literal_eval(a) for a in n.args[4:5]] + [ast.literal_eval(k.value) for k in n.keywords if k.arg == "thorough"]
            name = n.args[0].value if isinstance(n.args[0], ast.Constant) else "..."
            if q:
                groups.append((n.lineno, name, q[0], (th or [25 * q[0]])[0]))
    d["groups"] = [g[1:] for g in sorted(groups)]
    return d


def main():
    props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
    fixed = {}
    for l in open(f"{R}/known_findings.txt"):
        m = re.match(r"(fixed|known): property=(P\d+) (\S+) (.*)", l)
        if m:
            fixed.setdefault(m[2], []).append((m[1], m[3], m[4].strip()))
    seeds = {}
    for d in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
        m = json.load(open(d))
        seeds.setdefault(m["property"], []).append((d.split("/")[-2], m))
    out = [HEAD, "## Properties\n\n"]
    for p in props:
        c = consts(f"{R}/fv/props/{p['id'].lower()}.py")
        out.append(f"### {p['id']} {p['title']}\n\n")
        out.append(f"*Generated.* {c['RULE']}\n\n*Oracle.* {c['ORACLE']}\n\n")
        if c["groups"]:
            out.append("*Groups* (cases quick / thorough): " + ", ".join(f"{n} {q} / {t}" for n, q, t in c["groups"]) + "\n\n")
        if NOTES.get(p["id"]):
            out.append(f"*Bounds and what is left out.* {NOTES[p['id']]}\n\n")
        if p["id"] in seeds:
            out.append("*Planted changes, all caught:* " + "; ".join(f"{i} ({m['what_it_breaks']})" for i, m in seeds[p["id"]]) + "\n\n")
        if p["id"] in fixed:
            out.append("*Defects found:* " + "; ".join(f"{w} [{k} {c}]" for k, c, w in fixed[p["id"]]) + "\n\n")
    out.append(NOT)
    open(f"{R}/DESIGN.md", "w").write("".join(out))


main()
