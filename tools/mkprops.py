#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=hook)))

prop("P01", "Adaptive construction reproduces the sampled function",
 """Building a function object from a smooth callable whose variation the initial sampling grid can see, or from a list of such callables (one column each), on any finite
 interval - in Chebyshev form, or in Fourier form when the callable is periodic on the interval - yields an object that
 reports itself resolved and whose values agree with the callable at every point of the interval, column by column, to
 within a modest multiple of the requested tolerance relative to the function's size.
 A polynomial of degree d (a trigonometric polynomial of degree d) is stored with d+1 (2d+1) coefficients up to a few trailing ones at rounding level, and
 a callable that cannot be resolved within the length limit is reported as unresolved with a length that respects the limit.""",
 ["inputs", "configurations"],
 "all smooth callables (analytic combinations of polynomials, exponentials, trigonometric, rational and oscillatory functions), all column counts, all finite domains, tolerances, length limits, both representations, both resampling strategies",
 "Tests construct a handful of fixed functions (sin, cos, exp) on two domains and check a few points; aliasing, early happiness, odd/even grids and per-column scaling are only reachable over a family of functions.",
 ["funpy/fun.py", "funpy/cheb/chebtech.py", "funpy/cheb/refine.py", "funpy/cheb/detail.pyx", "funpy/trig/trigtech.py", "funpy/trig/refine.py", "funpy/mapping.py"],
 [("populate/refine/happiness loop", "funpy/cheb/chebtech.py, funpy/trig/trigtech.py"), ("standard chop", "funpy/cheb/detail.pyx")],
 ["Fun(op=..., domain=..., type=...)", "f(x)", "len(f)", "f.ishappy"])

prop("P02", "Grid values and coefficients determine each other",
 """For every array of samples (any number of rows and columns, real or complex) on the Chebyshev grid or on the equispaced
 periodic grid, converting samples to coefficients and back (and coefficients to samples and back) returns the original
 array to rounding accuracy, and the coefficients are those of the unique interpolant, i.e. evaluating the series by its
 definition at the grid points reproduces the samples.
 Function objects built from values or from coefficients therefore hold exactly that data, whatever the memory layout of the array, their sample points are the
 documented grids mapped to the domain, the data for coefficient plots (plotcoeffs_cheb, plotcoeffs_trig without loglog, of a function not zero) pair the modulus of every coefficient with its degree or wave number, and neither conversion alters the array handed in.""",
 ["inputs"], "all array shapes n>=1, m>=1, real and complex entries of any magnitude and symmetry (even, odd, generic), both grids, C- and Fortran-ordered arrays",
 "Tests only compare a few short hard-coded vectors; parity of n, the even/odd symmetry shortcuts, n=1, memory order and complex data change code paths.",
 ["funpy/cheb/detail.pyx", "funpy/trig/transform.py", "funpy/cheb/pts.py", "funpy/trig/trigpts.py", "funpy/fun.py"],
 [("polyfit/polyval (DCT)", "funpy/cheb/detail.pyx"), ("vals2coeffs/coeffs2vals (FFT)", "funpy/trig/transform.py")],
 ["polyfit", "polyval", "vals2coeffs", "coeffs2vals", "Fun.from_values", "Fun.from_coeffs", "f.values", "f.x"])

prop("P03", "Evaluation equals the defining series",
 """Evaluating a function object at points of its interval gives, for every column, the value of the series
 sum c_k T_k (Chebyshev) or sum c_k exp(i pi k x) (Fourier, with the unpaired highest mode of an even-length series
 treated as a cosine) at the affinely mapped point, to rounding accuracy, for scalar and array arguments, real and
 complex coefficients and any interval, with one output row per point and one column per component (unit axes dropped).
 Endpoint values, barycentric evaluation matrices and evaluation on the sample grid agree with it, a Fourier object is
 periodic, and evaluating outside the interval is refused.""",
 ["inputs"], "all coefficient arrays (any length/columns/real or complex), all evaluation points inside the interval incl. endpoints and grid points, all intervals",
 "Tests evaluate a few functions at random points in [-1,1] with loose shape checks; odd/even lengths, lengths 1-3, complex and multi-column cases and non-standard intervals are mostly unreached.",
 ["funpy/cheb/detail.pyx", "funpy/trig/eval.py", "funpy/fun.py", "funpy/mapping.py", "funpy/cheb/pts.py"],
 [("clenshaw", "funpy/cheb/detail.pyx"), ("horner", "funpy/trig/eval.py"), ("Mapping", "funpy/mapping.py")],
 ["f(x)", "f.lval()", "f.rval()", "f.eval(y)"])

prop("P04", "Arithmetic on Chebyshev functions is pointwise",
 """For Chebyshev function objects on the same interval, +, -, *, / (nonvanishing denominator), powers with numeric exponents, unary plus and minus, abs and the elementwise numpy
 functions of one function (where the result is smooth), between functions, and between functions and numbers (either side; one number per column for sums, differences and quotients), give a
 function whose value at every point is the result of the operation on the values there, to approximation accuracy; in sums, differences and products a
 single-column operand is combined with every column of the other, and lengths may differ.
 The in-place forms and numpy's out= forms give the same function in the object assigned to; operands and functions not assigned to are left unchanged, results are independent of their operands, and combining functions on different
 intervals is refused.""",
 ["inputs", "histories"], "all pairs of Chebyshev functions (length, columns, scale, domain), scalar and per-column constants, all supported operators, in-place and out-of-place, chains of operations",
 "Tests check fixed functions per operator; combinations of lengths, columns, aliasing (f op f), in-place sequences and untouched operands are not covered.",
 ["funpy/cheb/ufuncs.pyx", "funpy/fun.py", "funpy/cheb/chebtech.py", "funpy/cheb/refine.py"],
 [("ufunc overrides", "funpy/cheb/ufuncs.pyx"), ("__array_ufunc__", "funpy/fun.py")],
 ["f+g", "f*=g", "np.exp(f)", "f(x)"])

prop("P05", "Arithmetic on periodic (Fourier) functions is pointwise",
 """For Fourier function objects on the same interval, +, -, *, / (nonvanishing denominator), powers (non-negative integers; any exponent for positive functions; positive numbers to a function), unary minus,
 abs of sign-definite functions and elementwise numpy functions, between functions and between functions and real or complex numbers (either side; rows of one number per column in sums, differences and quotients), give a Fourier
 function whose value at every point is the result of the operation on the values there (to the tolerance of Fourier approximation where a new approximation is made), real results being reported real,
 for even and odd lengths, any mix of lengths, and a single-column right operand (either one, for products) combined with every column of the other; the stored samples and coefficients of the result describe the same function.
 In-place forms and numpy's out= forms give the same function in the object assigned to, operands not assigned to are left unchanged, and combining functions on different intervals is refused.""",
 ["inputs", "histories"], "all pairs of Fourier functions (even/odd length, columns, real/complex, scale, domain), scalar constants, all supported operators, in-place and out-of-place",
 "Tests use sin/cos samples with a few lengths; the interplay of parity, length mismatch, realness flags and cached values is not sampled.",
 ["funpy/trig/ufuncs.py", "funpy/fun.py", "funpy/trig/trigtech.py", "funpy/trig/trig_simplify.py"],
 [("ufunc overrides", "funpy/trig/ufuncs.py"), ("__array_ufunc__", "funpy/fun.py")],
 ["f+g", "f*=g", "f(x)", "f.values", "f.coeffs"])

prop("P06", "Calculus on Chebyshev functions is exact",
 """For every Chebyshev function object the k-th derivative, the indefinite integral (vanishing at the left endpoint) and the
 definite integral on its interval equal those of the represented polynomial, column by column, scaled correctly by the interval length.
 Consequently they are linear, differentiation undoes indefinite integration, integrating a derivative gives the
 difference of end values (and the integral's right end value is the definite integral), derivatives of order >= the length vanish, and the argument is left unchanged.""",
 ["inputs"], "all coefficient arrays, all derivative orders k>=1, all intervals, any number of columns",
 "Tests differentiate/integrate a few analytic functions at order 1-2; length parity, short lengths, high orders and interval scaling need generated inputs.",
 ["funpy/cheb/diff.py", "funpy/cheb/chebtech.py", "funpy/fun.py"],
 [("computeDerCoeffs recurrence", "funpy/cheb/diff.py"), ("cumsum/sum", "funpy/cheb/chebtech.py"), ("rescale factors", "funpy/fun.py")],
 ["np.diff(f, n)", "np.cumsum(f)", "np.sum(f)"])

prop("P07", "Calculus on periodic (Fourier) functions is exact",
 """For every Fourier function object the k-th derivative and the definite integral over its interval equal those of the represented
 trigonometric polynomial, column by column and scaled by the interval length (odd derivatives and indefinite integrals of even-length series drop the unpaired highest mode); for zero-mean functions the indefinite integral is
 the antiderivative vanishing at the left endpoint, and for functions with non-zero mean it is refused.
 Differentiation undoes indefinite integration, integrals of derivatives vanish, and the argument is left unchanged.""",
 ["inputs"], "all Fourier coefficient arrays (even and odd length, real/complex), all orders k>=1, all intervals, any number of columns",
 "Tests use short fixed samples; index arithmetic differs for even/odd lengths and each column, which only generated lengths and columns separate.",
 ["funpy/trig/trigtech.py", "funpy/fun.py"],
 [("diff/sum/cumsum", "funpy/trig/trigtech.py")],
 ["np.diff(f, n)", "np.cumsum(f)", "np.sum(f)"])

prop("P08", "Inner products and norms are the integrals they denote",
 """The inner product of two function objects on one interval is the matrix of integrals of products of columns (conjugating the second factor for
 Fourier functions), the dot product is its trace (so is the scalar product sprod, up to the squared scale), the weighted inner product is column by column the integral against the Chebyshev weight,
 and p-norms (p = 1, 2, 3, 4, infinity; odd p for columns of one sign), Sobolev norms and normalisation equal the corresponding integral quantities summed over the columns.
 Hence inner products are symmetric and bilinear, norms are non-negative, absolutely homogeneous, satisfy Cauchy-Schwarz and the triangle
 inequality, normalising gives unit norm, operands are unchanged, and differing intervals or non-positive p are refused.""",
 ["inputs"], "all function pairs (both representations, lengths, columns, intervals), p values, scalings",
 "Tests only check a couple of norms of fixed functions; weights, interval factors, differing lengths and column sums need generated inputs and an independent quadrature.",
 ["funpy/fun.py", "funpy/norms.py", "funpy/cheb/chebtech.py", "funpy/trig/trigtech.py", "funpy/cheb/pts.py", "funpy/trig/trigpts.py"],
 [("inner/innerw/quadwts", "funpy/cheb/chebtech.py"), ("norm/norm2/wkpnorm", "funpy/fun.py")],
 ["np.inner", "np.dot", "innerw", "norm", "h1norm", "h2norm", "normalize"])

prop("P09", "Root finding is sound and complete",
 """For a single-column Chebyshev function object on any finite interval, every reported root lies in the interval and the function vanishes there to rounding
 accuracy relative to its size, every simple (sign-changing) root of the function in the interval that is well separated from others is reported, and the roots come in
 increasing order, simple ones once; for several columns the roots are reported column by column.
 This holds for any degree, including degrees above the subdivision threshold, roots at or near the endpoints, and functions without roots (empty result).""",
 ["inputs"], "all polynomials / smooth functions (degree 0 to several hundred, prescribed root sets incl. endpoints), intervals, column counts",
 "Tests check a few known functions (e.g. cos(20x)); the recursive subdivision and eigenvalue filtering only err for particular degrees and root locations.",
 ["funpy/cheb/detail.pyx", "funpy/cheb/chebtech.py", "funpy/fun.py", "funpy/mapping.py"],
 [("colleague-matrix roots with subdivision", "funpy/cheb/detail.pyx")],
 ["funpy.roots(f)"])

prop("P10", "Global minima and maxima are found with their locations",
 """For every Chebyshev or real Fourier function object on any interval and every column, the reported minimum and maximum bound all values of the function on
 the interval from below and above up to rounding, each is attained at the reported location, and that location lies in the interval.
 The infinity norm equals the larger of their absolute values, and the function is left unchanged.""",
 ["inputs"], "all function objects (degree, oscillation, columns, interval, extrema at endpoints or in the interior)",
 "A test can only pick functions with known extrema; endpoints vs interior extrema, multi-column packing and subdivided root finding vary over inputs.",
 ["funpy/cheb/minmax.py", "funpy/cheb/chebtech.py", "funpy/trig/trigtech.py", "funpy/fun.py"],
 [("critical points from roots of derivative", "funpy/cheb/minmax.py")],
 ["funpy.minandmax(f)", "norm(f, inf)"])

prop("P11", "Truncation and padding change functions only as promised",
 """Simplifying a resolved function object (Chebyshev or Fourier) at a tolerance keeps the retained coefficients and drops only coefficients below the error bound of the
 chopping rule (of the order of the tolerance for a function decaying to a plateau, at most its 2/3 power, relative to the column's largest coefficient), so that its values change by no more than the dropped part; it never lengthens the function
 (a Fourier series may gain one mode to become odd), removes long tails below the tolerance, and does nothing to an unresolved function.
 Prolonging to a greater length leaves the function unchanged at every point, and shortening keeps exactly the retained low-order coefficients (a shortened even-length Fourier series up to its unpaired mode), without
 changing the array or function passed in; the chopping rule returns a cut-off between 0 and the length, equal to the length when the tail has not decayed or there are fewer than 17 coefficients,
 and depends only on the relative sizes of the coefficients (not on scale, sign or phase).""",
 ["inputs"], "all coefficient arrays with varied decay, noise plateaus, parity and column counts; all tolerances; all target lengths",
 "Unit tests only see the compactness of a few constructions; the plateau detection and the even/odd re-symmetrisation need arbitrary coefficient envelopes and lengths.",
 ["funpy/cheb/detail.pyx", "funpy/trig/trig_simplify.py", "funpy/trig/trigtech.py", "funpy/cheb/chebtech.py"],
 [("standardChop", "funpy/cheb/detail.pyx"), ("simplify_coeffs/prolong", "funpy/cheb/detail.pyx, funpy/trig/trig_simplify.py")],
 ["f.simplify(eps)", "f.prolong(n)", "standardChop"])

prop("P12", "Columns, copies and rearrangements are faithful and independent",
 """Selecting a column or (Chebyshev) a slice of columns, iterating over the columns (also in nested loops), horizontally stacking Chebyshev functions of different lengths, flipping their columns or their argument, restricting them to subintervals
 (pieces side by side), real, imaginary and conjugate parts, flattening and rebuilding from coefficients or samples, the zeros/ones constructors and conversion between representations (and of numbers) give functions whose values are exactly (conversions: to approximation
 accuracy) the rearranged values of the originals, leaving the originals unchanged; out-of-range columns, improper subintervals and stacks across different intervals are refused.
 A copy (numpy copy or deep copy) equals its original, keeps its tolerance, scale and length limit, and neither later in-place changes of the copy affect the original nor vice versa; a stack is independent of its parts; and equality holds
 exactly for equal representation, interval and data.""",
 ["inputs", "histories"], "all function objects, column indices and slices, stacks of any composition, subinterval partitions, sequences of copy/in-place operations",
 "Tests copy one function and compare; aliasing only shows after later in-place histories, and stacking/slicing errors need varied lengths and column counts.",
 ["funpy/fun.py", "funpy/cheb/chebtech.py", "funpy/trig/trigtech.py"],
 [("__getitem__/hstack/copy/deepcopy/restrict", "funpy/cheb/chebtech.py, funpy/fun.py, funpy/trig/trigtech.py")],
 ["f[i]", "np.hstack", "np.copy", "deepcopy", "f.restrict", "f.flipud", "asfun"])

prop("P13", "QR factorisation of function columns",
 """The QR factorisation of a Chebyshev function object with any number of columns on any interval returns columns Q that are orthonormal in the inner product of that interval and an
 upper triangular R whose combination Q R reproduces every column at every point, both to rounding accuracy (for orthonormality: amplified at most by how nearly dependent the columns are).
 It holds whatever the length of the representation relative to the number of columns and for linearly independent columns of any scale, and the original function keeps its values.""",
 ["inputs"], "all linearly independent column sets (lengths, columns, scales, intervals)",
 "No existing test covers it; orthonormality depends on the quadrature weights, interval scaling and length/column relation over all inputs.",
 ["funpy/cheb/qr.py", "funpy/qr.py", "funpy/cheb/chebtech.py", "funpy/fun.py"],
 [("weighted discrete QR / Householder", "funpy/cheb/qr.py")], ["funpy.qr(f)"])

prop("P14", "Periodic shift, convolution and nonlocal integrals",
 """For Fourier function objects, rolling by a gives the function shifted by a (in units of half the interval length; without the unpaired highest mode), circular convolution gives the periodic convolution integral over
 an interval centred at zero (commutative and bilinear, for differing and even or odd lengths), and the adhesion operation multiplies the coefficients of
 function and kernel mode by mode; real, imaginary and conjugate parts have the real, imaginary and conjugate values at every point.
 The operands keep their values.""",
 ["inputs"], "all Fourier functions (parity, length, real/complex, columns, interval) and shifts",
 "Tests convolve a few fixed pairs; index alignment depends on parity and length differences.",
 ["funpy/trig/operations.py", "funpy/trig/trigtech.py", "funpy/fun.py"],
 [("circshift/circconv/trig_adhesion", "funpy/trig/operations.py")], ["np.roll", "np.convolve", "adhesion", "np.real", "np.imag", "np.conj"])

prop("P15", "Saving to and loading from HDF5 is lossless",
 """Writing a Chebyshev function object, a parameter, a namespace or a continuation state to an HDF5 file (several per file in groups of their own) and reading it back after closing and reopening yields an equal object of the same kind: identical interval, representation,
 coefficients, parameter names and values, weights, resolved flag, length limit and tolerance, so that it evaluates identically and further operations on it (including saving it again) behave as on the original.
 The object saved is unchanged, and a Fourier function object, whose kind has no file format, is refused rather than altered.""",
 ["inputs", "histories"], "all Chebyshev function objects, parameter sets, namespaces and continuation states (columns, intervals, tolerances, resolved or not) written once or several per file",
 "There are no I/O tests; every attribute must survive for every kind of object.",
 ["funpy/fun.py", "funpy/cheb/chebtech.py", "funpy/vectorspaces/base_state.py", "funpy/vectorspaces/parameter.py"],
 [("writeHDF5/from_hdf5", "funpy/fun.py, funpy/cheb/chebtech.py, funpy/vectorspaces")], ["writeHDF5", "from_hdf5"])

prop("P16", "Ultraspherical conversions and matrices represent their operators",
 """Converting coefficients between ultraspherical (C^(lambda)) bases whose indices differ by an integer (Chebyshev being lambda=0, Legendre lambda=1/2) preserves the represented polynomial, is inverted by the reverse conversion and leaves its input alone; other conversions are refused.
 The ultraspherical spectral matrices - conversion (and its inverse), k-th differentiation, multiplication by a function, integration and evaluation functionals - applied to the coefficients of a polynomial yield
 the coefficients, in the target basis, of the converted, differentiated, multiplied or integrated polynomial (multiplication: the leading block of the operator, multipliers longer than the matrix truncated to its size), on one or several intervals of any length and for every size from 2.""",
 ["inputs", "configurations"], "all sizes n, all basis indices and derivative orders, all polynomials and multipliers, intervals",
 "No tests exist for these matrices; they must hold entrywise for all sizes and orders.",
 ["funpy/colloc/ultraS/matrices.py", "funpy/colloc/ultraS/transform.py", "funpy/colloc/ultraS/ultraS.py", "funpy/ultra.py"],
 [("convertmat/diffmat/multmat/intmat", "funpy/colloc/ultraS/matrices.py"), ("ultra2ultra/jac2jac", "funpy/ultra.py")],
 ["ultra2ultra", "convertmat", "diffmat", "multmat", "intmat"])

prop("P17", "Fourier discretisation matrices represent their operators",
 """The Fourier spectral matrices act on coefficient vectors as differentiation of any order, integration over the interval (into the constant mode), multiplication by a periodic function and the
 nonlocal aggregation integral (and its derivative) act on the represented trigonometric polynomial, and the Fourier collocation matrices act on sample vectors as differentiation of any order, for even and odd sizes (the unpaired highest mode is dropped by odd derivatives;
 multiplication is the leading block of the operator, whatever the lengths of multiplier and matrix), on one or several intervals of any length.""",
 ["inputs", "configurations"], "all sizes n, orders k, multipliers and trigonometric polynomials",
 "No tests exist for these matrices; parity and order branches must hold entrywise for all sizes.",
 ["funpy/colloc/trigspec/matrices.py", "funpy/colloc/trigcolloc/matrices.py", "funpy/colloc/trigspec/trigspec.py"],
 [("diffmat/multmat/intmat", "funpy/colloc/trigspec/matrices.py, funpy/colloc/trigcolloc/matrices.py")], ["diffmat", "multmat", "intmat"])

prop("P18", "Chebyshev grids, weights and collocation matrices are exact",
 """Chebyshev points of both kinds are, for every number of points and every interval, the sorted, symmetric, documented points with their angles; the quadrature weights that come with them integrate every polynomial of degree below n exactly and are positive; barycentric weights and
 interpolation matrices reproduce every polynomial of degree below n at any target points (including the nodes themselves); and the k-th collocation differentiation matrix maps
 samples of every polynomial of degree below n to samples of its k-th derivative, up to rounding growth, as do the collocation discretisation's own differentiation, evaluation and integration. A functional made from a function gives the integral of products with it.
 Changing a returned array does not change what later callers get, and arguments are left unchanged.""",
 ["inputs", "configurations"], "all n, all orders k, all target point sets, all polynomials of degree < n, first and second kind grids",
 "No direct tests; exactness is a statement about every n and every polynomial.",
 ["funpy/cheb/pts.py", "funpy/cheb/diff.py", "funpy/trig/trigpts.py", "funpy/colloc/chebcolloc"],
 [("chebpts/quadwts/barymat/diffmat", "funpy/cheb/pts.py, funpy/cheb/diff.py")], ["chebpts", "quadwts", "barymat", "diffmat"])

prop("P19", "Sparse and structured-matrix helpers match dense linear algebra",
 """Deleting rows or columns, reordering them, appending rows, dropping entries below a threshold, reducing by projection, and building Toeplitz (first column and row with a common corner), Hankel or block matrices with the sparse helpers gives exactly the matrix that the corresponding dense operation gives, for every shape, size and sparsity pattern,
 in the expected sparse format and without changing the matrices, vectors and index sets handed in (single-row and single-column deletion, row appending and dropping of entries work in place by design); the boundary-condition helpers pick or clear the leading entries of each equation's block;
 and the size helpers (next power of two, rounding up to a multiple, discretisation sizes, nearest entry, moving average, secant step) return what they document.""",
 ["inputs"], "all sparse matrices (shape, pattern, duplicates/empty rows), index sets, sizes",
 "No tests exist; the index-pointer surgery fails only for particular positions and patterns.",
 ["funpy/colloc/sparse/csr.py", "funpy/colloc/sparse/csc.py", "funpy/colloc/tools.py", "funpy/colloc/ultraS/matrices.py", "funpy/support/tools.py"],
 [("delete_rows_csr, eliminate_zeros_csr, ...", "funpy/colloc/sparse")], ["delete_rows_csr", "..."])

prop("P20", "Solution states behave as vectors of the product space",
 """States made of real function components (Chebyshev or Fourier) and named scalar parameters (plain, continuation and two-parameter states, and pairs of state and tangent) form a vector space: sums, differences, products, scalings, quotients by numbers, in-place forms and numpy functions act on every function component
 and every parameter exactly as on each of them alone, keep names, further named values and weights, and the tangent of a pair is normalised; inner products (plain and weighted), norms, masses and normalisation equal those of the product space with the state's weights (functions first, then parameters).
 Copies are equal and independent, states are independent of the functions and parameters they are built from, results are independent of their operands (real parts may share data, as in numpy), conversion to and from coefficient vectors and between kinds of states is loss-free, indexing, (nested) iteration, length and items reflect the components, plot_values gives the (first) parameter and the norm asked for of the chosen component (plain, signed by its slope or value at the left end, the latter also without its mean, or the Sobolev norm of the order given), operands are not modified, and histories of such operations agree with a plain model of (functions, numbers).""",
 ["inputs", "histories"], "all states of each kind (numbers of functions/columns/parameters, lengths, intervals) and sequences of operations on them",
 "Existing tests do single operations on fixed states; aliasing between components and parameter bookkeeping appears only over operation histories.",
 ["funpy/vectorspaces/base_state.py", "funpy/vectorspaces/cont_state.py", "funpy/vectorspaces/tp_cont_state.py", "funpy/vectorspaces/tp_state.py", "funpy/vectorspaces/mp_state.py", "funpy/vectorspaces/deflation_state.py"],
 [("BaseState ufunc dispatch", "funpy/vectorspaces/base_state.py")], ["State arithmetic", "np.inner", "norm", "copy", "coeffs"])

prop("P21", "Parameters and namespaces keep names, values and arithmetic",
 """A named parameter holds a name and a number: arithmetic, comparisons and numpy functions between parameters and numbers (either side) act on the values and give a parameter with the (first) parameter's name, in-place and out= forms change the value of the object assigned to and nothing else,
 conversion to float, int, array and truth value, numpy's real, imag, conj, sum, dot, inner, around and *_like functions give what they give for the number, and copies are equal and independent.
 Namespaces are made from keywords, mappings and pairs, and set, get, delete, update, merge, copy and report their contents like dictionaries, for every history of such operations on parameters and namespaces.""",
 ["inputs", "histories"], "all names, real and complex values and sequences of operations", "Tests exercise two fixed parameters and a fixed namespace.",
 ["funpy/vectorspaces/parameter.py", "funpy/vectorspaces/namespace.py"],
 [("Parameter/Namespace", "funpy/vectorspaces/parameter.py, namespace.py")], ["Parameter", "Namespace"])

prop("P22", "Symbolic operators compile to the right residual and derivative",
 """For every system of one to three differential or integral equations written as strings in the documented syntax (functions, derivatives, parameters, named constant functions, the space variable, elementary functions, integrals int(expr, x) of expressions of the functions and the space variable), on Chebyshev or
 periodic domains, the compiled operator evaluates to the written expressions at every state and for every setting of the parameters; its differential orders are those written; its linearisation applied to a direction (and the matrix of it) is the directional derivative of that residual; its derivative with respect to each parameter is the derivative of
 the residual by that parameter; with fold=True its second derivatives are those of the residual. Constraints (one expression per equation, possibly blank) count as further terms of the equations in residual, linearisation and parameter derivatives. At states of one coefficient per function the matrix is the Jacobian of the algebraic equations that remain. Elementary functions are sine, cosine, tangent, secant, exponential, hyperbolic functions, arctangent, logarithm and square root. The norm it reports for a residual is the L2 norm of it. Several states, of whatever lengths, evaluated by one compiled operator do not influence one another, nor do repeated compilations (first for solving, then for continuation), and states are not changed. Boundary conditions, as strings or callables, evaluate to what is written and enter the matrix as their derivatives.""",
 ["programs", "inputs"], "all equation programs from the grammar (single equations and systems, nonlinear terms, derivative orders, integrals, parameters), all states, directions and parameter values",
 "Tests compile a couple of fixed operators; differentiation and code generation must be right for every expression.",
 ["funpy/colloc/chebOp.py", "funpy/colloc/source", "funpy/colloc/LinSys.py", "funpy/colloc/ultraS", "funpy/colloc/trigspec", "funpy/colloc/chebOpConstraint.py"],
 [("sympy -> source code generation", "funpy/colloc/source")], ["ChebOp", "residual", "linearize"])

prop("P23", "Boundary-value solves satisfy the equation and conditions",
 """Solving a uniquely solvable boundary- or initial-value problem of order one to four, or a periodic problem of order two, given as strings (variable coefficients, integral terms, one or two coupled functions of equal order, cubic terms with a starting point near the solution), with any of the solver methods giant, nleq, qnerr, lu and qr, at a fixed size that
 resolves the problem or adaptively, from no, a random or a near starting point, gives the exact solution over the whole interval, of the right domain and type, whenever it reports success; giant, and every method when adaptive, do report success on these problems; a fixed-size solve of a linear problem gives the exact solution in any case. The same holds when part of the equations is given as constraints, and for constant solutions of algebraic equations. A small residual is reported with success. Starting points handed in as functions are not changed by fixed-size solves.""",
 ["inputs", "configurations"], "all manufactured linear/nonlinear problems (order, coefficients, boundary conditions, interval, discretisation size, method, starting point)",
 "The existing solver tests do not run against the pinned dependencies and use fixed problems.",
 ["funpy/colloc/chebOp.py", "funpy/colloc/ultraS/ultraS.py", "funpy/colloc/trigspec", "funpy/colloc/LinSys.py", "funpy/colloc/adapt.py", "funpy/newton", "funpy/linalg"],
 [("ultraspherical discretisation + boundary bordering + Newton", "funpy/colloc, funpy/newton")], ["ChebOp.solve"])

prop("P24", "Dense and bordered linear solvers solve their systems",
 """For every well-conditioned real system of admissible shape (ExactLinearSolver and QRCholesky: also complex): QR.solve / solve_adj, ExactLinearSolver (lu for dense, sparse and matrix-giving operators, qr for dense; projection and conversion applied) and DenseLUSolver return the solution of the system (or its transpose) to rounding accuracy. For a matrix with a one-dimensional null space QR flags it singular (at a tolerance fitting its size), null() gives its right and left null vectors, particular / particular_adj solve every right-hand side in the range and raise RuntimeWarning for one outside it.
BEM solves the system bordered by one row and column (solve, solve_adj, solve_null, solve_null_adj, solve_zero, min_norm, det) whether its block is regular, nearly singular or singular, also after update_row / update_col, and nullspace / nullspace_adj give the null vectors of the upper rows / left columns for a regular block; BEMW does so for one to four nested borders of a regular block; BMatrix and the LU-based functions of brd_solve.py solve the bordered system and its null problem for regular and singular blocks; FoldSolver.solve solves the fold system of a singular block. QRCholesky.solve is the pseudo-inverse applied to the right-hand side for square, rank-deficient (any deficiency, any scaling) and wide full-rank matrices, and tangent_vector is a unit vector annihilated by the matrix.
gbit stays within its iteration limit, reports success only when the relative error is within its tolerance (times the condition of the preconditioned matrix), and does succeed when the preconditioned matrix is close to the identity. None of them modifies the matrices, borders and right-hand sides handed in.""",
 ["inputs", "histories"], "all well-conditioned systems (size, matrix structure, border width, singular or nearly singular block, update sequences, scaling)",
 "No tests exist; correctness over all borders, pivots and ranks needs generated systems compared with a dense reference.",
 ["funpy/linalg/bem_solve.py", "funpy/linalg/bemw_solve.py", "funpy/linalg/brd_solve.py", "funpy/linalg/qr_solve.py", "funpy/linalg/qr_chol.py", "funpy/linalg/gbit.py", "funpy/linalg/exact_linear_solver.py", "funpy/linalg/lu_solve.py", "funpy/linalg/fold_solve.py"],
 [("BEM/BEMW/QR/gbit", "funpy/linalg")], ["solve"])

prop("P25", "Factorisations, null vectors and determinants are exact",
 """lucp gives, for every real, integer or complex matrix, permutations and a unit lower triangular (entries at most one in size) and an upper triangular factor whose product is the permuted matrix, dense or sparse as asked; right_null_vector, left_null_vector and null_vector give (unit, unless normalize=False) vectors annihilated by the matrix or its adjoint when the null space is one-dimensional; none of them changes its matrix.
The determinants and signs from QR and QRCholesky (square matrices; and matrices with one column more than rows, without the last pivot column, or with detH without the last column), logdet of sparse matrices (sign and logarithm, whatever the ordering), Determinant, slogdet_hessenberg and detH of Hessenberg matrices equal the determinant. givensAlgorithm returns a rotation with c f + s g = r and c g - s f = 0 at all magnitudes; minimumSwaps counts entries minus cycles; the QR factorisation with reflection count (full, economic, r; with and without pivoting) reproduces the matrix with an orthogonal factor whose determinant is minus one to the count.""",
 ["inputs"], "all matrices (shape, rank deficiency, scaling, permutation structure, real, integer and complex entries)", "No tests exist; pivot order and sign bookkeeping depend on the input.",
 ["funpy/linalg/lucp.py", "funpy/linalg/nullspace.py", "funpy/linalg/helpers.py", "funpy/linalg/qr.py", "funpy/linalg/qr_solve.py", "funpy/linalg/qr_chol.py"],
 [("lucp/nullspace/helpers", "funpy/linalg")], ["lucp", "null_vector", "logdet", "givens"])

prop("P26", "Newton solvers report success only at solutions",
 """The error-oriented damped Newton method (nleq_err), its quasi-Newton variant (qnerr), the plain Newton method (newton_standard) and the inexact one (giant_gbit), given a smooth system with its derivative, a linear solver and a starting point, report success only at points where the true Newton correction is near the requested tolerance, do succeed from starting points
 for which the Newton-Kantorovich theorem guarantees convergence, never modify the starting point, always return the documented values with finite counts that agree with the calls made, stop within the iteration limit, and report failure when there is no root, the linear solver fails or the callback says stop.""",
 ["inputs", "configurations"], "all smooth systems (dimension, nonlinearity, prescribed, double or no root), starting points, solver options, tolerances, iteration limits, failures of the linear solver",
 "Only exercised indirectly; the damping and acceptance logic depends on the whole iteration history.",
 ["funpy/newton/nleq_err.py", "funpy/newton/qnerr.py", "funpy/newton/newton_standard.py", "funpy/newton/giant.py"],
 [("affine-invariant Newton", "funpy/newton")], ["nleq_err", "qnerr", "newton_standard", "giant_gbit"])

prop("P27", "Deflation removes known solutions consistently",
 """The deflation factor of a state is the product over the known solutions of shift + 1 / (first-order Sobolev distance)^power, whatever their order and lengths, and one without known solutions; its linearisation returns that factor and a linear functional which, applied to a function or to its coefficient vector, is the directional derivative of the factor; arguments are not changed.
 The deflated derivative operator and its preconditioner multiply by, give the matrix of, and apply the inverse of factor times the derivative plus the rank-one term. The Newton system built from a symbolic operator, boundary conditions and known solutions has the deflation factor times the original residual as its right-hand side and the derivative of that as its matrix, on Chebyshev and periodic domains.
 The Newton seeker (methods giant and nleq) reports success only with a solution of the problem that differs from all the known ones, finds the solution from starting points very near a regular root when none is known, adds exactly the solutions found to the known ones (only when told to learn), and does not change its starting point.""",
 ["inputs", "histories"], "all sets of known solutions, states, directions, exponents and shifts, matrices with rank-one updates, deflated systems", "No tests exist.",
 ["funpy/newton/deflation.py", "funpy/newton/NewtonSystem.py", "funpy/newton/FrechetDeflated.py", "funpy/support/Functional.py"],
 [("deflation factor and derivative", "funpy/newton/deflation.py")], ["deflated residual", "deflated derivative"])

prop("P28", "Eigenvalues of linearised operators are those of the boundary-value problem",
 """For every second-order elliptic operator of one or two equations given as strings (variable leading coefficient, advection, reaction, coupling, integral terms, nonlinear terms linearised at a state, parameters), with separated Dirichlet, Neumann or Robin conditions or periodic, eigs returns, with those of negative (or positive) real part first as asked for, the eigenvalues of the linearisation subject to the conditions: every resolved eigenvalue appears with its multiplicity and no other value appears near the origin. For constant coefficients this holds for orders one to four (periodic: the whole spectrum). The state is not changed.""",
 ["inputs"], "all elliptic operators, conditions, states, intervals and discretisation sizes that resolve the lowest modes",
 "No tests exist; spurious or lost modes and the treatment of conditions depend on the operator.",
 ["funpy/colloc/eig.py", "funpy/colloc/OpDiscretization.py", "funpy/colloc/ultraS", "funpy/colloc/trigspec"],
 [("eigs", "funpy/colloc/eig.py")], ["eigs"])

prop("P29", "Operators keep their meaning when they are combined, copied and stored",
 """Derivatives (linearisations at states) of symbolic operators form a vector space: sums, differences, negatives and multiples (by numbers, from either side) of them, including those with integral terms, on Chebyshev or periodic domains, act on every function like the same combination of their actions, announce all their terms, and leave their operands unchanged; so do those of residuals; differently shaped or non-numeric combinations and in-place sums are refused.
 A deep copy of an operator, and the operator read back from the HDF5 file it was written to, has the same equations, constraints, conditions (strings), names, parameter values, constant functions, continuation parameters, discretisation, sizes, tolerances and interval, hence the same residual, matrix and condition rows at every state and parameter setting, whether or not the original had been compiled; copying and writing leave the original unchanged, and neither using nor changing a copy affects the original.""",
 ["programs", "inputs", "histories"], "all operators from the equation grammar, all expressions in sums, signs and multiples, all constructor options, use before and after copying",
 "No tests exist; sums depend on which terms each operand has, and a copy must not lose or share any field.",
 ["funpy/colloc/quasiOp.py", "funpy/colloc/quasiOpBlock.py", "funpy/colloc/rhs.py", "funpy/colloc/chebOp.py"],
 [("QuasiOp algebra", "funpy/colloc/quasiOp.py, quasiOpBlock.py"), ("copy and I/O", "funpy/colloc/chebOp.py __deepcopy__, writeHDF5, readHDF5")], ["QuasiOp", "ChebOp deepcopy", "ChebOp HDF5"])

prop("P30", "Compositions, parts and special functions denote what they say",
 """compose(f, op) and compose(f, op, g) give, on every interval, for Chebyshev and periodic functions with one or several columns, the function whose values are op of the values (of the requested type), without changing f and g. The real and imaginary parts and the conjugate of a function are those of its values. zeros, ones, zeros_like and ones_like are constant functions of the requested columns, type and interval; random has coefficients spread over [-scale, scale] and random_decay over [-scale, scale] / (k + 1)^2.
 The printed form of a function (up to the size numpy prints in full) evaluates to that function; the data of coefficient plots are the moduli of the coefficients against degrees or wave numbers. Reflection(f)(x, n) is f tiled n times on [0, 1], every other tile mirrored, the first one mirrored if n > 1.""",
 ["inputs"], "all functions, outer functions, intervals, sizes, columns and numbers of tiles", "Tests do not touch most of these functions or use [-1, 1] and one column.",
 ["funpy/fun.py", "funpy/cheb/chebtech.py", "funpy/trig/trigtech.py", "funpy/support/reflection.py"],
 [("compose, real, imag, conj, random, repr", "funpy/fun.py"), ("Reflection", "funpy/support/reflection.py")], ["compose", "np.real/imag/conj", "random", "repr", "Reflection"])

prop("P31", "Continuation corrections and tangents solve the bordered function-space system",
 """Given a regular matrix F_u acting on the coefficients of one or several Chebyshev functions (possibly right-preconditioned, possibly followed by a basis recombination E), a parameter derivative F_a and an old tangent, LinearSolverNGSchur.tangent_vector() is the unit vector (in the L2 inner product of the functions plus the product of the parameters) in the null space of [F_u F_a], on the side of the old tangent, whatever the old tangent's length.
 Every correction solve(f) solves [F_u F_a] (du, da) = f and is orthogonal to that tangent; bif_pt and bif_dir give the bordering value and the direction of the doubly bordered system. Neither right-hand sides nor the old tangent nor the matrices are changed.""",
 ["inputs", "histories"], "all regular matrices, columns, tangents, preconditioners, recombinations, numbers of functions and sequences of right-hand sides", "No test exercises the Schur solver; signs, stacking order and the inner product show only on generic data.",
 ["funpy/linalg/schur_solve.py", "funpy/norms.py", "funpy/vectorspaces/continuationState.py"],
 [("Schur complement solver", "funpy/linalg/schur_solve.py")], ["LinearSolverNGSchur"])

prop("P32", "Printed expressions evaluate to the expression",
 """The code printed for a symbolic expression (sums, products, powers, quotients, elementary functions, conditions, maxima, absolute values, steps, constants, parameters, the space variable, functions, derivatives, integrals) evaluates to the value of that expression: npcode and spcode for numbers and arrays; odecode for functions that are constant on the unit interval, so derivatives vanish and integrals are their integrands; cpcode on function objects, giving the function (or number, for a plain integral) denoted, where an integral up to x is the antiderivative that vanishes at the left end. Printing with or without fully qualified modules gives the same values, is repeatable, and leaves the expression unchanged.""",
 ["programs", "inputs"], "all expressions of the grammar at all arguments", "No tests of the printers exist; precedence and parentheses matter only for nested expressions.",
 ["funpy/cbcode.py", "funpy/odecode.py"], [("code printers", "funpy/cbcode.py, odecode.py")], ["npcode", "spcode", "cpcode", "odecode"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
