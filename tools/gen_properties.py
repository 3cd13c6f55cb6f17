#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=list(state),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
POLY="src/algebra/polynomial.rs"; CPX="src/algebra/complex.rs"; RING="src/algebra/ring.rs"
SV="src/linalg/svector.rs"; SM="src/linalg/smatrix.rs"; DV="src/linalg/dvector.rs"; DM="src/linalg/dmatrix.rs"
DE="src/optimize/differential_evolution.rs"; FN="src/functions/"

p("C01","Polynomial sum, difference, negation and product are coefficient-exact",
 "For any two polynomials over any coefficient ring (commutative or not, any lengths, including empty lists and lists with zero coefficients anywhere), each coefficient of their sum, difference, negation and product is exactly the sum, difference, negation or convolution of the operands' coefficients, with coefficients of the left factor multiplied from the left. Every operator form (by value, by reference, compound assignment) produces the same polynomial. A difference never fails in any form while all its coefficients are representable.",
 ["inputs"],"all pairs of coefficient lists of all lengths over all rings, in all operator forms",
 "One pair of length-3 integer polynomials per operator; equal lengths almost everywhere; only commutative i32 coefficients, no zeros inside, no long operands.",
 [POLY],[("separate loops per operator form; shorter/longer operand cases","Add, AddAssign, Sub, SubAssign, Mul, MulAssign, Neg impls of Polynomial")],["equality with a polynomial built from the model's coefficients","evaluation at a free symbol"])
p("C02","Polynomial evaluation equals the power sum and respects + - *",
 "Evaluating a polynomial at any x yields the sum of coefficient_i times x^i (coefficient on the left), the empty polynomial evaluates to zero, and evaluation by value and by reference agree. Over a commutative ring evaluation turns sums, differences, negations and products of polynomials into those of the values. Evaluation does not change the polynomial or the argument.",
 ["inputs"],"all coefficient lists and all finite evaluation points, over all rings",
 "Tests evaluate one quadratic at 2 and the constants 0 and 1 at 5; nothing checks longer lists, other rings, or compatibility with the arithmetic.",
 [POLY],[("Horner scheme from the highest coefficient","Polynomial::eval_ref, Polynomial::eval")],["value returned by eval/eval_ref"])
p("C03","Every type the library declares a ring obeys the ring laws under ==",
 "Complex numbers, polynomials and square statically sized matrices over any exact ring, and any nesting of these, satisfy the ring axioms as judged by their own ==: addition is an abelian group with the library's zero and negation, multiplication is associative with the library's one as two-sided unit, and distributes over addition from both sides. Subtracting equals adding the negation. In particular x - x == zero and x * zero == zero for every x, and equality is reflexive, symmetric, transitive and separates values that are mathematically different.",
 ["inputs","programs"],"all triples of elements of every ring type constructible by nesting",
 "Tests check single concrete sums and products; no algebraic law, no nesting, and no comparison between results of different provenance is ever tested.",
 [RING,CPX,POLY,SM,"src/algebra/ops_with_ref.rs"],[("Ring trait contract ('expects a mathematically correct implementation')",RING),("equality of polynomials",POLY),("blanket Zero/One from i8, MulRefs/DivRefs from reference operators",RING+" / src/algebra/ops_with_ref.rs")],["== between results of ring expressions"])
p("C04","Complex ring arithmetic matches its definition in every operator form",
 "For complex numbers over any ring (commutative or not), addition, subtraction, negation, multiplication, conjugation, squared norm and scaling by a scalar on the right return exactly the components given by the textbook definitions with i*i = -1 and i commuting with the scalars. By-value, by-reference and compound-assignment forms agree, also when both operands are the same object. Over floating point each component of a product of finite, moderate operands is within a few units in the last place of the sum of magnitudes of its two terms.",
 ["inputs"],"all pairs of complex operands over all rings and operator forms",
 "Each operator is tested with (1,2) and (3,4) only; the scalar product forms are barely touched.",
 [CPX,"src/algebra/conj.rs"],[("component formulas","operator impls of Complex"),("conjugation","Conj impls")],["re and im of the result"])
p("C05","Complex division inverts multiplication",
 "Over an exact field without a root of -1, (a / b) * b == a and (a * b) / b == a for every a and every b != 0, in every operator form, and dividing by a scalar divides each component by it. Over floating point the quotient of finite operands whose product magnitudes and squared magnitudes stay in the normal range differs from the exact quotient by at most a few units in the last place of its modulus; outside that range the exact quotient is still expected wherever it is representable.",
 ["inputs"],"all dividends and all non-zero divisors, floating point and exact fields",
 "Two quotients with tiny exactly representable operands are tested.",
 [CPX,"src/algebra/field.rs","src/algebra/ops_with_ref.rs"],[("conjugate times reciprocal of squared norm","Div<Self> for &Complex"),("component-wise scalar division","Div<T>, Div<&T> impls")],["re and im of the quotient"])
p("C06","Complex exp, sin, cos, sinh, cosh and tan are accurate",
 "For every finite complex argument (f32 and f64) whose exact result and real factors are representable, exp, sin, cos, sinh, cosh and tan return the value of the complex function up to a few units in the last place (each component of exp, sin, cos, sinh and cosh relative to itself, tan relative to its modulus), in all four quadrants, on both axes, and near zeros of the real factors. They agree with the real functions on the real axis.",
 ["inputs"],"all finite arguments with representable results",
 "One or two fixed points per function, or 100 random points in a small box for tan in f32 only; signs, axes, tiny and large arguments are not covered.",
 [CPX]+[FN+f for f in("exp.rs","sin.rs","cos.rs","sinh.rs","cosh.rs","tan.rs")],[("addition-theorem formulas","Exp, Sin, Cos, Sinh, Cosh, Tan impls of Complex")],["re and im of the result"])
p("C07","Complex square root is the principal root, accurate everywhere",
 "For every finite complex z (f32, f64) whose squared modulus is in the normal range, and for zero, the square root s has non-negative real part, imaginary part with the sign of z's (non-negative for a negative real z with positive zero imaginary part), and differs from the exact principal root by at most a few units in the last place of |s| - also in each component where cancellation would occur close to the real axis. Hence s*s reproduces z to rounding.",
 ["inputs"],"all finite arguments in all quadrants, on and near the axes, at all magnitudes",
 "100 random f32 points of magnitude about 5, tested only normwise; points near the axes where the stable branch matters have negligible probability; the sign of the imaginary part is never checked separately.",
 [CPX,FN+"sqrt.rs"],[("two branches for numerical stability, sign taken from im","Sqrt for Complex")],["re and im of the result"])
p("C08","Complex modulus, argument and logarithm are consistent and accurate",
 "For every non-zero finite complex z with squared modulus in the normal range, the modulus equals |z| to a few ulp, the argument is the quadrant-correct angle in [-pi, pi], and the logarithm has real part ln|z| (up to a few machine epsilons of max(1, |ln|z||)) and imaginary part equal to the argument, so exp(ln z) = z to rounding. By-value and by-reference modulus agree.",
 ["inputs"],"all non-zero finite arguments in all quadrants and on the axes",
 "Modulus is tested on 3-4-5 and (1,-1); argument at one point; the logarithm test's imaginary tolerance (8*PI) accepts anything.",
 [CPX,FN+"abs.rs",FN+"atan2.rs",FN+"log.rs"],[("sqr_norm then sqrt/ln; atan2(im, re)","Abs, arg, Ln of Complex")],["returned values"])
p("C09","Real elementary functions and scalar helpers are faithful on all inputs",
 "For f32 and f64 the traits for abs, asin, atan2, cos, cosh, exp, ln, sin, sinh, sqrt and tan return the mathematical function of their argument(s) to a few ulp, for every input including signed zeros, subnormals, huge values, infinities and NaN (NaN out for arguments outside the domain). Conjugation is the identity on all real scalar types, zero and one are the neutral elements of every scalar type, and the by-reference product and quotient helpers equal * and /.",
 ["inputs"],"all bit patterns of the arguments, all scalar types",
 "Many of the existing assertions compare without absolute value (so any too-small result passes) and sample a handful of points.",
 [FN+f for f in("abs.rs","asin.rs","atan2.rs","cos.rs","cosh.rs","exp.rs","log.rs","sin.rs","sinh.rs","sqrt.rs","tan.rs")]+["src/algebra/conj.rs",RING,"src/algebra/ops_with_ref.rs"],[("one trait impl per function and float type",FN)],["returned values"])
p("C10","Statically sized vectors compute component-wise, in every form and size",
 "For vectors of any compile-time dimension (including 0) over any element type, sum, difference, scaling by a scalar on the right and the zero vector are component-wise, and the dot product is the sum over i of left_i * right_i without conjugation. By-value, by-reference and assigning forms agree. Iteration by value, reference and mutable reference visits every component once in index order, and reading or writing component i touches exactly that component.",
 ["inputs","programs"],"all dimensions, element types, component values, operator forms",
 "Doc examples of dimension 2 and 3 with small ints, one value each.",
 [SV],[("zip loops over both component arrays; delegation chains between forms","operator impls of SVector"),("IntoIterator x3, Index, IndexMut","SVector")],["resulting components; iteration order"])
p("C11","Statically sized matrices compute by definition for every shape and form",
 "For all compile-time shapes (rectangular and degenerate ones included) over any ring, matrix sum, difference, negation, conjugation, the zero and identity (ones on the main diagonal) matrices are entry-wise as defined, the product has entry (l,n) equal to the sum over m of left(l,m)*right(m,n), and matrix times vector has component i equal to the sum over j of m(i,j)*v(j). By-value, by-reference and in-place forms agree; in-place product multiplies from the right.",
 ["inputs","programs"],"all shapes, element types, entry values, operator forms",
 "Doc examples with one 2x3 / 3x2 / 2x2 integer matrix each.",
 [SM],[("closure counters driving array map","One, Mul impls of SMatrix"),("delegation between forms","Add/Sub/Mul(Assign) impls")],["equality with a matrix built by the model; product with unit vectors"])
p("C12","Vector expressions denote the entry-wise result for every composition",
 "Any composition of the lazy vector operations (from function, wrap, map, zip, +, -, element-wise * and /, conjugation, matrix diagonal, zeros/ones/same, arrays slices and owned vectors as leaves) has the length and, at every index, the entry of the corresponding entry-wise operation on fully computed operands, left operand on the left. Evaluating the whole expression and reading entries one by one give the same values, and re-wrapping or re-evaluating changes nothing. This holds for every length including 0 and for operands used by value or by reference.",
 ["programs","inputs"],"all expression trees over all lengths and element types",
 "Each operation is tested once, alone, on a fixed 3-6 element integer vector; no composition, no length 0, no non-commuting entries.",
 [DV,DM],[("expression structs and closures per operation; specialised eval of leaves","VectorExpr impls, VectorExprWrapper methods, DVector methods")],["entry, len, is_empty, eval of the expression"])
p("C13","Matrix expressions denote the entry-wise result for every composition",
 "Any composition of the lazy matrix operations (from function, wrap, map, zip, +, -, element-wise * and /, transpose, Hermitian transpose, diagonal, diagonal matrix of a vector, identity/zeros/ones/same, nested arrays and owned matrices as leaves) has the shape and, at every position, the entry defined mathematically on fully computed operands. Evaluating the whole expression and reading entries one by one agree, and owned matrices of every shape, including those with zero rows or columns, keep their shape through every operation.",
 ["programs","inputs"],"all expression trees over all shapes and element types",
 "Each operation is tested once, alone, on a fixed 2x3 integer matrix; no composition, no degenerate shape, no tall matrix.",
 [DM,DV],[("expression structs and closures; row-major storage and index arithmetic","MatrixExpr impls, MatrixExprWrapper methods, DMatrix methods")],["entry, num_rows, num_cols, eval of the expression"])
p("C14","The product of dynamically sized matrices is the matrix product",
 "For all matrices A (m x k) and B (k x n) over any ring, commutative or not, the product has shape m x n and entry (i,j) equal to the sum over l of A(i,l)*B(l,j), whether entries are read lazily or evaluated, and leaves A and B unchanged. Consequently products associate, the identity is neutral on both sides, and (Hermitian) transposition reverses products. For k = 0 the product is the zero matrix.",
 ["inputs"],"all shapes (including degenerate) and entry values over all rings",
 "One 2x3 times 3x2 integer product.",
 [DM],[("lazy product expression summing from index 0, then 1..k","MulDMatrix")],["entry/eval of the product"])
p("C15","The inner product of dynamically sized vectors is sesquilinear",
 "For all equally long vectors u, v (length 0 included) the product u*v, by value and by reference, equals the sum over i of conj(u_i)*v_i with the conjugate on the left factor; it is linear in v, conjugate-linear in u, conjugate-symmetric over commutative rings, and u*u has zero imaginary part and equals the sum of squared norms.",
 ["inputs"],"all vector pairs of all lengths over real, complex and other element types",
 "One pair of integer 3-vectors, where conjugation is invisible.",
 [DV],[("zip, conj of left, fold from zero","Mul for (&)DVector")],["returned scalar"])
p("C16","Expressions are lazy and evaluate each element exactly once",
 "Building any vector or matrix expression evaluates no element, however large its nominal size, and reading one entry calls each user function and computes each operand element only for the elements that this entry is defined from. Evaluating an expression calls each user-supplied element function exactly once per entry of the result that depends on it (for a diagonal, only on the diagonal).",
 ["programs","histories"],"all expression trees and all sequences of build, entry and eval calls, as observed by counting element functions",
 "No existing test observes whether or how often an element function is invoked.",
 [DV,DM],[("closures stored in expression structs; eval loops","make_vector_expr, make_matrix_expr, eval, map, zip, t, h, diag")],["call log of instrumented element functions"])
p("C17","Operations on mismatched shapes are rejected, never silently wrong",
 "Adding, subtracting (also in place), zipping, element-wise multiplying or dividing, and dot-multiplying dynamically sized vectors or matrices of different length or shape, and matrix-multiplying with different inner dimensions, always panics and never yields a value; an in-place operation that is rejected leaves its target unchanged. The same operations on matching shapes never panic (for products with an empty inner dimension see C14), and for statically sized vectors and matrices the types admit exactly the matching shapes.",
 ["inputs","configurations"],"all pairs of shapes (including zero-sized and same-element-count ones), all binary operations and operand kinds",
 "No existing test passes mismatched operands to anything.",
 [DV,DM],[("assert_eq! on lengths/shapes at construction of the expression","zip, Add, Sub, AddAssign, SubAssign, Mul impls")],["panic or value; target after the panic"])
p("C18","Element access addresses exactly the named element or panics",
 "Reading or writing position (row, column) of an owned matrix, or index i of a dynamic or static vector, accesses exactly that element: a write is visible at that position and nowhere else. An index outside the bounds in any single coordinate panics for both reading and writing, and never aliases another element.",
 ["inputs","histories"],"all shapes, all indices (in and out of range, up to the maximum integer), all sequences of reads and writes",
 "Tests index a 2x2 matrix and a 5-vector in range only.",
 [DM,DV,SV],[("row-major index arithmetic","Index, IndexMut, entry of DMatrix"),("slice indexing","Index, IndexMut, entry of DVector; SVector")],["element read back; panic"])
p("C19","In-place updates equal the out-of-place operation, element by element",
 "For dynamically sized vectors and matrices, any sequence of += and -= with arbitrary expressions of matching shape (including expressions derived from a copy of the target) leaves the target equal to the result of the corresponding + and - operations: every element is updated exactly once with the matching element of the right-hand side, the shape never changes and no other element is touched.",
 ["histories","inputs"],"all update sequences, shapes and right-hand-side expressions",
 "One += on integers for vectors (the -= vector test actually exercises +=), one of each for 2x2 matrices.",
 [DV,DM],[("index loops writing into storage","AddAssign, SubAssign of DVector and DMatrix")],["content of the target after each update"])
p("C20","The optimiser's result is never beaten by any candidate it examined",
 "For every objective that orders candidates consistently (including with ties), every population size >= 4, dimension >= 1, iteration count (including 0 and less than the population size), box and random stream, the point returned by differential evolution is one of the candidates examined and no candidate ever presented for comparison is better than it. With any comparator, even an inconsistent one, the optimiser terminates and returns a candidate it examined.",
 ["inputs","histories"],"all objectives, population sizes, iteration counts, boxes, random streams",
 "The (unstable, excluded) test checks only closeness to the optimum for population 20; a lost best candidate in the final selection or for odd sizes is invisible.",
 [DE],[("replace only if better","greedy loop"),("pairwise knockout incl. odd sizes","knockout stage")],["log of all comparator calls plus the returned point"],
 [dict(name="population",meaning="current members",where=DE)])
p("C21","Every optimiser step is a legal differential-evolution trial",
 "Exactly the requested number of trials is generated; trial t challenges member t modulo the population size, which it replaces if and only if the comparator prefers it. Each coordinate of a trial is either the challenged member's or a + (b - c) * weight built from the current values of three members a, b, c that are mutually distinct, distinct from the challenged one and the same for all coordinates; at least one coordinate is mutated. Coordinates are mutated independently with the crossover probability (exactly one at probability 0, all at 1), with all members and all coordinates equally likely.",
 ["histories","inputs"],"all traces over population sizes, dimensions, weights, probabilities, random streams and comparators",
 "No test looks at a trial; only the end result for one objective is (unreliably) tested.",
 [DE],[("rejection sampling of distinct indices, forced coordinate r, per-coordinate crossover draw","evolution loop")],["log of comparator calls with provenance-carrying coordinates"])
p("C22","Initial candidates fill the box and parameters are validated",
 "Every initial member's coordinate i lies in the half-open interval [low_i, high_i) given for that coordinate, members are drawn independently and spread over the whole box, and the population has exactly the requested size. Population sizes below 4, crossover probabilities outside [0,1] (or NaN) and differential weights outside [0,2] (or NaN) are rejected by a panic before any comparison, while all values inside, boundaries included, are accepted.",
 ["inputs","configurations"],"all boxes, population sizes, parameter values",
 "Only one symmetric box and one parameter setting is used; no rejected or boundary parameter is tested.",
 [DE],[("asserts on the parameters; gen_range per coordinate","start of optimize")],["first-time members in the comparator log; sampled ranges; panic"])
p("C23","Optimisation is reproducible and driven only by the supplied generator",
 "Running differential evolution twice with the same arguments, an identically seeded generator and the same comparator yields the identical sequence of comparisons, the identical result and leaves the generators in the same state, regardless of what was computed before or concurrently. Different seeds give different runs. The boxes passed in are not modified, and the number of words drawn from the generator per trial stays bounded on average.",
 ["inputs","histories","schedules"],"all argument combinations, prior histories and concurrent runs",
 "The only tests use an unseeded thread generator, so nothing about reproducibility can be observed.",
 [DE],[("all randomness from the rng argument","optimize")],["comparator log, result, generator state after the run"])
p("C24","The Ackley test function has the documented values",
 "For all finite f32 coordinates of moderate size the Ackley function equals -20*exp(-0.2*sqrt((x^2+y^2)/2)) - exp((cos 2 pi x + cos 2 pi y)/2) + e + 20 to single-precision accuracy; it is symmetric under exchanging and negating coordinates, is (up to rounding) zero at the origin and positive elsewhere.",
 ["inputs"],"all points of the test domain and beyond",
 "It is only used as an objective; its values are never checked.",
 ["src/optimize/test_functions.rs"],[("closed formula","ackley")],["returned value"])
p("C25","Memory safety and no lost or duplicated elements, even when operations panic",
 "Whatever sequence of library operations is run on heap-owning element types, and wherever a user-supplied element operation, clone, conversion or closure panics, no element is dropped twice, leaked or read after being freed, and no undefined behaviour occurs. After all values are dropped, every element ever created has been dropped exactly once, and a target whose in-place update was interrupted by a panic remains a valid value of the same shape.",
 ["histories","fault_sequences"],"all operation sequences on owning element types and all panic points inside them",
 "No test uses an element type with drop glue, and none injects a panic.",
 [POLY,CPX,SV,SM,DV,DM,DE],[("safe Rust collections, arrays built with map, boxed slices","all containers")],["drop ledger, AddressSanitizer and Miri reports"])
p("C26","Operations are pure: results depend only on operands, across threads and time",
 "Every operation returns the same result for equal operands no matter which operations ran or were cut short by a panic before, how often it is repeated, which other operations are performed from inside its own element operations, closures, comparator or generator, and which other threads operate concurrently on the same shared operands; shared operands are never modified by reading operations and no data race occurs. Owned vectors, matrices, polynomials, complex numbers and expressions over shareable element types can be shared between threads.",
 ["schedules","histories"],"all histories and interleavings of operations over shared operands",
 "Tests run each operation once per process on one thread; no test shares a value.",
 [POLY,CPX,SV,SM,DV,DM,DE,FN+"mod.rs"],[("no interior mutability or global state","whole crate")],["results compared with a first sequential run; ThreadSanitizer reports"])
p("C27","Differential evolution converges on smooth unimodal objectives",
 "With a population of 20 or more, customary control parameters (weight 0.5-0.9, crossover 0.5-1) and a generous trial budget, minimising a smooth unimodal objective whose optimum lies inside the box, in 1 to 4 dimensions and in f32 or f64, returns a point close to the optimum for practically every seed; the Ackley function in two dimensions is minimised likewise. A larger budget continuing the same random stream never yields a worse result.",
 ["inputs"],"all seeds, optimum positions, scales and dimensions in the stated range (decided on the seeds run, with generous margins)",
 "One objective with the optimum at the centre of a symmetric box, one parameter setting; and that test is excluded as unreliable.",
 [DE],[("mutation, crossover, greedy selection","optimize")],["returned point"])
p("C28","Equality, cloning and conversion of containers are faithful",
 "Two dynamic or static vectors or matrices, or complex numbers, are equal exactly when they have the same shape and all corresponding entries compare equal (the same entries in another shape are unequal, also for empty shapes; an entry unequal to itself makes its container unequal to itself), != is the negation, and comparing never panics; polynomials compare likewise up to trailing zero coefficients. A clone has the same shape and entries and is independent of the original. Conversions from arrays, nested arrays and slices keep every entry in its place.",
 ["inputs"],"all pairs of values of all shapes and element types, including elements with a partial equality",
 "Equality is only used as a means in tests, always on equal shapes; unequal shapes, NaN entries and independence of clones are never tested.",
 [DV,DM,SV,SM,CPX,POLY],[("derived equality and clone","DVector, DMatrix, SVector, SMatrix, Complex"),("equality up to trailing zeros","PartialEq for Polynomial"),("From arrays, eval of slices and arrays","SVector, SMatrix, VectorExpr for &[T], MatrixExpr for arrays")],["value of == and !=, entries of clones and converted values"])
p("C29","Machine-integer results are exact or the overflow is reported",
 "Over i8 to i128, every polynomial, complex, vector and matrix operation returns the exact result whenever all entries fit together with the sums of magnitudes they are formed from (for entry-wise operations: whenever the entry is representable). Otherwise it panics in builds with overflow checks and is exact modulo 2^bits in builds without them; it never silently returns anything else. Element-wise division is exact or panics.",
 ["inputs","configurations"],"all integer operands, in particular near the limits of the type, with overflow checks on and off",
 "Tests use single-digit integers far from any limit and only the checked build.",
 [POLY,CPX,SV,SM,DV,DM],[("plain integer operators of the element type in every operation","operator impls")],["returned entries, or the panic observed"])
p("C30","Floating-point containers compute with IEEE operations and accurate sums",
 "Over f32 and f64, entry-wise operations of vectors, matrices and complex numbers (sum, difference, negation, element-wise product and quotient, scaling, transposition, diagonals, in place or not) are bit for bit the IEEE operation on the corresponding entries, signed zeros, subnormals, infinities and NaN included. Inner products, matrix products, complex products, polynomial products and values differ from the exact sum of products by at most the standard error bound (number of terms times machine epsilon times the sum of magnitudes). A NaN or infinite term makes such a sum NaN or infinite as IEEE arithmetic prescribes and is never dropped.",
 ["inputs"],"all floating-point operands, with cancellation, special values and magnitudes up to the overflow threshold",
 "Tests use small integers stored in floats, where every summation is exact and no special value occurs.",
 [DV,DM,SV,SM,CPX,POLY],[("entry-wise expressions and accumulation loops","AddExpr, SubExpr, mul_elemwise, div_elemwise, Mul impls, Polynomial::eval_ref")],["bits or error of the returned entries"])
p("C31","Operations cost what their definition costs, without hidden temporaries",
 "Every operation performs at most a constant factor (8; 2 for multiplications) more element operations than its definition, plus the entries of its operands and result: linear for sums and evaluation, n*m for polynomial products, m*k*n for matrix products, one inner product for one entry of a lazy product. Building an expression allocates nothing that grows with its size, and evaluating or adding it in place, however many operations it combines, allocates a constant multiple of the result only; the optimiser holds a constant multiple of its population, whatever the number of iterations, and per trial allocates at most a constant number of candidates. The stack used does not depend on the number of elements of heap-allocated operands.",
 ["inputs","programs"],"all operand sizes and expressions",
 "Nothing in the tests measures work, memory or stack; all operands are tiny.",
 [POLY,DV,DM,SM,SV,DE],[("expression templates evaluate entry by entry into one buffer","VectorExpr::eval, MatrixExpr::eval, AddAssign impls"),("Horner scheme, convolution, triple loop","Polynomial::eval_ref, Mul impls")],["element operations counted by the element type, bytes counted by the global allocator, threads with a small stack"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
