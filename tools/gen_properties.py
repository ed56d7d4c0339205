#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

S = "src/carl/"
prop("C01", "Interval arithmetic over exact numbers never loses a point",
     "For all intervals with exact rational endpoints (open, closed, half-bounded, unbounded, degenerate or empty) and all points taken from them, the sum, difference, product, negation, quotient, scaling by a number, integer power, reciprocal and absolute value computed on the intervals contain the corresponding result computed on the points. "
     "Sum, difference, negation and product of non-empty intervals contain nothing else as far as their finite bounds are concerned: bounds are the attained extrema, and every result is again a well-formed interval.",
     ["inputs"], "all pairs of intervals of every bound-type combination, all rational endpoints, all member points",
     "Unit tests fix a few dozen endpoint/bound-type combinations; the statement quantifies over all rational endpoints, all 9x9 bound-type combinations and all member points.",
     [S+"interval/Interval.h", S+"interval/Interval.tpp", S+"interval/operators.h", S+"interval/power.h", S+"interval/rounding.h", S+"interval/BoundType.h"],
     [("interval operators", S+"interval/operators.h"), ("division with zero-straddling divisors, reciprocal", S+"interval/Interval.tpp")],
     [("lower/upper endpoint and bound kind", "the set of rationals the interval denotes")])
prop("C02", "Interval set operations and comparisons are exact on points",
     "For all intervals with exact rational endpoints, intersection, union, difference, symmetric difference and complement return intervals whose union contains exactly the points demanded by set theory, and membership, emptiness, equality, subset, proper-subset and has-intersection tests answer exactly the corresponding question about the denoted sets. "
     "The ordering comparisons between intervals and between an interval and a number hold exactly when they hold for all pairs of points on non-empty intervals.",
     ["inputs"], "all pairs of intervals of every bound-type combination and every rational point",
     "Open/closed/infinite bound interactions at coinciding endpoints give many boundary cases, tests enumerate only some and never quantify over points.",
     [S+"interval/set_theory.h", S+"interval/Interval.h", S+"interval/Interval.tpp", S+"interval/operators.h"],
     [("lower/upper bound comparison", S+"interval/operators.h"), ("set operations", S+"interval/set_theory.h")])
prop("C03", "Interval sampling, splitting and integer queries stay inside",
     "Every sampling or centre query on a non-empty exact interval returns a point of that interval whenever it promises to, splitting an interval yields parts that together contain exactly the points of the original, and the integer-related queries (does it contain an integer, its integral part) agree with the set of integers in the interval. "
     "Magnitude-style measures (diameter, magnitude, distance) equal the values given by the points.",
     ["inputs"], "all non-empty intervals of every bound-type combination with rational endpoints",
     "Sampling code has many branches by bound kind and size; tests sample a few intervals.",
     [S+"interval/sampling.h", S+"interval/Interval.h", S+"interval/Interval.tpp"],
     [("sample family", S+"interval/sampling.h"), ("split, integralPart, containsInteger", S+"interval/Interval.tpp")])
prop("C04", "Floating-point intervals enclose the exact result",
     "For intervals over machine floating-point numbers, every arithmetic operation returns an interval containing the exact real result for all member points, for every rounding situation.",
     ["inputs"], "all finite double endpoints",
     "Tests compare against hand-computed doubles and do not reach rounding corner cases.",
     [S+"interval/rounding.h", S+"interval/Interval.tpp"], [("rounded arithmetic", S+"interval/rounding.h")])
prop("C05", "Relations and signs form the order algebra they name",
     "For every relation and all pairs of numbers, the inverse relation is the logical negation, the mirrored relation is the one with swapped sides, the relation evaluated on two numbers or on a sign equals the mathematical comparison, and strictness/weakness classification matches. "
     "The sign of a number is the sign of its value, and combining or counting signs follows the sign rules of arithmetic.",
     ["inputs"], "all relations, all signs, all rational numbers",
     "Tests check a handful of literals.",
     [S+"core/Relation.h", S+"core/Sign.h", S+"core/polynomialfunctions/SignVariations.h"],
     [("inverse/turn_around/evaluate", S+"core/Relation.h"), ("sgn, sign arithmetic", S+"core/Sign.h")])
prop("C06", "Finite-field numbers obey modular arithmetic",
     "For every modulus and all elements, addition, subtraction, multiplication, negation, inversion and equality of finite-field numbers agree with integer arithmetic modulo the field size, for representations created from any integer. "
     "Reducing an integer to the symmetric or positive residue range yields the unique congruent value in that range.",
     ["inputs"], "all prime-power moduli, all integers",
     "Existing tests use one or two small primes and a few values.",
     [S+"numbers/GFNumber.h", S+"numbers/GFNumber.tpp", S+"numbers/GaloisField.h"],
     [("field element operations", S+"numbers/GFNumber.tpp"), ("modulo reduction", S+"numbers/GaloisField.h")])
prop("C07", "Exact integer and rational operations mean what they say",
     "For all arbitrary-precision integers and rationals, floor, ceiling, rounding, absolute value, numerator/denominator, quotient, remainder, modulus, division, gcd, lcm, powers, parity, comparison with zero and one, and conversions satisfy their mathematical definitions. "
     "Square-root and root helpers either report the exact root or return bounds that enclose it.",
     ["inputs"], "all arbitrary-precision integers and rationals, all exponents",
     "Signs, zero and non-canonical corner cases are a handful in the tests.",
     [S+"numbers/adaption_gmpxx/operations.h", S+"numbers/adaption_gmpxx/operations.cpp", S+"numbers/operations_generic.h"],
     [("GMP adaption layer", S+"numbers/adaption_gmpxx/operations.h"), ("sqrt/root enclosure", S+"numbers/adaption_gmpxx/operations.cpp")])
prop("C08", "Monomial algebra is exponent arithmetic in canonical form",
     "For all monomials, multiplication adds exponents variable by variable, division succeeds exactly when every exponent suffices and then subtracts them, gcd/lcm take minima/maxima, square detection and square roots, powers, separable part, derivative and variable removal act exponent-wise, and degree queries agree with the exponents. "
     "Every monomial handed out lists its variables strictly ordered with positive exponents and the correct total degree.",
     ["inputs", "histories"], "all exponent vectors over any number of variables",
     "Merging loops over two sorted variable lists have many interleavings; tests use monomials of two or three variables.",
     [S+"core/Monomial.h", S+"core/Monomial.cpp", S+"core/polynomialfunctions/GCD_Monomial.cpp", S+"core/MonomialPool.cpp"],
     [("merge loops", S+"core/Monomial.cpp"), ("canonical creation", S+"core/MonomialPool.cpp")],
     [("exponent list", "sorted variable/exponent pairs"), ("total degree", "sum of exponents")])
prop("C09", "Monomial and term orders are total and consistent",
     "The comparison of monomials is a total order in which exactly one of less, equal and greater holds, equality means equal exponents, lower total degree is smaller in the graded order, and the graded order is preserved when both sides are multiplied by the same monomial. "
     "Comparison with variables and comparison of terms agree with this order.",
     ["inputs"], "all pairs and triples of monomials",
     "Antisymmetry, transitivity and multiplicative compatibility quantify over triples; tests compare a fixed list.",
     [S+"core/MonomialOrdering.h", S+"core/Monomial.h", S+"core/Monomial.cpp", S+"core/Term.tpp"],
     [("lexicalCompare", S+"core/Monomial.h"), ("orderings", S+"core/MonomialOrdering.h")])
prop("C10", "Multivariate polynomial arithmetic is a ring in canonical form",
     "For all multivariate polynomials with rational coefficients, every addition, subtraction, negation, multiplication, power, scaling and combined multiply-subtract, with polynomials, terms, monomials, variables and numbers as operands, yields the polynomial whose value at every point is the same operation on the operand values. "
     "Every result lists each monomial at most once with non-zero coefficient and has its leading term at the queried end, so that equality of polynomials is equality of functions.",
     ["inputs", "histories"], "all polynomials over any number of variables and terms, any operation sequence",
     "Shared accumulation buffers and lazily ordered term lists make results depend on history; tests use small fixed examples.",
     [S+"core/MultivariatePolynomial.tpp", S+"core/MultivariatePolynomial.h", S+"core/Term.tpp", S+"util/TermAdditionManager.h"],
     [("term accumulation", S+"util/TermAdditionManager.h"), ("operators", S+"core/MultivariatePolynomial.tpp")],
     [("term list", "unordered terms with leading term last")])
prop("C11", "Polynomial queries agree with polynomial evaluation",
     "Degree, coefficient, variable, constant-part, leading and trailing term, evaluation, substitution, partial derivative, and conversion between multivariate and univariate representation of any polynomial agree with the polynomial function: substituting or evaluating then equals evaluating at the substituted point, the derivative obeys the sum and product rule, and converting forth and back is the identity.",
     ["inputs"], "all polynomials, all variables, all rational substitution points",
     "Tests substitute and differentiate a handful of polynomials.",
     [S+"core/polynomialfunctions/Substitution.h", S+"core/polynomialfunctions/Evaluation.h", S+"core/polynomialfunctions/Derivative.h", S+"core/polynomialfunctions/Degree.h", S+"core/polynomialfunctions/to_univariate_polynomial.h", S+"core/Term.tpp"],
     [("substitution", S+"core/polynomialfunctions/Substitution.h"), ("derivative", S+"core/polynomialfunctions/Derivative.h")])
prop("C12", "Univariate polynomial arithmetic is a ring in canonical form",
     "For all univariate polynomials with exact coefficients in the same variable, addition, subtraction, negation, multiplication, scaling, power, reversal, derivative, truncation and evaluation yield the polynomial or number whose value at every point is the same operation on the operand values. "
     "No result has a zero leading coefficient, so degree, leading coefficient, zero test and equality reflect the polynomial function.",
     ["inputs"], "all coefficient sequences of any length",
     "Cancellation of leading coefficients and unequal lengths interact; tests use small fixed polynomials.",
     [S+"core/UnivariatePolynomial.h", S+"core/UnivariatePolynomial.tpp", S+"core/polynomialfunctions/Evaluation.h", S+"core/polynomialfunctions/Derivative.h"],
     [("coefficient loops", S+"core/UnivariatePolynomial.tpp")], [("coefficient list", "coefficient of the i-th power at position i, last entry non-zero")])
prop("C13", "Univariate division, remainder and gcd satisfy the division law",
     "For all univariate polynomials over the rationals and non-zero divisor, dividend equals quotient times divisor plus remainder with the remainder of smaller degree than the divisor, and exact division reports success exactly when the remainder is zero. "
     "Pseudo-remainders satisfy the scaled division law, and the gcd (and extended gcd) divides both inputs, is divisible by every common divisor and satisfies the cofactor identity.",
     ["inputs"], "all pairs of polynomials of any degree",
     "Division loops run degree-many times with cancellation; tests fix few pairs.",
     [S+"core/polynomialfunctions/Division.h", S+"core/polynomialfunctions/Quotient.h", S+"core/polynomialfunctions/Remainder.h", S+"core/polynomialfunctions/GCD_univariate.h"],
     [("long division", S+"core/polynomialfunctions/Division.h"), ("Euclidean algorithm", S+"core/polynomialfunctions/GCD_univariate.h")])
prop("C14", "Real-root bounds and root counts are correct",
     "For every univariate polynomial with rational coefficients, all its real roots lie within the computed root bounds, the sign-variation count is the number of sign changes in the coefficient sequence ignoring zeros, and the root count on an interval obtained from a Sturm sequence equals the number of distinct real roots in it.",
     ["inputs"], "all polynomials and intervals",
     "The statement quantifies over all polynomials; tests use a few with known roots.",
     [S+"core/polynomialfunctions/RootBounds.h", S+"core/polynomialfunctions/RootCounting.h", S+"core/polynomialfunctions/SignVariations.h", S+"core/polynomialfunctions/SturmSequence.h"],
     [("bounds", S+"core/polynomialfunctions/RootBounds.h"), ("variation count", S+"core/polynomialfunctions/SignVariations.h")])
prop("C15", "Resultants and discriminants detect common and multiple roots",
     "The resultant of two polynomials vanishes exactly when they have a common root or common factor, and the discriminant vanishes exactly when the polynomial has a multiple root, for every computation strategy offered.",
     ["inputs", "configurations"], "all pairs of polynomials, all strategies",
     "Tests compare some resultants with precomputed ones.",
     [S+"core/polynomialfunctions/Resultant.h"], [("subresultant chain", S+"core/polynomialfunctions/Resultant.h")])
prop("C16", "Bit-vector constants compute the SMT-LIB bit-vector functions",
     "For all widths and all bit-vector values of that width, addition, multiplication, negation, bitwise operations, concatenation, extraction, extension, repetition, rotation, shifts, unsigned and signed division and remainder by non-zero divisors, and unsigned order return the value that the SMT-LIB fixed-size bit-vector functions prescribe. "
     "Results always have the prescribed width and equality is equality of all bits.",
     ["inputs"], "all widths, all values, all shift/rotation amounts",
     "Shift amounts at and above the width, sign combinations and widths beyond one machine word are not covered by the tests.",
     [S+"formula/bitvector/BVValue.h", S+"formula/bitvector/BVValue.cpp"],
     [("bit-level operations", S+"formula/bitvector/BVValue.h")], [("bit sequence", "little-endian bits of fixed width")])
prop("C17", "Bit sets behave as (co-)finite sets of naturals",
     "A bit set denotes a set of natural numbers of which all members beyond the stored range share one default; setting, resetting, testing, counting, complementing, union, intersection, difference, equality, subset test, and, within the stored range, first/next search and iteration act on that set exactly, no matter how the stored range grew before.",
     ["inputs", "histories"], "all operation histories, all element values, both defaults",
     "Operands with different stored ranges and defaults give combinations not present in the tests.",
     [S+"util/Bitset.h"], [("alignment of stored ranges", S+"util/Bitset.h")], [("stored bits and default", "membership of each natural number")])
prop("C18", "Packed bit vectors behave as sets of positions",
     "A packed bit vector returns for each position exactly what was last written there (unwritten positions read as unset), its union with another vector has exactly the set positions of both, and subset and emptiness tests answer exactly for the set positions, across any word boundary.",
     ["inputs", "histories"], "all write sequences and positions",
     "Tests write a few positions near the first words.",
     [S+"util/BitVector.h", S+"util/BitVector.cpp"], [("word/bit addressing", S+"util/BitVector.h")])
prop("C19", "Issued identifiers are unique while in use",
     "Every identifier obtained from an identifier pool or generator differs from every identifier that was obtained before and has not been given back, for every interleaving of obtaining and giving back. "
     "Identifiers that were given back may be issued again, and clearing makes all identifiers available.",
     ["histories"], "all sequences of get/free/clear operations",
     "History-dependent; tests run one short sequence.",
     [S+"util/IDPool.h", S+"util/IDGenerator.h"], [("free list", S+"util/IDGenerator.h"), ("free bit set", S+"util/IDPool.h")])
prop("C20", "Variables keep identity, type and rank apart",
     "For every identifier, type and rank within the documented ranges, a variable returns exactly the identifier, type and rank it was made from, two variables are equal exactly when all of these agree, and the order on variables is a strict total order consistent with equality. "
     "Freshly created variables differ from all variables created before, and names are found again as registered.",
     ["inputs", "histories"], "all identifiers, types, ranks; all creation histories",
     "Tests create a few variables; bit-packing overlaps show only for large identifiers or ranks.",
     [S+"core/Variable.h", S+"core/VariablePool.cpp"], [("bit packing", S+"core/Variable.h"), ("fresh id per type", S+"core/VariablePool.cpp")])
prop("C21", "Equal monomials share one object and one identity",
     "Monomials created anywhere with the same exponents are the same shared object with the same identity and hash, monomials with different exponents have different identities while alive, and equality, order and hashing of monomials, terms, variables and polynomials are consistent with each other.",
     ["inputs", "histories"], "all creation and destruction histories",
     "Depends on creation/destruction order of shared objects; tests build a few.",
     [S+"core/MonomialPool.h", S+"core/MonomialPool.cpp", S+"core/Monomial.cpp", S+"util/Pool.h"], [("hash consing", S+"core/MonomialPool.cpp")])
prop("C22", "Set covers cover, and the exact one is minimum",
     "For every set-cover instance whose union of sets is the whole ground set, each heuristic for complete covers (greedy, weighted and bounded greedy that may run to the end, exact, trivial) returns a selection of sets whose union is the ground set, and the exact solver returns one of minimum cardinality. A heuristic that stops early (bounded or weighted greedy, selection of essential sets) leaves exactly the not yet covered part of every set in the instance, and essential sets are only those that every cover must contain.",
     ["inputs"], "all set systems",
     "Tests run a few small instances.",
     ["src/carl-covering/SetCover.cpp", "src/carl-covering/heuristics/greedy.cpp", "src/carl-covering/heuristics/exact.cpp", "src/carl-covering/heuristics/select_essential.cpp", "src/carl-covering/heuristics/remove_duplicates.cpp", "src/carl-covering/heuristics/trivial.cpp", "src/carl-covering/SetCover.h"], [("selection and reduction of uncovered elements", "src/carl-covering/SetCover.cpp")])
prop("C23", "Quantities and durations are read and printed faithfully",
     "Every number with an accepted unit suffix (binary quantities also accept the short forms K, M, ...) is read as that number times the unit, other suffixes are rejected, and the unit chosen for printing is the largest one in which the value is not zero, with the printed number being the value divided by that unit rounded toward zero; scaled accessors are the integer quotient by their unit.",
     ["inputs"], "all values within the machine range, all suffixes",
     "Tests parse a couple of strings.",
     ["src/carl-settings/settings_utils.h", "src/carl-settings/settings_utils.cpp"], [("suffix tables", "src/carl-settings/settings_utils.h")])
prop("C24", "Constraint normalisation keeps the solution set",
     "Creating, normalising and simplifying a polynomial constraint, over real and over integer variables, never changes which points satisfy it, and the quick consistency verdict (always true, always false, unknown) is correct for every point. "
     "Negating a constraint yields one that holds at exactly the other points.",
     ["inputs"], "all polynomials, relations and points",
     "Tests check few constraints at no points.",
     [S+"formula/ConstraintRaw.h", S+"core/SimpleConstraint.h", S+"formula/Constraint.h"], [("normalisation rules", S+"formula/ConstraintRaw.h")])
prop("C25", "Interval evaluation of polynomials encloses their range",
     "Evaluating a monomial, term, multivariate or univariate polynomial on a box of exact intervals returns an interval that contains the value at every point of the box.",
     ["inputs"], "all polynomials, boxes and points of the box",
     "Tests compare a few boxes.",
     [S+"interval/IntervalEvaluation.h", S+"interval/power.h"], [("term-wise evaluation", S+"interval/IntervalEvaluation.h")])
prop("C26", "Interval contraction never drops a solution",
     "Contracting an interval box with respect to a polynomial constraint keeps every solution of the constraint inside the resulting intervals.",
     ["inputs"], "all polynomials, boxes and solutions",
     "Tests look at a few contractions.",
     [S+"interval/Contraction.h"], [("Newton and propagation contraction", S+"interval/Contraction.h")])
prop("C27", "Linear Diophantine and extended-gcd helpers return solutions",
     "Whenever an integer solution exists, the linear Diophantine helper returns integers that satisfy the equation, and the extended gcd returns the gcd together with cofactors satisfying the Bezout identity.",
     ["inputs"], "all integer coefficient vectors",
     "Tests solve a few equations.",
     [S+"core/DiophantineEquation.tpp", S+"numbers/adaption_gmpxx/operations.h"], [("Euclid with cofactors", S+"core/DiophantineEquation.tpp")])
prop("C28", "Priority queue returns elements in order and loses none",
     "After any sequence of insertions, removals and in-place changes, the heap-based priority queue holds exactly the elements inserted and not yet removed, and always removes a maximal element with respect to its order.",
     ["histories"], "all operation sequences",
     "History-dependent structure; tests do not cover it.",
     [S+"util/Heap.h", S+"util/CompactTree.h"], [("sift up/down", S+"util/Heap.h")])
prop("C29", "Groebner bases generate the same ideal and are complete",
     "The computed basis generates the same ideal as the input polynomials, every S-polynomial of two basis elements reduces to zero modulo the basis, and reduction returns a remainder none of whose terms is divisible by a leading term of the basis.",
     ["inputs", "histories"], "all finite sets of polynomials",
     "Tests run a few standard ideals.",
     [S+"groebner/Buchberger.tpp", S+"groebner/Reductor.h", S+"core/polynomialfunctions/SPolynomial.h"], [("pair processing", S+"groebner/Buchberger.tpp")])
prop("C30", "Square-root expressions evaluate homomorphically",
     "Adding, subtracting, multiplying and dividing square-root expressions with the same radicand gives an expression whose value is the operation on the values, whenever the values are defined. Normalisation, assignment, substitution of numbers, exact evaluation and conversion to a polynomial or number keep the value.",
     ["inputs"], "all coefficients and radicands",
     "Tests construct few expressions.",
     [S+"vs/SqrtEx.h", S+"vs/SqrtEx.tpp"], [("operators", S+"vs/SqrtEx.tpp")])
prop("C31", "Content, primitive part, square-free part and factorisations multiply back",
     "Content times primitive part (with the sign of the leading coefficient) is the polynomial, coprime scaling makes all coefficients integers without common divisor and changes a polynomial only by the reported positive or negative constant (the sign preserving variant only by a positive one), and the product of the factors of a (square-free or trivial) factorisation with their multiplicities is the original polynomial.",
     ["inputs"], "all polynomials",
     "Tests factor a few polynomials.",
     [S+"core/polynomialfunctions/PrimitivePart.h", S+"core/polynomialfunctions/Content.h", S+"core/polynomialfunctions/SquareFreePart.h", S+"core/MultivariatePolynomial.tpp"], [("coprimeFactor", S+"core/MultivariatePolynomial.tpp")])
prop("C32", "Primes are primes, in order and without gaps",
     "The prime factory returns for every index exactly the prime with that index, independent of the order in which primes were requested.",
     ["inputs", "histories"], "all indices and request histories",
     "Tests look at the first primes.",
     [S+"numbers/PrimeFactory.h"], [("trial division", S+"numbers/PrimeFactory.h")])
prop("C33", "Real algebraic numbers, formulas and virtual substitution keep meaning",
     "Comparing and computing with real algebraic numbers agrees with the real numbers they denote, and simplifying, normalising or substituting in a formula keeps its set of models.",
     ["inputs"], "all algebraic numbers and formulas",
     "Quantifies over all formulas and models.",
     [S+"ran/ran.h", S+"formula/Formula.h", S+"vs/substitute.h"], [("formula and algebraic-number layer", S+"formula/Formula.h")])
prop("C34", "Numbers survive printing and parsing",
     "Every integer and rational printed by the library's conversion functions parses back to the same number, and decimal and scientific notations denote the rational number they write.",
     ["inputs"], "all rationals, all numerals in the accepted grammar",
     "Tests parse a few strings.",
     [S+"numbers/adaption_gmpxx/operations.cpp", S+"numbers/parser/parser.h"], [("string conversion", S+"numbers/adaption_gmpxx/operations.cpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
