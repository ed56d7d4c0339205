"""Claimed properties with the assurance note, and reasons for those not claimed."""
COMMON = 'All obligations are discharged for all inputs; partial correctness; GMP and std operations by assumed contract (vc/models.py). '
CLAIMED = {
    'C01': COMMON + 'Boost interval code is verified from its headers except boost::numeric::pow (assumed contract).',
    'C02': COMMON,
    'C03': COMMON + 'split(n), bloat are only covered by the bounded oracles. Stern-Brocot sampling: loop invariant, termination not proved.',
    'C05': COMMON,
    'C06': COMMON + 'Extended Euclid: loop/recursion contracts, termination not proved.',
    'C07': COMMON + 'Exactness of rational roots rests on stated number theory about coprime squares.',
    'C08': COMMON + 'Exponents as sums over the variable list at an arbitrary variable, canonical form as obligation at every creation; the pool returns a monomial with the given content by contract.',
    'C09': COMMON + 'Order characterised by a witness variable; total order and compatibility with products proved from that characterisation; identity of ids and contents is the pool invariant (assumed here).',
    'C10': COMMON + 'Canonical term lists at two arbitrary positions plus the value at an arbitrary point; monomials by order-preserving codes with the facts proved for C08/C09; the free entry handed out by the term addition manager by contract; comparison of two polynomials and full sorting only by the bounded oracle.',
    'C11': COMMON + 'Sums over the terms defined by recursion; monomial queries by the contracts proved for C08/C09; substitution of polynomials, conversion to univariate polynomials over polynomials only by the bounded oracle.',
    'C12': COMMON + 'Coefficients as rationals (integers for mod); operations at an arbitrary coefficient index, products by the convolution sum.',
    'C13': COMMON + 'Polynomial arithmetic inside the division loops by the contracts proved for C12; witness quotients and cofactors as ghost values; maximality of the gcd follows from the proved divisibility and combination.',
    'C14': COMMON + 'Descartes/Sturm/Cauchy/Lagrange theorems themselves are mathematics, not obligations: proved are the transformations, the sequence and the bound formulas; the root statements are run against an independent counting oracle (bounded).',
    'C16': COMMON + 'boost::dynamic_bitset by assumed contract; division and shifts by loop invariants over the represented number; the constructor from mpz only by the bounded oracle.',
    'C17': COMMON + 'boost::dynamic_bitset by assumed contract.',
    'C18': COMMON + 'Words as 32-bit vectors, positions as integers; iteration order as single steps.',
    'C19': COMMON + 'Representation invariants and one-step contracts; uniqueness over histories follows by induction over operations.',
    'C20': COMMON + 'Representation invariants and one-step contracts of the pool; variable contents as 64-bit vectors.',
    'C21': COMMON + 'Creation and removal against the pool invariant at an arbitrary stored monomial; the hash table by assumed contract, identifiers by the contracts proved for C19; equality, order and hash of polynomials against the sorted term lists; unsorted initializer lists and the hash of terms only by the bounded oracle.',
    'C22': COMMON + 'Bitsets by the contracts proved for C18; greedy, bounded and weighted greedy, essential sets, trivial and the exact search for a given size; minimality of the exact solver, removal of duplicates and the typed wrapper only by the bounded oracle.',
    'C23': COMMON + 'Machine widths of the quantities are modelled; the parser (boost::spirit) by assumed contract over the suffix table the code hands to it.',
    'C24': COMMON + 'Normalisation, simplification, verdicts, definiteness, sum-of-squares step and negation at an arbitrary point; polynomial operations by contracts over the attributes the code asks for; lookup in the constraint pool only by the bounded oracle.',
    'C25': COMMON + 'Enclosure at an arbitrary ghost point of the box; interval operations by the contracts proved for C01, whose power, product and sum are obligations here too; boost::numeric::pow and std::map::at by assumed contract.',
    'C27': COMMON + 'Equations with an arbitrary ghost solution; combinations as sums defined by recursion, lemma proved by induction; carl::variables(..).size() by assumed contract.',
    'C28': COMMON + 'Heap order and element counts as loop invariants over the position array; the addressing of the array (CompactTree::operator[], increaseCapacity) by assumed contract; copying and removal at the last position by the bounded oracle.',
    'C30': COMMON + 'Normalisation, construction, the four operations, assignment, equality, substitution and conversions at an arbitrary point where the values are defined; gcd and exact division of multivariate polynomials by assumed contract.',
    'C31': COMMON + 'Coprime factors, scaled polynomials, numeric content, content, primitive part, normalisation and synthetic division at an arbitrary coefficient; gcd/lcm through divisibility; that the scaled coefficients have no common divisor, square-free parts and factorisations only by the bounded oracle.',
    'C32': COMMON + 'Machine arithmetic of the candidate counter treated as mathematical; mpz_nextprime by assumed contract.',
}
NOT_APPLICABLE = {
    'C04': 'floating-point rounding: the rounded operations switch the FPU mode through inline assembly/fenv, which no contract over the extracted code can express; a real-number contract would prove a model instead',
    'C33': 'the code needs CoCoALib-dependent headers that do not compile in this configuration, so there is no code that runs to be put under contract',
    'C15': 'the subresultant algorithms work on polynomials with polynomial coefficients through exact divisions; that their last element vanishes iff there is a common root is a theorem about determinants that step contracts over the loop would have to assume; not attempted, no contract was written',
    'C26': 'contraction is written for Interval<double> only, so every step depends on floating-point rounding (see C04); a contract over exact intervals would not be about the code that runs',
    'C29': 'ideal membership is an existential statement over polynomial cofactors through nested containers, callbacks and user-defined criteria; discarding S-pairs is justified by Buchberger criteria, which would have to be assumed; not attempted, no contract was written',
    'C34': 'the parsers are Boost.Spirit expression templates and the printers work on characters of strings; strings are only identities in the model of the generator; not attempted',
}
