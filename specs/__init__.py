"""Spec modules and the properties each of them serves."""
SPECS = {
    'interval': ['C01', 'C02', 'C03', 'C25'],
    'sets': ['C17', 'C18', 'C19'],
    'vars': ['C20'],
    'bvval': ['C16'],
    'upoly': ['C12', 'C13', 'C14'],
    'mono': ['C08', 'C09'],
    'mpoly': ['C10'],
    'mquery': ['C11'],
    'ieval': ['C25'],
    'constr': ['C24'],
    'sqrtex': ['C30'],
    'dio': ['C27'],
    'covering': ['C22'],
    'settings': ['C23'],
    'heap': ['C28'],
    'scale': ['C31'],
    'pool': ['C21'],
    'peq': ['C21'],
    'num': ['C05', 'C06', 'C07', 'C32'],
}
# assumptions per property that are not found automatically
NOTES = {
    'C01': ['boost::numeric::interval arithmetic is extracted and verified from its headers except boost::numeric::pow (assumed contract)'],
    'C06': ['elements are taken modulo the field size as the code does (k > 1 is the ring Z/p^k, as documented by the implementation)'],
    'C07': ['number theory used without proof: squares (and n-th powers) of coprime numbers are coprime, a reduced fraction is a square iff numerator and denominator are'],
    'C32': ['mpz_nextprime by assumed contract (next prime above the argument)', 'unsigned overflow of the candidate in the prime search is not considered'],
    'C16': ['boost::dynamic_bitset by assumed contract, including the order by value of equal-width sets', 'width at least 1 for shifts, rotations, extensions and arithmetic', 'the constructor from mpz_class only by the bounded oracle'],
    'C08': ['a monomial handed out by the pool has the content it was created with (contract of MonomialPool::create, proved for C21)', 'std::find and std::is_sorted by assumed contract', 'the sums XE and SM are defined by their recursion equations; derived facts are proved by induction in the lemma units'],
    'C09': ['two pooled monomials have the same id iff their contents agree (pool invariant, C21)'],
    'C10': ['monomials by codes ordered as the monomial order, with product and value facts as proved for C08/C09', 'TermAdditionManager::getId by assumed contract (a free entry); addTerm, readTerms, dropTerms are verified', 'std::sort (makeOrdered) and comparison of two polynomials only by the bounded oracle', 'a polynomial is its value at an arbitrary point together with the canonical form of its term list', 'the number of terms stays below 2^60'],
    'C11': ['monomial queries (exponent, total degree, removal of a variable, derivative) by the contracts proved for C08/C09', 'ring operations by the contracts proved for C10', 'substitution of polynomials for variables, conversion to and from univariate polynomials with polynomial coefficients and the set of variables only by the bounded oracle'],
    'C24': ['polynomial operations by contracts over the value at an arbitrary point, constant part, leading coefficient and shape (proved for C10/C11; coprime factor C31)', 'carlVariables by contract (emptiness of the integer and real parts)', 'getVarInfo in the sum-of-squares step by assumed contract (coefficients of the powers of one variable)', 'the constraint pool returns a constraint with the content it was asked for (hash lookup only by the bounded oracle)', 'a polynomial over mixed variables is treated like one over reals, as the code does'],
    'C30': ['polynomial operations by contracts over the value at an arbitrary point (proved for C10/C11); gcd, exact division, coprime factor and definiteness of multivariate polynomials by assumed contract', 'a radicand that is the square of one term is read as the square of its root, as the library does (the root is taken to be non-negative at the point)', 'rounding evaluation with doubles is outside the property; subBySqrtEx is not under contract'],
    'C25': ['every interval carries a ghost point shown to be contained in it; interval sums, products and powers by the contracts proved for C01', 'std::map::at returns the interval of the variable (assumed contract)', 'evaluation of Horner schemes is not part of the property'],
    'C22': ['bit set operations by the contracts proved for C18', 'weights are non-negative and the ground set is finite', 'exact() as a whole (minimality), removal of duplicates and TypedSetCover only by the bounded oracle'],
    'C23': ['reading: the parser (boost::spirit) by assumed contract: a number followed by an entry of the suffix table handed to it', 'values and their products with the unit stay within the machine range'],
    'C28': ['CompactTree::operator[] and increaseCapacity by assumed contract (an array indexed from 1)', 'popPosition at the last position and getCopy only by the bounded oracle'],
    'C31': ['gcd and lcm by contract (non-negative, divisor of both / multiple of both), getNum/getDenom by contract (reduced fraction with positive denominator; integers have denominator 1)', 'that the scaled coefficients have no common divisor is only checked by the bounded oracle', 'square-free parts, square-free factorisations and factorisations only by the bounded oracle', 'number coefficients only'],
    'C27': ['integer division, remainder and quotient by the contracts proved for C05', 'the number of variables of a linear polynomial without constant part is its number of terms (assumed contract of carl::variables)', 'the equation has at least one variable and is ordered, so that the constant part comes first'],
    'C21': ['the hash table (boost::intrusive::unordered_set) by assumed contract: lookup by the given content, the place found is valid until the table changes; rehashing keeps the entries', 'a pooled monomial is alive (single-threaded: its destructor removes it before the weak reference can be asked again)', 'the hash is a function of the content; identifiers by the contracts proved for C19', 'creation from an unsorted initializer list and the hash of terms only by the bounded oracle', 'polynomials: monomials by codes ordered as the monomial order (C09), total degree of the leading term by contract (C11), std::sort with that order by contract (the sorted rearrangement, which keeps the leading term last), std::accumulate by contract (a fold), identifiers at most the largest identifier of the pool', 'that lists of distinct monomials of equal length with one contained in the other are equal, and that a polynomial determines its sorted list, is not proved by the verifier', 'the driver makes private members visible for extraction (no other change of the text)'],
    'C20': ['std::map, std::string and std::vector by assumed contract (vc/containers.py); strings are compared by identity of content', 'compiled without THREAD_SAFE, as the build does'],
    'C17': ['boost::dynamic_bitset by assumed contract (vc/containers.py)', 'count() is compared with the count contract of boost::dynamic_bitset'],
    'C19': ['std::priority_queue by assumed contract (multiset with maximum)', 'compiled without THREAD_SAFE, as the build does'],
}
