# per property: the documented/implied domain, appended to the statement as its last sentence
DOMAIN = {
"C01": "Domain: arguments other than the most negative value of a signed type, non-zero divisors, and results and documented intermediates that fit the type.",
"C02": "Domain: unsigned types of 8 to 64 bits, bit positions below the width, and a next combination that exists.",
"C03": "Domain: moduli at least 1 that fit the value type (for inverses in 16-bit unsigned storage at most 2^15); a raw integer used directly as second operand is taken as already reduced by design.",
"C04": "Domain: moduli whose squares fit the intermediate type (square roots: int, prime-power parts up to 46340, argument coprime to the modulus), Jacobi arguments n>=0 with odd modulus, discrete logarithms of powers of an invertible base.",
"C05": "Domain: arrays of the requested size and a prime list reaching the square root of the window end; divisor-sum tables leave index 0 unspecified.",
"C06": "Domain: positive integers of the supported types; divisors and intermediates fit the type.",
"C07": "Domain: n>=1 for the quotient maps, and rings in which the divisions of the power-sum formula (by 2 and 3, for higher powers any small integer) are exact.",
"C08": "Domain: rings where the required f(1), g(1) are invertible, arrays of the requested length.",
"C09": "Domain: n within reach of direct summation, rings where the leading coefficient is invertible, helper tables initialised as documented.",
"C10": "Domain: arguments for which every exact intermediate fits the ring (fields for high powers, inverse factorials only below the characteristic), geometric base not 1 where excluded.",
"C11": "Domain: divisors with an invertible leading coefficient (monic over integers); floating FFT products only while rounding is exact.",
"C12": "Domain: order at least 1, equal orders for both operands, invertible constant term where dividing, characteristic 0 or at least the order for logarithm, exponential and integral.",
"C13": "Domain: non-empty inputs, roots of unity of the required order.",
"C14": "Domain: non-empty shapes that fit the operation.",
"C15": "Domain: arguments in the documented tables' sizes, series-based numbers over characteristic greater than n, combinations of pairwise distinct elements.",
"C16": "Domain: D positive and not a perfect square for Pell, bounds at least 1, solutions and intermediates that fit the type; Pell solutions listed have y>=1.",
"C17": "Domain: order at least 1, Berlekamp-Massey with at least twice as many terms as the order, simple real zeros, and a search target between the values at both interval ends; Bernoulli B1=+1/2.",
"C18": "Domain: exact base rings, operands sharing their parameter (D, modulus), divisions by invertible elements; combinations documented as undefined for infinity are excluded and infinite values compare by their flag.",
"C19": "Domain: points below the permutation size; a product applies its right factor first, a root that does not exist is reported as the empty result.",
"C20": "Domain: exact coefficients, inverses only of invertible elements, motions by normalised versors.",
"C21": "Domain: strict weak orderings, hints at order-keeping positions, positive counts, iterators that are valid; positional access is not offered when duplicates are counted.",
"C22": "Domain: valid positions, links only between a root and a node of another tree, values combined by an associative operation whose default is neutral.",
"C23": "Domain: offsets and ranges inside the vector, non-overlapping ranges for swap.",
"C24": "Domain: ranges inside the structure, associative operations (commutative for the Fenwick tree).",
"C25": "Domain: keys inside the map's domain, indices inside the sets, allocator used within its capacity.",
"C26": "Domain: non-negative weights for Dijkstra, no negative cycle for Floyd-Warshall, acyclic graphs for topological order and reduction.",
"C27": "Domain: non-negative capacities and distances that fit the type, matching edges given as (left, right).",
"C28": "Domain: simple undirected graphs for the decompositions, walks between connected vertices.",
"C29": "Domain: non-negative letters inside the declared alphabet, non-empty patterns and dictionary words, an automaton built once after all insertions.",
"C30": "Domain: buffers of at least one byte (a block read through a buffer delivers at most one buffer, anything shorter than requested sets the failure state), unread right after a successful single-character read, and numbers that fit the type (floating values to a few units in the last place).",
"C31": "Domain: finite floating values of moderate magnitude, buffers of at least one byte.",
"C32": "Domain: non-zero xorshift states, min<=max.",
"C33": "Domain: one associativity per precedence level, postfix operators binding tighter than all others.",
"C34": "Domain: monotone predicates, lower bound not above upper bound, finite floating ranges.",
"C35": "Domain: at least one thread; up to the requested number of jobs run in parallel.",
"C36": "Domain: non-zero divisors, signed division without overflow, conversions of values that fit a machine word.",
"C37": "Domain: non-zero divisors and moduli, values that fit for mpz_to_int64, denominators where the inverse exists.",
}
