ORACLE = {
"C01": "128-bit integer arithmetic; roots by bisection; Bezout identity and divisibility for gcd.",
"C02": "loops over single bits.",
"C03": "128-bit residues; defining congruence for inverses and quotients; polynomial long division for extension fields.",
"C04": "complete enumeration of residues for small moduli; defining congruences, known construction and order criteria for large ones.",
"C05": "linear sieve written from the definitions; exact-size heap arrays guarded by ASan and by a sentinel pattern.",
"C06": "trial division and strong tests to 12 prime bases (complete below 2^64); product and primality of the returned factors; nested-loop divisors.",
"C07": "sieve and prefix sums at every key, exact modulo 2^64 or modulo a prime.",
"C08": "double loop over divisors.",
"C09": "term-by-term sums from tables built from definitions.",
"C10": "term-by-term loops in exact rings.",
"C11": "schoolbook products; exact evaluation at random points for large degrees; q*d+r identity and degree bound.",
"C12": "schoolbook truncated products; identities exp(log f)=f, f'=..., composition by Horner with schoolbook products.",
"C13": "quadratic definition of each convolution; direct evaluation of the transform.",
"C14": "Laplace determinants, rank by minors, schoolbook products; identity M*M^-1=I.",
"C15": "Pascal-type recurrences, brute-force enumeration, big-integer factorials (GMP) reduced modulo p^e.",
"C16": "bounded search for all solutions; exact 128-bit equation checks.",
"C17": "step-by-step recurrences, companion-matrix powers, a second Berlekamp-Massey written from the textbook.",
"C18": "explicit pair/rational arithmetic over exact base rings; nimber product from the Fermat-power rules; projective line model.",
"C19": "pointwise arrays of images.",
"C20": "multivectors with the product table generated from basis-vector signs; every typed overload against the full product.",
"C21": "std::multiset/multimap-like reference vector after every operation; structure walk from iterators; instance and allocation balance.",
"C22": "plain vectors, sorted vectors and parent arrays after every operation; instance balance.",
"C23": "std::vector<bool>-like array; all bits compared after every operation.",
"C24": "left-to-right fold of a plain array with non-commutative operations (strings, affine maps, matrices).",
"C25": "sorted vectors, label arrays, std::map, slot-occupancy bitmap.",
"C26": "Bellman-Ford, all spanning trees/Kruskal, reachability closure, truth-table 2-SAT.",
"C27": "minimum cut by enumeration or an independent augmenting-path solver, feasibility of flows, all permutations or subset DP for assignment.",
"C28": "deletion tests for bridges and cut vertices, cycle-sharing relation for biconnected parts, colour counting, parent climbing.",
"C29": "naive comparison of all suffixes, all occurrences, all palindromic substrings.",
"C30": "cursor over the source bytes; sources with short reads (custom reader, streambuf, cookie FILE*).",
"C31": "a byte log at the sink; 128-bit decimal formatting; value distance for floating output; documented text of stream overloads.",
"C32": "reference MT19937-64 and xorshift streams written from the papers (and std::mt19937_64); exact counting over small state types for unbiasedness.",
"C33": "recursive-descent parser over a generated tree: the value is computed on the tree before it is printed.",
"C34": "linear scans; 128-bit arithmetic for extreme ranges; naive collection loops.",
"C35": "event log checker: every job exactly once, provider/collector exclusion counters, worker-thread affinity, completion at return, parallelism reached by a barrier; TSan for races; injected delays and yields for schedule diversity.",
"C36": "GMP arithmetic modulo 2^bits.",
"C37": "Decimal and hexadecimal text built from the operands (never the conversions under test), 128-bit arithmetic for 64-bit operands, the defining inequality or identity of each helper, low-level GMP division for residues.",
}
