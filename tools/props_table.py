# prop(id, title, statement, over, text, why, files, mech, observe)
prop("C01", "Integer roots, division, powers and gcd are exact over the whole range",
 "For every integer argument whose result is representable, the integer square/cube roots (floor and ceil), floor/ceil/round division, next multiple, exponentiation, gcd, lcm, extended gcd and gcd-closure return the mathematically exact value (Bezout coefficients satisfy a*x+b*y=g), for every built-in width and sign.",
 ["inputs"], "all arguments of all built-in integer widths for which the result and documented intermediates fit",
 "Tests check short tables of small values; rounding errors of the floating-point seeds and sign/width edge cases live near perfect powers and at the type limits.",
 [I+"algorithm/math/base.h", "src/algorithm/math/base.cpp"],
 [("floating-point seed corrected by exact integer steps", "src/algorithm/math/base.cpp"), ("Euclid loops", I+"algorithm/math/base.h")],
 ["return values of isqrt/isqrtc/icbrt/icbrtc/sqrtT/cbrtT/is_square/is_cube/div_*/multiple/gcd/gcd_ex/gcd_max/lcm/powT"])
prop("C02", "Bit-manipulation primitives agree with their bitwise definition",
 "For every value of every supported unsigned width, each bit primitive (log2, popcount, reversal, leading/trailing zeros, high/low bit, power-of-two tests, Gray code, set/get/flip/clear/erase/mix bits, sign-magnitude, next same-weight combination) returns what its bit-by-bit definition gives, and the paired conversions are mutually inverse.",
 ["inputs"], "all values of 8/16/32/64-bit types and all bit positions",
 "Tests compare a few dozen constants; table and multiplication tricks can be wrong for a single entry.",
 [I+"algorithm/math/bits.h", "src/algorithm/math/bits.cpp"],
 [("lookup tables and de Bruijn multiplication", "src/algorithm/math/bits.cpp"), ("shift cascades", I+"algorithm/math/bits.h")],
 ["return values"])
prop("C03", "Residue-class arithmetic is exact modulo M in every storage mode and width",
 "For every modulus that fits the value type, and every storage mode (constant, static, per-instance), values built from any integer are normalised to [0,M) and +, -, *, negation and exponentiation agree with exact integer arithmetic modulo M without intermediate overflow; inversion and division return a solution of the defining congruence whenever one exists.",
 ["inputs", "configurations"], "all value types (8 to 64 bit, signed and unsigned), all moduli up to the type maximum, all storage modes, all operands",
 "Tests use a handful of small moduli; overflow and carry handling matters for moduli near the type limit and for operands at both ends of the range.",
 [I+"structure/math/modulo.h", I+"algorithm/math/intrinsic.h"],
 [("overflow-aware addition, widening or double-and-add multiplication", I+"structure/math/modulo.h"), ("extended gcd inverse", I+"structure/math/modulo.h")],
 ["value of the residue after each operation"])
prop("C04", "Modular number theory returns correct and complete solution sets",
 "For every valid input, Chinese remaindering (also with non-coprime moduli) and Garner return the unique solution or report none, the Jacobi symbol is correct, modular square roots are complete for prime, prime-power and composite moduli, primitive roots, multiplicative orders and k-th roots are exactly those of the group, and every discrete logarithm returned satisfies a^x=b.",
 ["inputs"], "all residues and moduli in the documented domain (value type large enough for intermediate squares)",
 "Tests fix a few primes; prime powers, powers of two, non-coprime moduli and composite orders take separate code paths.",
 [I+"algorithm/math/modulos.h", "src/algorithm/math/modulos.cpp"],
 [("CRT via modular gcd", I+"algorithm/math/modulos.h"), ("Cipolla and Hensel lifting", I+"algorithm/math/modulos.h"), ("Pohlig-Hellman / baby-step giant-step", I+"algorithm/math/modulos.h")],
 ["returned residues and sets"])
prop("C05", "Sieves and number-theoretic tables are right at every index, whole or segmented",
 "For every bound n, the prime list, prime flags, prime counts, totients, Moebius values, distinct-prime counts, divisor counts and sums, smallest and biggest prime factors hold the exact value at every index below n and nothing outside the given arrays is touched; segmented variants over any window [b,e) agree with the whole-range tables, and the prime holder serves the same values.",
 ["inputs"], "all bounds n and windows [b,e), with the documented supporting prime lists",
 "Tests look at n=30 or a fixed window; boundary effects at squares of primes, window edges and tiny n are not exercised.",
 [I+"algorithm/math/primes.h", "src/algorithm/math/primes.cpp", I+"structure/math/prime_holder.h"],
 [("Eratosthenes sieves", "src/algorithm/math/primes.cpp"), ("lazy table construction", I+"structure/math/prime_holder.h")],
 ["output arrays with guard zones around them"])
prop("C06", "Primality, factorization and divisor enumeration are exact",
 "Miller-Rabin classifies every integer in its supported range correctly; every factorization returned multiplies back to the input and consists of distinct primes with exact exponents; divisor enumeration (full, bounded, squarefree-signed), functions computed from a factorization (divisor count, totient, Carmichael) and base-b digit conversion agree with their definitions.",
 ["inputs"], "all integers of the supported types (strong pseudoprimes, prime squares, Carmichael numbers, values near witness-set thresholds included)",
 "Tests cover a few numbers; pseudoprimes and thresholds of the deterministic witness sets are rare inputs.",
 [I+"algorithm/math/factorization.h", I+"algorithm/math/primes.h"],
 [("witness sets by range", I+"algorithm/math/factorization.h"), ("Pollard rho with stack of cofactors", I+"algorithm/math/factorization.h")],
 ["returned factorizations, divisors and digits"])
prop("C07", "Sub-linear prime counting agrees with enumeration for every n",
 "For every n, prime counts, prime sums, prime power sums and the counts of primes congruent to 1 and 3 mod 4, computed in sub-linear time, equal direct enumeration, at n itself and at every quotient floor(n/k).",
 ["inputs"], "all n, all exponents z, all quotients floor(n/k)",
 "Tests check one table; errors around perfect squares and tiny n appear only for particular n.",
 [I+"algorithm/math/prime_counting.h", I+"algorithm/math/prime_pi.h", I+"structure/container/sqrt_map.h"],
 [("Lucy-style sieve over floor(n/k)", I+"algorithm/math/prime_counting.h")],
 ["returned maps at all keys"])
prop("C08", "Dirichlet and Moebius array transforms are exact and mutually inverse",
 "For every pair of arithmetic functions and every length, Dirichlet convolution, division, inverse and Moebius transforms (general, multiplicative and completely multiplicative variants) equal the defining divisor sums at every index, the specialised variants agree with the general one on their domain, and division/inverse undo convolution.",
 ["inputs"], "all arithmetic functions over a ring with invertible f(1), all lengths",
 "Tests use one or two functions at fixed length.",
 [I+"algorithm/math/divisor_sums.h"],
 [("sieve-style convolution loops", I+"algorithm/math/divisor_sums.h")],
 ["output arrays"])
prop("C09", "Sub-linear divisor-sum and multiplicative summatory functions are exact",
 "For every n, summatory functions computed in sub-linear time (Mertens, totient and other Moebius-type sums, sums of multiplicative functions from prime values, square-free counts, divisor-sigma sums) equal direct term-by-term summation at n and at every quotient floor(n/k).",
 ["inputs"], "all n up to direct-summation reach, all supported sequence families, all preset table sizes",
 "Tests check few n; the small/large table split and quotient boundaries depend on n.",
 [I+"algorithm/math/divisor_sums.h", I+"algorithm/math/mertens.h", I+"algorithm/math/sequences.h"],
 [("recursion over floor(n/k) with memo tables", I+"algorithm/math/divisor_sums.h")],
 ["returned sums and maps"])
prop("C10", "Closed-form sums and range generators equal their term-by-term definition",
 "Sums of powers, of powers times geometric terms, of floor((a*k+b)/q), of f over floor(n/k), figurate sequences, and in-place range operations (progressions, powers, factorials and their inverses, inverses, negate, alternate, prefix sums and differences, sum/product/min/max/mex) equal direct evaluation for every argument and length.",
 ["inputs"], "all parameters (also zero and negative where allowed), all lengths, exact rings",
 "Tests sample one parameter set per function.",
 [I+"algorithm/math/sums.h", I+"algorithm/math/ranges.h", I+"algorithm/math/reduce.h", I+"algorithm/math/sequences.h"],
 [("closed forms with parity handling", I+"algorithm/math/sums.h")],
 ["return values"])
prop("C11", "Polynomial arithmetic obeys ring and Euclidean laws at every degree",
 "For all polynomials over exact coefficient rings (including residues in any storage mode), at every pair of degrees including those that switch multiplication or division algorithm, sums, products (also truncated and in-place), division with remainder, power-series inverse, evaluation, derivative and integral equal schoolbook results, p=q*d+r with deg r<deg d, and results do not depend on operand aliasing or trailing zeros.",
 ["inputs", "configurations"], "all degree pairs, all coefficient rings of the library, all moduli below 2^32 and beyond",
 "Tests use degrees where only one algorithm runs; each algorithm (long, Karatsuba, floating FFT, CRT FFT, Hensel division) is selected by size.",
 [I+"structure/math/polynom.h", I+"algorithm/math/polynom_mod.h"],
 [("size-dispatched multiplication", I+"algorithm/math/polynom_mod.h"), ("Hensel vs long division dispatch", I+"structure/math/polynom.h")],
 ["coefficients of results"])
prop("C12", "Formal power series operations satisfy their defining identities to full order",
 "For every truncation order and all series over an exact field, arithmetic, inverse, derivative, integral, composition, logarithm, exponential, powers and shifts satisfy their defining identities in every retained coefficient.",
 ["inputs", "configurations"], "all truncation orders (not only powers of two), all coefficients, constant and per-instance order storage",
 "Tests fix one order per storage mode; Newton iterations behave differently at each order.",
 [I+"structure/math/series.h"],
 [("Newton iteration and recurrences", I+"structure/math/series.h")],
 ["all retained coefficients"])
prop("C13", "Fast convolutions and transforms equal their quadratic definitions",
 "For every length allowed and every input over a field with the needed roots, FFT is inverted by inverse FFT, and and/or/xor/max/cyclic/ordinary fast convolutions equal the quadratic definition.",
 ["inputs"], "all lengths allowed by each routine, all inputs",
 "Tests check fixed lengths and inputs.",
 [I+"algorithm/math/convolutions.h", I+"algorithm/math/fft.h", I+"structure/math/root_wrapper.h"],
 [("butterfly transforms", I+"algorithm/math/fft.h")],
 ["output arrays"])
prop("C14", "Matrix algebra satisfies linear-algebra identities for every shape",
 "For all shapes and entries over an exact field, products, powers, transpose, determinant, inverse, linear solving and elimination satisfy the defining identities, and singular or non-square inputs are handled as documented.",
 ["inputs"], "all shapes, ranks and entries",
 "Tests check a few small regular matrices.",
 [I+"structure/math/matrix.h"],
 [("Gaussian elimination with pivoting", I+"structure/math/matrix.h")],
 ["entries of results"])
prop("C15", "Combinatorial counts and binomials are exact, also modulo prime powers",
 "Factorials, binomials, multinomials (plain, prime exponents, modulo prime and prime power, with the prime removed), Stirling and partition numbers and lexicographic enumeration of partitions, combinations and permutations equal direct counting, and enumerations list every object exactly once in order.",
 ["inputs"], "all arguments in the documented domain, all primes and prime powers",
 "Tests print short tables; carries in base p and the special structure of powers of 2 need particular arguments.",
 [I+"algorithm/math/combinatorics.h", I+"algorithm/math/counting.h", I+"algorithm/math/comb_primes.h", I+"algorithm/math/comb_mod_pp.h", I+"structure/math/factorial_holder.h"],
 [("Legendre/Lucas-type digit loops", I+"algorithm/math/comb_mod_pp.h")],
 ["return values and enumeration order"])
prop("C16", "Diophantine solvers return exactly the valid solutions",
 "Pell-type equations, continued-fraction convergents, best approximations, Farey sequences, Pythagorean and Eisenstein triples and sums of two squares: everything returned satisfies its equation, within the requested bound nothing is missing or repeated, and the documented order holds.",
 ["inputs"], "all D, N, bounds in the supported range",
 "Tests check selected D and bounds.",
 [I+"algorithm/math/pell.h", I+"algorithm/math/convergents.h", I+"algorithm/math/fractions.h", I+"algorithm/math/triples.h", I+"algorithm/math/squares_r.h"],
 [("continued fraction iteration", I+"algorithm/math/convergents.h"), ("tree enumeration of triples", I+"algorithm/math/triples.h")],
 ["returned solution lists and callback streams"])
prop("C17", "Recurrence solvers and polynomial calculus equal step-by-step evaluation",
 "For every recurrence, initial values and index, linear recurrence evaluation, Fibonacci/Lucas families and Bernoulli numbers equal naive iteration; Berlekamp-Massey returns a shortest recurrence generating the sequence; polynomial sums and zero search agree with their definition.",
 ["inputs"], "all recurrences up to the tested order, all indices",
 "Tests check a few sequences.",
 [I+"algorithm/math/recurrence.h", I+"algorithm/math/polynoms.h"],
 [("polynomial power modulo the characteristic polynomial", I+"algorithm/math/recurrence.h")],
 ["return values"])
prop("C18", "Number-system types satisfy the laws of the algebra they model",
 "Quadratic and complex numbers, fractions, GF(2), nimbers, numbers extended with infinity, Moebius transformations and symbolic values: operations agree with exact reference arithmetic and satisfy ring/field laws, conjugation, inversion and ordering wherever defined.",
 ["inputs"], "all elements over exact base rings",
 "Tests check isolated values.",
 [I+"structure/math/quadratic.h", I+"structure/math/complex.h", I+"structure/math/fraction.h", I+"structure/math/galois_field_2.h", I+"structure/math/nimber.h", I+"structure/math/with_infinity.h", I+"structure/math/moebius_tr.h", I+"structure/math/symbolic.h"],
 [("operator implementations", I+"structure/math/")],
 ["values after each operation"])
prop("C19", "Permutations form a group in every notation",
 "For every permutation, conversion among cycle, transposition and array notation is lossless, composition, inverse, integer powers and division agree with pointwise application, and applying a permutation to data moves every element exactly once.",
 ["inputs"], "all permutations and exponents (negative included)",
 "Tests check one or two permutations.",
 [I+"structure/math/permutation.h"],
 [("cycle decomposition", I+"structure/math/permutation.h")],
 ["images of all points"])
prop("C20", "Vector and geometric-algebra operations agree with the defining tables",
 "Vectors in 2, 3 and N dimensions, Clifford algebra Cl(3,0) and projective geometric algebra: every typed product, sum, involution, dual and norm equals the result computed on full multivectors from the basis multiplication table.",
 ["inputs"], "all blades and multivectors over exact coefficients",
 "Tests use single numeric or symbolic instances per operator overload.",
 [I+"structure/math/vector2d.h", I+"structure/math/vector3d.h", I+"structure/math/vectorNd.h", I+"structure/math/clifford3.h", I+"structure/math/pga.h"],
 [("hand-expanded products per grade", I+"structure/math/pga.h")],
 ["components of results"])
prop("C21", "Ordered trees behave like sorted (multi)sets and maps under any history",
 "After any sequence of insertions, hinted insertions, single and ranged erasures, copies, moves, swaps and clears, in each duplicate-handling mode, search trees and treaps hold exactly the elements of a reference sorted container: same iteration in both directions, size, counts, rank and k-th queries and bounds; tree order, parent links, subtree sizes and the heap order of treaps stay consistent, and all nodes are freed exactly once.",
 ["histories"], "all operation sequences, key distributions, comparators, duplicate modes and random priorities",
 "Tests run a few fixed sequences; rotations and multi-count erasures depend on history.",
 [I+"structure/container/binary_search_tree.h", I+"structure/container/treap.h"],
 [("subtree size propagation, rotations", I+"structure/container/binary_search_tree.h"), ("retrace by priority", I+"structure/container/treap.h")],
 ["public iteration and queries, node fields reachable from iterators, allocator balance"])
prop("C22", "Ropes, lazy treaps and link-cut trees match naive sequence and forest models",
 "After any history, a rope equals a plain array under positional insert, erase, access and iteration; a lazy treap answers range queries after range updates as a sorted list would; a link-cut tree reports roots, parents, depths, lowest common ancestors and path aggregates as a naive forest would, and memory is released exactly once.",
 ["histories"], "all operation sequences",
 "The rope has short tests; lazy treap and link-cut tree have no tests at all.",
 [I+"structure/container/rope.h", I+"structure/container/lazy_treap.h", I+"structure/container/link_cut_tree.h"],
 [("implicit-key treap", I+"structure/container/rope.h"), ("lazy propagation", I+"structure/container/lazy_treap.h"), ("splay access", I+"structure/container/link_cut_tree.h")],
 ["query results after each operation"])
prop("C23", "Bit vectors behave as plain bit arrays at every offset and length",
 "For every word type, length, offset and alignment, each bit-vector operation (get/set, ranges, boolean algebra, shifts, reverse, swap, rotate, popcount, distance, comparison, resize, push/pop, text form) equals the same operation on a plain array of bits and leaves all other bits untouched.",
 ["inputs", "histories"], "all lengths, offsets, alignments and word types",
 "Tests sample few offsets; word-boundary handling depends on offset and length jointly.",
 [I+"structure/container/bit_vector.h"],
 [("unaligned word access", I+"structure/container/bit_vector.h")],
 ["all bits after each operation"])
prop("C24", "Range-query structures equal a naive fold over an array after any history",
 "Segment trees, lazy segment trees, Fenwick trees and range-minimum structures return exactly the left-to-right fold of the current elements for every range after any sequence of updates, for non-commutative operations and every size including 0, 1 and non-powers of two.",
 ["inputs", "histories"], "all sizes, ranges and update sequences",
 "Tests use one size and mostly commutative functions.",
 [I+"structure/container/segment_tree.h", I+"structure/container/lazy_segment_tree.h", I+"structure/math/fenwick_tree.h", X+"structure/container/range_minimum_query.h"],
 [("bottom-up climb with separate left/right folds", I+"structure/container/segment_tree.h"), ("push-down before climb", I+"structure/container/lazy_segment_tree.h")],
 ["query results"])
prop("C25", "Heaps, disjoint sets, keyed maps and the pool allocator keep their contracts",
 "Under any history, a binary heap always yields the extremal element and sorts correctly, disjoint sets report the right partition, counts and number of classes, low/high and quotient-keyed maps behave as ordinary maps on their key domain, the graph container keeps exactly the edges a reference multigraph has, and the bounded allocator never hands out the same slot twice.",
 ["histories"], "all operation sequences",
 "Tests run single fixed sequences.",
 [I+"structure/container/binary_heap.h", I+"structure/graph/disjoint_set.h", I+"structure/graph/graph.h", I+"structure/container/sqrt_map.h", I+"structure/container/lohi_map.h", I+"structure/container/bounded_contiguous_allocator.h"],
 [("sift up/down", I+"structure/container/binary_heap.h"), ("union by rank with path compression", I+"structure/graph/disjoint_set.h")],
 ["results of each operation"])
prop("C26", "Reachability, path and ordering algorithms are optimal on every graph",
 "On every directed or undirected graph, shortest paths (Dijkstra, Floyd-Warshall incl. negative edges), minimum spanning trees, topological order, strongly connected components, transitive closure and reduction and 2-SAT return results that are valid and optimal against brute force, including disconnected graphs, self loops and parallel edges.",
 ["inputs"], "all graphs of bounded size, all sources",
 "Tests run on one or two fixed graphs.",
 [X+"algorithm/graph/dijkstra.h", X+"algorithm/graph/floyd_warshall.h", X+"algorithm/graph/prim_spanning_tree.h", X+"algorithm/graph/topological_sort.h", X+"algorithm/graph/tarjan_scc.h", X+"algorithm/graph/transitive_closure.h", X+"algorithm/graph/sat2.h"],
 [("priority-ordered relaxation", X+"algorithm/graph/dijkstra.h")],
 ["returned distances, predecessor links, components, assignments"])
prop("C27", "Flow and matching algorithms reach the optimum with a valid certificate",
 "On every network and cost matrix, both max-flow algorithms (all selection rules) return the value of a minimum cut with a feasible flow, bipartite matching returns a maximum matching of existing edges, and the assignment solver returns a perfect matching of extremal cost for minimisation and maximisation, also when reused.",
 ["inputs"], "all networks and matrices of bounded size",
 "Tests run on one network each; the assignment solver has no test.",
 [X+"algorithm/graph/dinic_flow.h", X+"algorithm/graph/push_relabel_flow.h", X+"algorithm/graph/bipartite_matching.h", X+"algorithm/graph/hungarian.h"],
 [("level graph and blocking flow", X+"algorithm/graph/dinic_flow.h"), ("alternating tree with labels", X+"algorithm/graph/hungarian.h")],
 ["returned values, flows and matchings"])
prop("C28", "Structural decompositions of graphs and trees match brute force",
 "On every undirected graph, traversal, chain decomposition, bridges, articulation points, biconnected components, block-cut tree and chromatic polynomial match brute-force definitions; on every tree or forest, heavy-light decomposition and lowest common ancestor answer parent, ancestor, distance, subtree and path-walk queries correctly.",
 ["inputs"], "all graphs and forests of bounded size",
 "Tests run on fixed graphs.",
 [X+"algorithm/graph/chain_decomposition.h", X+"algorithm/graph/chromatic_polynomial.h", X+"algorithm/graph/heavy_light_decomposition.h", X+"algorithm/graph/lowest_common_ancestor.h", X+"algorithm/graph/iterative_dfs.h"],
 [("DFS chains", X+"algorithm/graph/chain_decomposition.h")],
 ["returned decompositions and visitor streams"])
prop("C29", "String structures answer every query as naive string search would",
 "For every text, dictionary and query, suffix arrays with LCP queries, prefix trees, Aho-Corasick automata, palindrome trees, Knuth-Morris-Pratt search and polynomial hashes report exactly the orders, matches, counts and equalities that naive string processing gives, also under insert/erase histories.",
 ["inputs", "histories"], "all strings over small alphabets and histories, plus longer random and periodic strings",
 "Most of these structures have no test; periodic and nested patterns trigger the failure links.",
 [X+"structure/container/suffix_array.h", X+"structure/container/prefix_tree.h", X+"structure/container/aho_corasick_trie.h", X+"structure/container/palindrome_tree.h", I+"algorithm/search/kmp_search.h", I+"algorithm/hash/polynomial_hash.h"],
 [("induced sorting", X+"structure/container/suffix_array.h"), ("failure links", X+"structure/container/aho_corasick_trie.h")],
 ["query results"])
prop("C30", "Readers deliver the input stream losslessly for every chunking",
 "For every input and every buffer size or chunking of the underlying source, each reader (file, stream, string, buffered, simple, fast) delivers exactly the source bytes in order, unread/skip/peek keep position, end of input is reported once reached, numbers and tokens parse to the exact value, and tokenizers split as specified.",
 ["inputs", "configurations", "fault_sequences"], "all inputs, buffer sizes and short-read patterns",
 "Tests read short fixed inputs that fit one buffer.",
 [I+"io/reader.h", I+"io/fast_io.h", I+"io/stream_tokenizer.h"],
 [("buffer refill with carry-over", I+"io/reader.h")],
 ["bytes and values returned to the caller"])
prop("C31", "Writers emit exactly what was written, once and in order, and round-trip",
 "For every sequence of writes, flushes and buffer sizes, each writer delivers exactly the written bytes once and in order to its sink, numbers are formatted so that reading them back gives the same value (integers exactly, floating values to the requested precision), and stream formatting of library types is stable text in the documented form.",
 ["histories", "configurations"], "all write sequences, buffer sizes, integer values and formats",
 "Tests write few short values.",
 [I+"io/writer.h", I+"io/fast_io.h", I+"io/iostream_overloads.h"],
 [("buffered append and flush", I+"io/writer.h")],
 ["bytes at the sink"])
prop("C32", "Random generators follow their reference streams and respect ranges",
 "For every seed and state, the Mersenne Twister and xorshift generators produce the reference algorithm's stream, saved and restored state continues it, bounded generation stays inside [min,max] for every range including the full one, reaches both ends, and rejection sampling is unbiased.",
 ["inputs", "histories"], "all seeds, ranges and call interleavings",
 "Tests check the first outputs of one seed.",
 [I+"algorithm/random/mersenne_twister.h", I+"algorithm/random/xorshift.h", I+"algorithm/random/random.h"],
 [("state reload", I+"algorithm/random/mersenne_twister.h"), ("rejection bound", I+"algorithm/random/random.h")],
 ["output streams"])
prop("C33", "Infix parsing and evaluation respect precedence, associativity and arity",
 "For every well-formed expression over the given operators and functions, conversion to postfix and evaluation give the value of the unique parse tree defined by precedence and associativity, with parentheses, unary operators, functions and comma-separated lists.",
 ["inputs"], "all well-formed expressions",
 "Tests evaluate a few expressions.",
 [I+"algorithm/parser/shunting_yard.h"],
 [("operator stack", I+"algorithm/parser/shunting_yard.h")],
 ["evaluated values and postfix order"])
prop("C34", "Search and collection helpers equal their specification on every sequence",
 "Binary search over positions and numeric ranges (integers and floating point) returns the first point where the monotone predicate holds for every range including extreme bounds, and collection helpers (sort, filter, transform, run-length, grouping, reversal and the like) equal their naive definition.",
 ["inputs"], "all ranges, predicates and sequences",
 "Tests use small ranges.",
 [I+"algorithm/search/binary_search.h", I+"algorithm/collections/collections.h", I+"algorithm/hash/std_tuple_hash.h"],
 [("bisection", I+"algorithm/search/binary_search.h")],
 ["return values"])
prop("C35", "Parallel execution runs every job exactly once and races with nothing",
 "For every number of threads and jobs and every scheduling, each job provided is executed exactly once, each result collected exactly once with its job, provider and collector are never entered concurrently, worker creation is serialised, each worker is used by one thread only, jobs run in parallel on the requested number of threads, and the call returns after all work is done.",
 ["schedules", "configurations"], "all thread counts, job counts and interleavings",
 "The concurrency test is excluded from the build; no schedule is exercised.",
 [I+"concurrency/concurrency.h"],
 [("mutex around provider and collector", I+"concurrency/concurrency.h")],
 ["event log of provider/worker/collector calls"])
prop("C36", "Composed wide integers equal exact two's-complement arithmetic",
 "For every width composed from primitive words, addition, subtraction, multiplication, division, remainder, shifts, bitwise operations, comparisons and conversions equal exact arithmetic modulo 2^bits with the documented signedness.",
 ["inputs"], "all operand pairs and shift amounts at every composed width",
 "Tests check a few constants.",
 [X+"structure/math/double_int.h"],
 [("carry/borrow chains", X+"structure/math/double_int.h")],
 ["values after each operation"])
prop("C37", "The big-integer bridge is exact",
 "For every value of every size, conversions between arbitrary-precision integers or floats and the fixed-width types keep the value modulo the width (and return what went in when it fits), the number-theoretic helpers on big and 64-bit operands (division, gcd, roots, powers, inverses, modular products and powers, primality, next prime, text output) equal their definitions without overflow, and moduli, polynomials, roots, extended gcd and Chinese remaindering behave over big integers as over any other ring; the header can be part of several translation units.",
 ["inputs"], "all signed values of any size, all 64-bit operand triples including the extremes",
 "No test includes the header.",
 [I+"algorithm/math/gmp_helpers.h", I+"algorithm/math/base.h", I+"structure/math/modulo.h"],
 [("casts and specialisations", I+"algorithm/math/gmp_helpers.h")],
 ["return values"])
