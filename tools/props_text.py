DS = "src/data_structure/"
p("C01", "Safe callers cannot cause undefined behaviour",
  "No program made only of safe code can, through this library, cause undefined behaviour: a value is never read as present unless it was established to be present, storage is never accessed past its end, and exclusive access to the same data is never held twice at once.",
  ["inputs", "programs"], "for every safe client program and every argument",
  "Tests run a handful of inputs in a build where an unchecked read of a wrong value usually looks fine; no test touches the shortest-path or recursion helpers at all.",
  ["src/graph/shortest_path.rs", "src/misc/recursive_function.rs", "src/"],
  [("unchecked read of a tentative distance behind a presence test", "src/graph/shortest_path.rs dijkstra"),
   ("interior-mutable cell that lends the closure to itself", "src/misc/recursive_function.rs call"),
   ("everything else is safe Rust", "src/")])
p("C02", "Results are a function of the arguments alone",
  "Every operation's result and effect depend only on its arguments and the receiver's contents: the library reads no clock, randomness, environment, file, address or hash-iteration order, starts no thread, keeps no hidden mutable state other than the modulus that can be set for run-time-modulus residues, and never writes to standard output.",
  ["inputs", "histories", "programs"], "for every call, in every order, on every run",
  "A test sees one run at a time; an occasional dependence on hidden state, iteration order or an extra line on standard output does not change what its assertions look at.",
  ["src/"], [("pure data structures, no ambient authority", "src/"), ("the modulus cell", "src/misc/modint.rs Barrett / Id")])
p("C03", "The tracing macro behaves the same way in both build profiles",
  "The tracing macro accepts the same invocations (no argument, one, several, trailing comma) in debug and in optimised builds, from any crate by its path with nothing else imported; in debug builds it writes to standard error only and evaluates each argument exactly once; in optimised builds it evaluates nothing and writes nothing.",
  ["programs", "configurations"], "for every invocation form, client crate and build profile",
  "The test suite is only ever built in the debug profile and never invokes the macro.",
  ["src/misc/debug.rs"], [("the macro's two cfg variants", "src/misc/debug.rs de!")])
p("C04", "Ready-made monoids obey the monoid laws for every integer type",
  "For each ready-made monoid (maximum, minimum, sum, product) and each primitive integer type, the identity element is neutral on both sides and the operation returns what its name says: the larger, the smaller, the sum, the product of its two operands.",
  ["inputs", "configurations"], "for every element value and each of the twelve primitive integer types",
  "Tests only use the maximum over i32 on small positive values.",
  ["src/misc/monoids.rs", "src/traits/numeric.rs"],
  [("identity and operation of each monoid", "src/misc/monoids.rs"), ("neutral values per integer type", "src/traits/numeric.rs impl_integral!")])
p("C05", "Conversion of any integer into a residue loses nothing",
  "Converting an integer of any primitive type into a residue, by constructor, by From, or by mixing it into an operator, yields the mathematical value modulo the modulus: no bit is dropped before reduction and negative values reduce to the non-negative representative.",
  ["inputs", "configurations"], "for every value of every primitive integer type and every modulus",
  "Tests convert four of the twelve types, with values that fit in 34 bits.",
  ["src/misc/modint.rs"], [("one reduction per integer type", "src/misc/modint.rs RemEuclidU32 impls")])
p("C06", "Residues are always kept in canonical form",
  "Every residue that is produced by anything but the explicitly unchecked constructor is strictly smaller than the modulus, for every modulus that can be installed (including 1) and every sequence of operations, so that equality, hashing and printing of residues agree with congruence.",
  ["inputs", "histories", "configurations"], "for every modulus, operand and operation sequence",
  "Tests use one fixed modulus and never come near the boundary values where a reduction step is skipped.",
  ["src/misc/modint.rs", "src/math/internal_math.rs"],
  [("conditional subtraction / addition of the modulus", "src/misc/modint.rs add_impl, sub_impl"), ("remainder in multiplication", "src/misc/modint.rs mul_impl")])
p("C07", "All spellings of a residue operator are the same operation",
  "Addition, subtraction, multiplication and division of residues give the same result whether an operand is passed by value or by reference, as a residue or as an integer to be converted, or through the assigning form; and sums and products over iterators are left folds of addition from zero and multiplication from one. Operands keep their sides.",
  ["inputs", "programs"], "for every operator, operand combination and both kinds of residue",
  "Tests check the integer right-hand side of one kind of residue with one pair of values; the by-reference and run-time-modulus variants are not run.",
  ["src/misc/modint.rs"], [("macro-generated operator impls over one core function each", "src/misc/modint.rs impl_bin_ops!, impl_assign_ops!, impl_folding!")])
p("C08", "Changing the run-time modulus takes effect completely",
  "After the modulus of a run-time-modulus residue type is set, every later operation uses the new modulus and the reduction constant that belongs to it; zero and moduli too large for the arithmetic are refused before anything changes; and residue types with different identities never share a modulus.",
  ["inputs", "histories"], "for every sequence of modulus changes and operations",
  "Tests set one modulus once, in a doc example that performs no arithmetic afterwards.",
  ["src/misc/modint.rs"], [("paired update of modulus and reduction constant", "src/misc/modint.rs Barrett::update"), ("guard", "src/misc/modint.rs set_modulus")])
p("C09", "Residue arithmetic agrees with integer arithmetic",
  "For canonical operands, the sum, difference, negation and compile-time-modulus product of residues are congruent to the sum, difference, negation and product of the operands' values, and raising a residue to any 64-bit exponent gives the product of that many copies (one for exponent zero); the modular power helper for plain integers does the same.",
  ["inputs"], "for all operands, exponents and moduli",
  "Tests sample a few dozen operand values under two or three moduli.",
  ["src/misc/modint.rs", "src/math/internal_math.rs"],
  [("core operations", "src/misc/modint.rs add_impl, sub_impl, neg_impl, mul_impl, pow"), ("square-and-multiply", "src/math/internal_math.rs pow_mod")])
p("C10", "Out-of-range positions and reversed ranges are refused",
  "Every operation that takes a position, or a range of positions, in a fixed-size container or table stops with a panic when a position lies outside the container or the range is reversed, in debug and optimised builds alike, and does so before changing anything; it never silently ignores the request, answers from padding, or answers for other positions.",
  ["inputs", "configurations"], "for every container size, position and range",
  "Existing tests only ever pass valid positions.",
  [DS + "segtree.rs", DS + "lazy_segtree.rs", DS + "fenwick_tree.rs", DS + "sparse_table.rs", DS + "union_find.rs", "src/math/factorial.rs", "src/graph/max_flow.rs"],
  [("argument assertions at each public entry point", "the files above")])
p("C11", "Union-find links representatives and keeps exact set sizes",
  "After any sequence of unions, two elements are in the same set exactly when some chain of performed unions connects them; a union reports whether it merged two different sets; the size reported for an element is the number of elements in its set; and the groups returned list every element exactly once, together with precisely the elements of its set.",
  ["inputs", "histories"], "for every sequence of union, find, size and group operations",
  "There is no test for this structure at all.",
  [DS + "union_find.rs"], [("parent and size arrays, path compression, union by size", DS + "union_find.rs")])
p("C12", "Range products of both segment trees cover the range once, in order",
  "A range product combines exactly the elements at positions l to r-1, each once and in increasing position order, with the caller's (possibly non-commutative) operation, for every container length and every range; the whole-array product does so for all elements, and an empty range gives the identity.",
  ["inputs", "configurations"], "for every length, range and associative operation",
  "The tests use maximum on one length: neither order nor multiplicity is observable with it.",
  [DS + "segtree.rs", DS + "lazy_segtree.rs"], [("bottom-up walk with a left and a right accumulator", "prod"), ("node aggregate of two children", "update")])
p("C13", "Pending range updates are never lost, misordered or bypassed",
  "In the lazy segment tree an update that has been recorded for a whole block but not yet handed down reaches every element of the block exactly once, in the order in which updates were issued even when they do not commute, before any element or partial aggregate of that block is read, overwritten or updated individually.",
  ["inputs", "histories"], "for every history of point and range updates and queries and every family of update maps",
  "The single test uses addition, which commutes with itself, on one length and one range update.",
  [DS + "lazy_segtree.rs"], [("push before descent, composition with the newer map outside", DS + "lazy_segtree.rs push, all_apply")])
p("C14", "Boundary searches on segment trees stop exactly at the boundary",
  "Starting from l, the rightward search returns an r such that the caller's predicate holds for the product of l..r, and either r is the end of the array or the predicate fails for the product of l..r+1; the leftward search is the mirror image. The products handed to the predicate are always ordered products of contiguous ranges anchored at the starting position.",
  ["inputs"], "for every length, starting position, operation and predicate that accepts the identity",
  "Tests use the maximum on one length and threshold predicates.",
  [DS + "segtree.rs", DS + "lazy_segtree.rs"], [("climb and descend searches", "max_right, min_left")])
p("C15", "Segment-tree updates refresh every aggregate that contains the change",
  "When a point or range update, or the construction from a list, returns, every internal aggregate equals the ordered combination of its two halves (with its own recorded update taken into account): no stale partial result can be observed by a later query.",
  ["inputs", "histories"], "for every history of updates and every length",
  "Tests issue a dozen updates on one length.",
  [DS + "segtree.rs", DS + "lazy_segtree.rs"], [("bottom-up recomputation after each write", "set, apply, apply_range, From<Vec>")])
p("C16", "Sparse-table answers cover exactly the queried range",
  "For every non-empty range within bounds, the answer is the combination of two precomputed blocks that lie inside the range and together cover it, and each precomputed block combines exactly the consecutive elements it stands for, in order; building the table works for every length including zero.",
  ["inputs"], "for every list, range and idempotent operation",
  "Tests use the minimum on two lists of fixed length and never an empty one.",
  [DS + "sparse_table.rs"], [("doubling construction and two-block query", DS + "sparse_table.rs")])
p("C17", "Fenwick-tree prefix sums and updates meet at the right nodes",
  "A prefix sum adds up exactly the first k elements, each once; a point addition reaches exactly the stored partial sums that contain the position; building from a list equals adding its elements one at a time; and the partition search on an array of any length, including zero, only ever tests true prefix sums; the search for a target asks of such a sum whether it is below the target.",
  ["inputs", "histories"], "for every length, position and history of additions",
  "The tests use lengths 5 only.",
  [DS + "fenwick_tree.rs"], [("low-bit chains", DS + "fenwick_tree.rs")])
p("C18", "Tree path and subtree operations address the same vertices",
  "In the heavy-light decomposition, updating a path and querying the same path touch the same positions; a path is walked by always lifting the end whose chain head is deeper, up to a final segment on one chain, covering each vertex of the path once; subtree update and query use the contiguous block of the subtree; and per-vertex reads and writes and initial values use the vertex's own position.",
  ["inputs"], "for every tree, root, pair of vertices and history",
  "There is no test for the graph modules.",
  ["src/graph/heavy_light_decomp.rs"], [("chain heads, positions, two traversals", "src/graph/heavy_light_decomp.rs")])
p("C19", "Max-flow keeps capacities and conservation",
  "Adding an edge records it together with an empty reverse edge; every unit pushed through an edge is taken from its remaining capacity and credited to its reverse, never more than what is left; and the value returned is exactly the total that was pushed out of the source.",
  ["inputs", "histories"], "for every network, capacity type and sequence of added edges and queries",
  "There is no test for the graph modules.",
  ["src/graph/max_flow.rs"], [("paired edge records", "src/graph/max_flow.rs add_edge, dfs"), ("level graph", "bfs")])
p("C20", "Bipartite matching stays a matching",
  "At all times the two sides' partner records mirror each other: a left vertex is recorded with a right vertex exactly when that right vertex is recorded with it, so no vertex is ever matched twice; only edges that were added are used, and the returned count is the number of matched left vertices.",
  ["inputs", "histories"], "for every bipartite graph and every sequence of added edges and solves",
  "There is no test for the graph modules.",
  ["src/graph/bipartite_matching.rs"], [("paired partner writes along an augmenting path", "src/graph/bipartite_matching.rs dfs")])
p("C21", "Graph searches enter each vertex at most once per pass",
  "Each search over a general graph (strongly connected components, level construction for flow, augmenting search for matching) enters a vertex only if it has not been entered in this pass and marks it before exploring from it, so that it terminates on every graph, including ones with cycles, loops and parallel edges; and each new pass starts from unmarked vertices.",
  ["inputs"], "for every graph",
  "There is no test for the graph modules.",
  ["src/graph/tarjan.rs", "src/graph/max_flow.rs", "src/graph/bipartite_matching.rs"],
  [("visited marks", "tarjan dfs, Dinic bfs, matching dfs")])
p("C22", "Shortest-path relaxation never loses an improvement",
  "Whenever a tentative distance of a vertex is recorded it is either the first one or smaller than the previous one, equals the settled distance of the other end plus the edge length, and is queued with exactly that value; the search starts from distance zero at the source only, always continues with the smallest queued distance, and a queued entry is skipped only if it is out of date.",
  ["inputs"], "for every non-negatively weighted graph and source",
  "There is no test for the graph modules.",
  ["src/graph/shortest_path.rs", DS + "min_heap.rs"], [("relax-and-push", "src/graph/shortest_path.rs dijkstra")])
p("C23", "Ancestor tables double and answer consistently",
  "The 2^k-th ancestor of every vertex is recorded as the 2^(k-1)-th ancestor of its 2^(k-1)-th ancestor, ancestor tests compare entry and exit times of a single traversal with half-open containment, the lowest-common-ancestor climb considers every power from the highest to the lowest, and the distance is the sum of the two depths minus twice that of the common ancestor.",
  ["inputs"], "for every tree, root and pair of vertices",
  "There is no test for the graph modules.",
  ["src/graph/binary_lifting.rs"], [("doubling table, entry and exit times", "src/graph/binary_lifting.rs")])
p("C24", "Factorial tables give exact binomials and permutations",
  "For a prime modulus larger than the table bound, the k-th entry is k factorial, the inverse table holds the inverses of the same entries, and the binomial and permutation counts are the textbook quotients of those entries, for all arguments within the table.",
  ["inputs", "configurations"], "for every bound, modulus and argument pair",
  "There is no test for this module.",
  ["src/math/factorial.rs"], [("two recurrences and two products", "src/math/factorial.rs")])
p("C25", "Multi-pattern matching reports the same occurrences through every query",
  "For distinct patterns, at each text position the list query reports every inserted pattern ending there, the count query counts the same occurrences, and the single-answer query reports the pattern stored at the reached state; all follow the same transitions; following output links only ever visits states at which a pattern ends, and terminates.",
  ["inputs"], "for every set of distinct non-empty patterns, text and alphabet",
  "There is no test for the string modules.",
  ["src/string/aho_corasick.rs"], [("trie, failure and output links", "src/string/aho_corasick.rs")])
p("C26", "The min-heap yields the smallest element first",
  "Peeking and popping return an element no larger than any other element of the heap, the popped element is the one peeked, elements are neither lost nor duplicated by pushing, popping and merging, the vector a heap is turned into holds all of its elements in order, and length and emptiness count the stored elements.",
  ["inputs", "histories"], "for every sequence of heap operations and element type",
  "There is no test for this structure.",
  [DS + "min_heap.rs"], [("order-reversing wrapper around the standard max-heap", DS + "min_heap.rs")])
p("C27", "Each input read consumes exactly the tokens it returns, in order",
  "Every single-value read consumes exactly one whitespace-separated token and returns it parsed as the type its name or type parameter says; reading n values consumes exactly n tokens in order; the checked read returns nothing only at the end of the input; no read skips or re-reads a token.",
  ["inputs", "histories"], "for every input text and sequence of reads",
  "There is no test for the input reader.",
  ["src/misc/input.rs"], [("token iterator", "src/misc/input.rs")])
p("C28", "The recursion helper forwards calls faithfully",
  "Calling a recursive-function object of any supported arity runs the stored closure exactly once, with the object itself and the given arguments in the given order, and returns exactly what the closure returned.",
  ["inputs", "programs"], "for every arity from zero to nine and every closure",
  "There is no test for this module.",
  ["src/misc/recursive_function.rs"], [("macro-generated call method per arity", "src/misc/recursive_function.rs")])
p("C29", "Valid calls never panic, whatever the size of the data",
  "Constructing and using the containers and sequence functions with any in-contract arguments, including empty inputs, length one, powers of two and ranges that touch either end, never ends in an index, arithmetic or unwrap panic.",
  ["inputs"], "for every length and every in-contract argument",
  "Tests use a few fixed, non-empty lengths.",
  [DS, "src/string/kmp.rs", "src/string/z_algorithm.rs", "src/misc/util.rs"], [("index arithmetic", "the files above")])
p("C30", "Modular helpers never overflow inside their documented ranges",
  "For arguments inside the documented ranges, no intermediate result of the modular multiplication, power and primality helpers and of residue arithmetic exceeds the type it is computed in.",
  ["inputs"], "for every argument in the documented ranges",
  "Overflow needs operands near the limits that the tests mostly do not use.",
  ["src/math/internal_math.rs", "src/misc/modint.rs"], [("widened intermediate types", "src/math/internal_math.rs, src/misc/modint.rs mul_impl")])
p("C31", "Every vertex gets exactly one component, numbered in completion order",
  "The strongly-connected-components search puts every vertex into exactly one component, gives components consecutive numbers from zero in the order in which they are completed, reports their number, and only vertices that are still unassigned influence which vertices are grouped.",
  ["inputs"], "for every directed graph",
  "There is no test for the graph modules.",
  ["src/graph/tarjan.rs"], [("stack discipline and low links", "src/graph/tarjan.rs")])
p("C32", "Prefix functions are exact",
  "For every sequence, including the empty one, the prefix function returns for each position the length of the longest proper border of the prefix that ends there, and the Z-function returns for each position after the first the length of the longest common prefix of the sequence and its suffix from there (zero at the first position); neither panics.",
  ["inputs"], "for every sequence over any comparable element type",
  "There is no test for the string modules.",
  ["src/string/kmp.rs", "src/string/z_algorithm.rs"], [("border chain and remembered stretch", "src/string")])
p("C33", "Divisors, Bezout coefficients, inverses and congruence systems are exact",
  "gcd returns the greatest common divisor (not negative when the arguments are not); lcm, for arguments that are not both zero and whose product fits, is the product over it; ex_gcd returns (x, y, g) with a x + b y = g and g that divisor; inv_gcd (b at least 1) returns g = gcd(a, b) and the x in [0, b/g) with x a congruent to g modulo b, so that a residue's inverse exists exactly when the gcd of value and modulus is one and is then the number that gives one when multiplied; safe_mod returns the congruent number in [0, m); ex_crt (coefficients not negative, moduli at least 1, products that fit) returns the smallest non-negative solution together with the exact distance of solutions, or None exactly when there is none.",
  ["inputs"], "for every argument in the stated ranges",
  "The tests sample a few argument pairs; number_theory's functions are tested on one or two inputs each.",
  ["src/math/number_theory.rs", "src/math/internal_math.rs", "src/misc/modint.rs"], [("Euclidean passes and solver steps", "src/math/number_theory.rs, src/math/internal_math.rs inv_gcd")])
# ------------------------------------------------- stated, not decided by static analysis
p("N01", "Shortest distances, maximum flow and maximum matching are optimal",
  "The distances returned are those of shortest paths, the flow value is maximum, and the matching has maximum size.",
  ["inputs"], "for every graph", "There is no test for the graph modules.",
  ["src/graph/shortest_path.rs", "src/graph/max_flow.rs", "src/graph/bipartite_matching.rs"], [("the three algorithms", "src/graph")])
p("N02", "Primality and primitive roots are exact",
  "The primality test is exact for all 32-bit integers and the primitive root generates the whole group of a prime modulus.",
  ["inputs"], "for every argument", "The tests sample.",
  ["src/math/internal_math.rs"], [("number-theoretic algorithms", "src/math/internal_math.rs")])
p("N04", "Operations meet their stated complexity",
  "Every operation runs in the time its documentation states (logarithmic tree operations, linear construction, near-constant union-find).",
  ["inputs"], "for every size", "Tests are tiny.",
  ["src/"], [("balanced structures", "src/")])
