"""Technique and level note per check (used by mkmanifest)."""
AI = 'abstract interpretation of MIR'
TECH = {
 'C04': (AI + ' (symbolic terms, per primitive type)', 'all twelve integer types, four monoids; values on every path, panics only where the result is not representable'),
 'C26': (AI + ' with a multiset model of the heap', 'every exported function on every path; order wrapper, conservation of elements, agreement of peek and pop'),
 'C05': (AI + ' (symbolic terms, per primitive type)', 'twelve integer types, every conversion entry point; result compared with the Euclidean remainder of the full-width value'),
 'C06': (AI + ' (relational numeric domain)', 'every function that produces or passes on a residue, both residue kinds, symbolic modulus and modulus one; equality, hash and print of the canonical value'),
 'C07': (AI + ' (sibling comparison of symbolic results)', 'every operator impl of both residue kinds against the one core operation; folds as left folds'),
 'C08': (AI + ' (state of the modulus cell)', 'set_modulus on every path, the cell compared with what its constructor builds; every other exported operation leaves the cell alone; each identity has its own static'),
 'C09': (AI + ' (congruence and power domains)', 'add, sub, neg, mul of both residue kinds and every power function, all exponents; loop invariant on the exponents'),
 'C10': (AI + ' (symbolic container shapes)', 'every operation that takes positions, both build configurations, every constructor case; panics on every out-of-range path, receiver unchanged'),
 'C24': (AI + ' (inductive element invariants over products of factorials)', 'every table entry for every bound by loop induction, both query functions for all arguments within the table'),
 'C13': (AI + ' (segment domain with pending maps as ordered actions, tree descent by loop induction)', 'push before every read, write or update of a node below a pending one; composition order; every function of the lazy tree that touches the node table'),
 'C14': (AI + ' (segment domain over leaf positions with uninterpreted first-leaf/end-leaf functions)', 'both boundary searches of both trees for every size, start and predicate by loop induction'),
 'C22': (AI + ' (path-sensitive relaxation rules over symbolic adjacency lists, distance table and queue)', 'every path of the loop bodies for every graph; path lengths are assumed to fit'),
'C21': (AI + ' (contract of the recursive and queue-based searches by elimination, marking rules per path)', 'every path of the three searches and of the functions that start their passes, for every graph; nested searches under their own contract, the flow search at capacity type i64'),
     'C31': (AI + ' (contract of the recursive search by elimination, stack, flag and component accounting per path)', 'every path of the search, of the loop that closes a component and of the pass that numbers them, for every graph; nested searches under their own contract'),
    'C11': (AI + ' (find under its own contract, the other methods with find replaced by that contract and a ghost table of roots)', 'every path of the six methods, for every number of elements and every forest'),
    'C19': (AI + ' (contract of the pushing search by induction, per-cell accounting of capacities and of the amount)', 'every path of add_edge, of the search and of the rounds, for every network; a signed and an unsigned capacity type'),
    'C23': (AI + ' (the search under its own contract; the queries as formulas over the tables)', 'every path of from, dfs, is_ancestor, lca and dis, for every tree and every root'),
    'C25': (AI + ' (trie, links and queries, one pass at a time)', 'every path of insert, build, find, find_all, find_cnt, from and new, for every set of distinct patterns and every text'),
    'C18': (AI + ' (the two searches under their contracts; the walks one pass at a time over abstract tables)', 'every path of new, with_init_value, both searches, apply_path, path_prod, apply_subtree, subtree_prod, get and set, for every tree, root and pair of vertices'),
    'C32': (AI + ' (border chain and Z stretch as invariants of a pass)', 'every path of one pass of kmp and z_function and of the loops inside them, for every sequence'),
    'C33': (AI + ' (determinant and congruence invariants of a pass)', "every path of gcd, lcm, ex_gcd, inv_gcd, safe_mod, ex_crt and the residues' inv, with quotients as opaque integers"),
    'C20': (AI + ' (contract of the recursive search by elimination, pairing rules per path)', 'every path of the search and of the pass that starts searches, for every graph and every earlier state of the partner tables; nested searches under their own contract'),
 'C16': (AI + ' (segment domain, inductive element invariants over the rows)', 'every block of every row for every length by nested loop induction, every range of the query, both build configurations'),
 'C17': (AI + ' (segment domain, inductive hypotheses on the node walks)', 'prefix sums, updates, building and the partition search for every length and position by loop induction, both build configurations'),
 'C12': (AI + ' (segment domain over tree nodes)', 'range products of both segment trees for every size and range: order and exact cover by loop induction; element reads and reads of the whole'),
 'C15': (AI + ' (segment domain over tree nodes, ordered update events)', 'refresh step, construction, point and range updates of both segment trees for every size, position and range by loop induction'),
}
