#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L="include/linalg/"; H="include/homology/"; X="include/complex/"; T="include/topology/"; R="include/persistence/"

prop("C01","Coefficient types obey field arithmetic exactly",
 "Values of the prime fields F2, F3, F5, ... and of the rationals behave as exact field elements: construction from any machine integer gives its residue (or its value), and +, -, *, /, negation, inverse, the compound-assignment forms, comparison with plain integers and with each other, ordering, conversion to integers and printing agree with exact arithmetic as long as no intermediate overflows the underlying integer type. A rational is always in lowest terms with a positive denominator, however it was produced.",
 ["inputs"],"all field elements, all integer operands (negative, beyond the modulus, near the type limits), all operator chains",
 "the tests enumerate a few residues of small primes; negative and far-out-of-range integers, long operator chains and mixed-type operators are not sampled",
 [L+"field.hpp"],[("residue normalisation and inverse table","include/linalg/field.hpp ModP"),("gcd normalisation","include/linalg/field.hpp Rational")])
prop("C02","Sparse vectors are exact and canonical under every operation",
 "A sparse vector (with coefficients, or the set representation used for F2) denotes a mathematical vector: after any history of construction, axpy (full, scaled, index-ranged), scaling, permutation, swaps, insertions, deletions, index shifts, block access, kronecker/inner products and queries, its contents equal those of a dense model. Its stored form stays canonical, with strictly increasing indices and no stored zero, and queries (value at an index, first/last nonzero, lower bound, pivot, sorted-ness, equality) answer for that vector.",
 ["histories","inputs"],"all sequences of mutations on vectors over any field and any sparsity pattern, including empty vectors, disjoint or nested supports and full cancellation",
 "tests apply each operation to one or two fixed vectors; cancellation, empty operands and operation sequences are unexplored",
 [L+"sparse_vector.hpp",L+"set_vector.hpp",L+"abstract_vector.hpp"],[("merge of sorted index lists","include/linalg/sparse_vector.hpp axpy"),("symmetric difference","include/linalg/set_vector.hpp axpy")])
prop("C03","Sparse matrix algebra equals dense algebra",
 "Sparse column matrices and CSC matrices represent exact matrices: products, sums, differences, scalar multiples, matrix-vector products, transposes and anti-transposes, block get/set, concatenation, row/column permutation, swaps, row additions, Schur complements of an entry, insertion, deletion and appending, dense conversion, comparison, and the structural predicates (zero, identity, diagonal, triangular, reduced, pivot-matrix shape, nonzero count) give what dense arithmetic gives, for rectangular and empty shapes and for every field.",
 ["inputs","histories"],"all shapes including zero rows/columns, all sparsity patterns, all fields, sequences of in-place operations",
 "tests use fixed small square matrices and a fixed random seed, and never check a history of in-place updates against an independent dense model",
 [L+"col_matrix.hpp",L+"csc_matrix.hpp",L+"abstract_matrix.hpp"],[("column-wise operations","include/linalg/col_matrix.hpp ColumnMatrix"),("compressed storage","include/linalg/csc_matrix.hpp CSCMatrix")])
prop("C04","Triangular solves, inverses and matrix factorisations are exact",
 "Forward/backward substitution, triangular inverses and the LEUP, PLEU, UELP, PUEL, LQU and UQL factorisations satisfy their defining equations exactly: the factors multiply back to the input and have the advertised shapes (unit-lower, upper, permutation, pivot matrix with at most one unit per row and column), so that ranks read from them are the true rank. Moving a pivot matrix past a triangular factor (the E-L and U-E commutations) keeps the product equal.",
 ["inputs"],"all matrices of any shape and rank (including zero, singular, wide and tall) over any field; all nonsingular triangular systems",
 "tests run a handful of fixed and seeded-random square matrices over two fields",
 [L+"sparse_fact.hpp",L+"col_matrix.hpp"],[("elimination with pivot matrices","include/linalg/sparse_fact.hpp"),("substitution","include/linalg/col_matrix.hpp l_solve, u_solve, u_inv, l_inv")])
prop("C05","Polynomial, Smith and rational canonical forms are correct",
 "Univariate polynomials over a field satisfy the ring laws, division with remainder returns quotient and remainder with degree below the divisor, and gcd and extended gcd return a common divisor together with a valid combination. Smith normal forms (of integer and of polynomial matrices) terminate and give a diagonal divisibility chain related to the input by the returned invertible factors, and characteristic matrices, companion matrices and the rational canonical form of a square matrix have the same invariant factors as that matrix.",
 ["inputs"],"all polynomials, all integer or polynomial matrices of any shape, all square matrices over a field",
 "tests factor a few fixed matrices; termination and the divisibility chain over all inputs cannot be sampled that way",
 [L+"polynomial.hpp",L+"pid.hpp",L+"rcf.hpp",L+"naive_dense.hpp"],[("extended Euclid row and column operations","include/linalg/pid.hpp"),("divided remainder","include/linalg/polynomial.hpp")])
prop("C06","Permutation and sorted-set utilities satisfy their contracts",
 "Permutation application, composition, inversion, sorting permutations (stable, with an argument order) and partial permutations satisfy their algebra: applying a permutation then its inverse is the identity, and a sort permutation sorts. Sorted-sequence helpers (intersection, union, difference, bounded searches), the trie and simplex containers and the in-place set operations agree with the standard set model and never touch memory outside their operands.",
 ["inputs","histories"],"all permutations and index lists, all sorted ranges including empty and disjoint ones, all insert/lookup/copy histories",
 "tests cover two or three literal arrays",
 ["include/util/permutation.hpp","include/util/sorted.hpp","include/util/set.hpp","include/util/trie.hpp","include/util/simplex.hpp"],[("in-place cycle permutation","include/util/permutation.hpp"),("merge-based intersections","include/util/sorted.hpp"),("sparse trie","include/util/trie.hpp")])
prop("C07","Simplicial complexes stay closed, indexed and have boundary squared zero",
 "Both simplicial complex representations, after any order of single or recursive simplex insertions, contain exactly the downward-closed set of inserted simplices, number the cells of each dimension consecutively without duplicates, find every member by its vertices and do not find non-members; the trie-based representation also refuses a simplex whose faces are missing. Their boundary matrices are the alternating-sign boundary (so consecutive boundaries compose to zero over every field), and the two representations built from the same insertions describe the same complex (whatever integer type wide enough for the keys indexes the compact one), as do unions, intersections and skeletons.",
 ["histories","inputs"],"all insertion orders of all simplices on a bounded vertex set, with repeated, unsorted and missing-face insertions",
 "tests build a triangle or a tetrahedron in one order",
 [X+"simplicial_complex.hpp",X+"light_simplicial_complex.hpp",X+"abstract_complex.hpp","include/util/trie.hpp"],[("trie index of simplices","include/complex/simplicial_complex.hpp add_unsafe"),("combinatorial key","include/complex/light_simplicial_complex.hpp simplex_key")],
 obs=["ncells","find_idx","boundary_csc","get_simplices"])
prop("C08","Cubical and general cell complexes have consistent cells and boundaries",
 "Cubical complexes, after any order of single or recursive cube insertions or from a toplex list, contain exactly the downward-closed set of inserted cubes with consistent numbering and lookup, and their boundary matrices are the signed cubical boundary, composing to zero. Cell complexes report exactly the cells and boundaries they were given.",
 ["histories","inputs"],"all insertion orders of all cubes in grids of any ambient dimension, all cell complexes with valid boundaries",
 "tests build one or two cubes",
 [X+"cubical_complex.hpp",X+"cell_complex.hpp"],[("trie lookup of cube faces","include/complex/cubical_complex.hpp"),("stored boundary columns","include/complex/cell_complex.hpp")])
prop("C09","Simplicial, cubical and cell maps induce functorial chain maps",
 "The chain-level matrix of a simplicial map (with the sign of vertex reorderings and zero on collapsed simplices), of a cubical or simplicial inclusion, and of a valid cell map commutes with the boundary operators of source and target. It respects identity and composition, and inclusions send each cell to itself.",
 ["inputs"],"all vertex maps that are simplicial between all complexes, all inclusions, all composable pairs, over every field including odd characteristic",
 "tests check one inclusion and one identity, mostly over F2 where signs vanish",
 [X+"simplicial_map.hpp",X+"cubical_map.hpp",X+"cell_map.hpp","include/chain/chain_map.hpp"],[("sorted image with permutation sign","include/complex/simplicial_map.hpp"),("column extraction","include/chain/chain_map.hpp")])
prop("C10","Homology ranks and reduction invariants hold for every algorithm flag",
 "For any chain complex over any field, every combination of algorithm flags (standard or extra reduction, clearing, compression, with or without basis, divide and conquer) yields the same true Betti numbers at every dimension. When a basis is requested, the boundary times the basis equals the reduced matrix, the basis is invertible and upper triangular in filtration order, the reduced matrix has distinct pivots, and columns of the basis flagged as representatives are cycles independent modulo boundaries.",
 ["inputs","configurations"],"all chain complexes (from complexes and abstract ones with boundary squared zero), all fields, every flag combination",
 "tests compare Betti numbers of a few standard spaces for some flags",
 [H+"reduction.hpp",H+"basis.hpp",H+"parallel.hpp","include/chain/chain_complex.hpp","include/chain.hpp"],[("pivot table p2c","include/homology/reduction.hpp"),("clearing and compression","include/homology/basis.hpp")],
 state=[("p2c","row pivot to column map","include/homology/basis.hpp"),("I","columns that represent homology classes","include/homology/basis.hpp")])
prop("C11","Homology classes, preferred representatives and induced maps are canonical",
 "Expressing a cycle in the computed homology basis, taking preferred representatives and converting between chain and homology coordinates depend only on the homology class: two cycles differing by a boundary get equal coordinates, boundaries get zero, and a preferred representative is homologous to its input. The map induced on homology by any chain map equals the true linear map of classes, is functorial under composition, and is the identity for the identity map.",
 ["inputs","configurations"],"all cycles, all chain maps between all complexes over every field and reduction flag",
 "tests check a few induced maps between standard spaces by rank or by a literal",
 [H+"basis.hpp",H+"induced_map.hpp","include/chain/chain_map.hpp",H+"dgbasis.hpp"],[("reduction against boundaries","include/homology/basis.hpp to_hom_basis, find_preferred_representative"),("hom(F, C, D, k)","include/homology/induced_map.hpp")])
prop("C12","Homology and cohomology agree through differential graded spaces",
 "For any complex over any field, the differential graded vector space of degree -1 has the homology of the complex and that of degree +1 (its dual) has the same ranks dimension by dimension, for every reduction flag, with the reduction invariants holding for both degrees. Chain maps between them and their induced maps have the same ranks as the homology maps. Reordering the basis of one dimension reorders the maps into and out of it, and chain maps along with them, by that permutation.",
 ["inputs","configurations"],"all complexes, fields, degrees and flags",
 "tests compare a handful of complexes",
 ["include/dgvs/dgvs.hpp","include/dgvs/dgmap.hpp",H+"dgbasis.hpp",H+"cohom_basis.hpp"],[("degree-shifted differential storage","include/dgvs/dgvs.hpp"),("reduction in either direction","include/homology/dgbasis.hpp")])
prop("C13","Persistence barcodes are the unique barcode of the filtration",
 "For any filtered complex over any field and every algorithm flag, the reported persistence pairs form the unique interval decomposition: each cell is used exactly once as a birth or a death, births never exceed deaths, the multiset of (dimension, birth, death) equals that of the textbook reduction, and the birth and death indices refer to cells with exactly those filtration values. Persistent cohomology, Betti curves derived from it and representatives (cycles born with the birth cell; at every value those of the living bars are a basis of homology) agree with it.",
 ["inputs","configurations"],"all filtered complexes including ties, values out of insertion order, negative and infinite values; all flags; all fields; homology and cohomology",
 "tests compare a few small filtrations and some flags with each other, not with an independent reference",
 [R+"filtered_basis.hpp",R+"filtered_dgbasis.hpp",R+"filtration.hpp",R+"barcode.hpp","include/filtration/filtration.hpp","include/chain/filtered_chain_complex.hpp","include/dgvs/filtered_dgvs.hpp"],[("sort permutation by value","include/chain/filtered_chain_complex.hpp"),("pivot pairing","include/persistence/filtered_basis.hpp persistence_pairs")])
prop("C14","Updating a filtration equals recomputing from scratch",
 "After any sequence of filtration updates on the same underlying complex (value changes, with or without a change in the order of cells), the updated reduced filtered complex reports the same barcode as a fresh reduction with the latest values. It also keeps the reduction invariants (boundary times basis equals reduced matrix in the current order), so that later updates and representatives stay correct.",
 ["histories","inputs"],"all sequences of filtration functions on all complexes, including ties, reversals and repeated updates, for every supported flag",
 "tests update once between two fixed filtrations",
 [R+"filtered_basis.hpp",H+"basis.hpp",R+"filtered_dgbasis.hpp",H+"dgbasis.hpp"],[("permute then re-reduce","include/homology/basis.hpp permute_matrices, update_reduction"),("LQU correction of the basis","include/homology/basis.hpp")])
prop("C15","Adding and deleting cells incrementally equals recomputing from scratch",
 "Given the update information between two filtered complexes on arbitrary cell sets (cells added, deleted, reordered and re-valued), applying the general update to the reduced first complex yields the same barcode and the same reduction invariants over F2 as reducing the second from scratch. This holds along any sequence of such updates, of all kinds and mixed with changes of values, for homology and cohomology; handing the current order to the update information again changes nothing, and its printed account names every simplex that leaves, comes or stays with its places in the two filtered orders.",
 ["histories","inputs"],"all pairs and sequences of filtered complexes (insertions, deletions, permutations, in any mixture, including empty changes)",
 "tests compare one or two fixed Rips/flag updates",
 ["include/filtration/update_information.hpp",H+"basis.hpp",H+"dgbasis.hpp",R+"filtered_basis.hpp"],[("addition/deletion/permutation index lists","include/filtration/update_information.hpp"),("update_basis_general","include/homology/basis.hpp, include/homology/dgbasis.hpp")])
prop("C16","Rips, flag and lower-star filtrations contain what their definitions say",
 "A Rips or flag construction at threshold r and top dimension d contains exactly the cliques of at most d+1 vertices whose edges are all within r, each valued at its largest edge (vertices at zero), on points or distance matrices, in the simplicial and the light representation. A lower-star extension gives every cell of a simplicial or cubical complex the maximum over its vertices (and names the vertex attaining it), and every filtration is monotone: no cell precedes its faces.",
 ["inputs"],"all finite metric inputs, thresholds (including none, zero and infinite), dimensions from zero up, all vertex functions",
 "tests build one tiny Rips complex",
 [T+"rips.hpp",T+"flag.hpp","include/filtration/flag.hpp","include/filtration/rips.hpp","include/filtration/star.hpp","include/filtration/extension.hpp","include/filtration/filtration.hpp"],[("incremental flag expansion","include/filtration/flag.hpp"),("edge enumeration","include/filtration/rips.hpp, include/topology/rips.hpp")])
prop("C17","Union-find dimension-zero persistence agrees with matrix reduction",
 "The specialised union-find computation of zero-dimensional persistence pairs, on any graph filtration or Rips input, gives the same multiset of (birth, death) values as the general reduction, with the elder rule deciding which component dies and infinite bars exactly for the components that never merge. A Morse pairing offered the edges in filtration order makes the same pairs, again after being cleared, and one built by adding cells is a matching of faces with cofaces whose unpaired cells have the Euler characteristic of the complex.",
 ["inputs"],"all weighted graphs with vertex and edge values, with ties and in any storage order",
 "the tests never compare it with the general algorithm on random inputs",
 [R+"union_find.hpp","include/morse/pairing.hpp"],[("union-find with elder rule","include/persistence/union_find.hpp")])
prop("C18","Zigzag barcodes equal the interval decomposition of the zigzag module",
 "For any right-filtered zigzag complex (cells entering and leaving any number of times, closed entry/exit convention included) over any field and any algorithm flag, the zigzag barcode is the unique interval decomposition of its homology: for every pair of levels the number of bars covering both equals the rank of the zigzag relation between them. Degenerate inputs such as an ordinary filtration reduce to the persistence barcode.",
 ["inputs","histories","configurations"],"all valid histories of cell insertions and removals (with repeated lifetimes) of any complex, all fields and flags",
 "tests cover a few hand-made zigzags and compare literal bar counts",
 ["include/zigzag/zigzag_filtration.hpp","include/zigzag/reduction.hpp","include/zigzag/extension.hpp"],[("right filtration with repeated columns","include/zigzag/zigzag_filtration.hpp"),("in-place barcode reduction","include/zigzag/reduction.hpp")])
prop("C19","Quiver barcode algorithms give the unique interval decomposition",
 "For any type-A quiver representation (any arrow directions, any dimensions, over any field) the forward, backward and divide-and-conquer sequential and parallel algorithms return the same multiset of bars: the one in which, for every a <= b, the bars containing both number the rank of the composed linear relation from a to b. The forms the library returns with the barcode are pivot matrices, and the representation they make up is isomorphic to the original.",
 ["inputs","configurations","schedules"],"all arrow orientations, dimensions including zero, ranks, fields, algorithms and thread counts",
 "tests use a few fixed diagrams and compare algorithms with each other",
 ["include/quiver/sparse.hpp",L+"sparse_fact.hpp"],[("pivot passing with LEUP/UELP style factorisations","include/quiver/sparse.hpp"),("divide and conquer","include/quiver/sparse.hpp")])
prop("C20","Diagrams of spaces map functorially to diagrams of chains and homology",
 "Applying the Chain, Hom and Rips/set functors to a diagram keeps its shape: node and edge counts, sources and targets are preserved, node objects are those of the source nodes and edge maps are the induced maps of the source edges. The zigzag of homology obtained by this route has the same barcode as computed from the definition, whichever thread count and integer type of the dimension is used. The Morozov and oscillating Rips zigzags consist of the landmark prefixes, their unions and the radii of their definition.",
 ["inputs","schedules"],"all diagrams of complexes and simplicial maps with any arrow directions, all fields and thread counts",
 "tests build one or two diagrams of fixed spaces",
 ["include/multigraph/diagram.hpp","include/multigraph/functors.hpp","include/multigraph/multigraph.hpp",T+"rips.hpp",T+"nerve.hpp",T+"zigzag_zoo.hpp"],[("node-wise and edge-wise application","include/multigraph/functors.hpp")])
prop("C21","Metric, neighbour, landmark, cover and nerve constructions meet definitions",
 "Metrics return their distance function exactly for single, batched and indexed evaluation; neighbourhood queries return exactly the k nearest points or those closer than the radius (those up to it when taken from a matrix of distances; likewise filtrations are open and complexes closed at their threshold); greedy landmarks are farthest-point sequences with correct insertion radii; covers cover, and bivariate covers, nerves, Dowker and witness constructions contain exactly the simplices and values of their definitions. Generated data sets lie on their spaces, and random ones have the mean and spread of their distribution.",
 ["inputs","schedules"],"all finite point sets, dimensions, metrics, parameters and covers, including ties, duplicates and single points",
 "tests do not exercise most of these constructions at all",
 [T+"metric.hpp",T+"neighborhood.hpp",T+"landmark.hpp",T+"cover.hpp",T+"nerve.hpp",T+"dowker.hpp",T+"dowker_cover.hpp",T+"data.hpp",T+"data_gen.hpp",T+"inclusion.hpp",T+"spherical.hpp",T+"extras.hpp",T+"rips_cover.hpp"],[("pairwise evaluation","include/topology/metric.hpp"),("max-min selection","include/topology/landmark.hpp"),("sorted intersections","include/topology/nerve.hpp, include/topology/dowker.hpp")])
prop("C22","Products, relative complexes and Mayer-Vietoris are chain-level correct",
 "The triangulated product of two simplicial complexes on vertices 0..n-1 truncated at dimension k is exactly the set of chains of the product order inside products of simplices whose dimensions sum to at most k (vertex (x,y) is x + n*y); the tensor product of chain complexes has the boundary of its definition in the stated block order; both obey the Kunneth count, and products of homology classes form a basis of the homology of the tensor product. The Eilenberg-Zilber map sends each pair of simplices to the signed sum of its staircases, commutes with the boundaries in every characteristic and is an isomorphism on homology below the truncation, absolutely and relative to subcomplexes. Reordering the bases of a chain complex conjugates its boundaries by the stated permutations, chain maps follow the same permutations on either side, and the subcomplex on chosen cells has their boundaries. Relative chain complexes are the quotient complexes and their homology is the one the long exact sequence of the pair demands. The Mayer-Vietoris boundary sends simplices of A to the part of their boundary in the intersection and all others to zero; it carries cycles to cycles and on homology has the rank exactness demands.",
 ["inputs"],"all pairs of small complexes and pairs (X, A), whatever the order of their cells, all fields, all truncation dimensions",
 "tests check one product",
 [T+"eilenberg_zilber.hpp",T+"mayer_vietoris.hpp","include/chain/chain_complex.hpp",X+"simplicial_complex.hpp"],[("shuffle enumeration","include/topology/eilenberg_zilber.hpp"),("row and column restriction","include/chain/chain_complex.hpp"),("block assembly","include/chain/chain_complex.hpp tensor_product")])
prop("C23","Saved objects load back equal",
 "Every object that can be written and read back (sparse vectors, column matrices, simplicial complexes, cellular maps, diagrams of these; point clouds from comma-separated files, one point on each line) is equal to the original after a save and load through a file or a string form, with all values, indices and vertex labels whatever their size, for int, F_p, rational and double entries and for empty objects, and stays usable like the original. Loading does not depend on what the destination held, a missing file gives an empty object, malformed point clouds are refused or read without stray memory accesses, and a command-line option written name=value gives the value of its first exact match, or the default.",
 ["inputs"],"all objects of each kind, including empty dimensions, negative and fractional coefficients",
 "tests save and reload one or two literals",
 [L+"sparse_vector.hpp",L+"col_matrix.hpp",X+"simplicial_complex.hpp",X+"cubical_complex.hpp",X+"cell_complex.hpp",X+"cell_map.hpp","include/multigraph/diagram.hpp",T+"data.hpp","include/util/io.hpp"],[("line-oriented text formats","save/load members")])
prop("C24","Parallel regions are race-free and results do not depend on the thread count",
 "Every OpenMP-parallel entry point (metrics and neighbourhoods, landmark selection, Rips and witness constructions, functors on diagrams, parallel homology and quiver reduction, parallel filtered reductions) performs no conflicting unsynchronised memory accesses. It returns the same result for every thread count and schedule.",
 ["schedules","inputs","configurations"],"all thread counts from one up, all loop schedules and interleavings, all valid inputs of those entry points",
 "the tests run with whatever schedule happens and no race detector; a lost update is rare and usually invisible",
 [T+"metric.hpp",T+"neighborhood.hpp",T+"landmark.hpp",T+"rips.hpp",T+"dowker.hpp","include/multigraph/functors.hpp","include/quiver/sparse.hpp",H+"parallel.hpp"],[("disjoint writes per iteration","omp parallel for bodies"),("critical sections","omp critical"),("task recursion","include/homology/dgvs_reduction.hpp, include/quiver/sparse.hpp")])
prop("C25","Object lifecycles and edge inputs are memory-safe",
 "Copying, moving, assigning, swapping, resizing, clearing and self-assigning any container or complex of the library, in any order and at any size including zero, neither reads nor writes outside live storage, double-frees, uses an object after its end nor computes with uninitialised values. Copies are independent of their originals and equal to them, and a moved-to object equals the moved-from original. (Dense Matrix and DataSet handles share storage by design, MultiGraph stores pointers into its own nodes, and assigning a trie from its own descendant is not supported; these are outside.)",
 ["histories","inputs"],"all sequences of lifecycle operations on all library value types, all empty and boundary-size inputs",
 "tests run without sanitizers and almost never copy, move or reuse objects",
 ["include/util/trie.hpp",L+"sparse_vector.hpp",L+"col_matrix.hpp",L+"csc_matrix.hpp",X+"simplicial_complex.hpp",X+"light_simplicial_complex.hpp",X+"cubical_complex.hpp","include/multigraph/diagram.hpp"],[("owning child pointers","include/util/trie.hpp"),("value semantics of members","class definitions")])
prop("C26","Grid, levelset and image constructions build the stated (zigzag) complexes",
 "Freudenthal triangulations and grid cubulations have the cells of the grid; lower-star, levelset and image-derived zigzag filtrations assign every cell the value or the lifetime interval its definition states, and a levelset complex over an interval contains exactly the cells whose lifetimes meet it. The zigzag of thickened levelsets consists of these complexes and their inclusions.",
 ["inputs"],"all grid sizes in one to three dimensions, all (positive, negative, tied) pixel or vertex values, all level intervals",
 "tests run one image-like example",
 [T+"grid.hpp",T+"levelset.hpp",T+"zigzag_zoo.hpp","include/zigzag/extension.hpp","include/filtration/extension.hpp"],[("cell enumeration of the grid","include/topology/grid.hpp"),("value extension to cells","include/zigzag/extension.hpp")])
prop("C27","Dense matrices, spans and their factorisations are exact",
 "Dense matrices in any memory layout (row or column major, plain or reversed; the matrices of future.hpp) agree entrywise with the matrix they represent under access, row and column views, copies, transposes and reversals, elementary operations, products in place or not, and appending or deleting columns. LEUP, PLEU, UELP, PUEL and LU factorisations multiply back to the matrix with factors of the stated shape and as many pivots as its rank; commuting past a pivot matrix, triangular solves and residuals are exact; a Span contains exactly the vectors in the span of those added; similarity transforms keep S*A*Sinv equal to the original; composite permutations apply their swaps in order; a range lists begin, begin+stride, ... up to its end.",
 ["inputs","histories"],"all shapes, ranks and fields, all memory layouts of each operand, all sequences of elementary operations",
 "tests multiply and factor a few fixed matrices in one layout; rectangular, rank-deficient and non-involutive cases and the layouts of the operands are unexplored",
 [L+"naive_dense.hpp","include/future/dense.hpp","include/future/lu.hpp","include/future/span.hpp","include/future/similarity.hpp","include/future/permutation.hpp"],[("strided iterators over rows and columns","include/future/dense.hpp"),("pivoted elimination","include/future/lu.hpp LU; include/linalg/naive_dense.hpp LEUP_fact")])
prop("C28","On large inputs all routes to a barcode agree and its theorems hold",
 "For filtrations far beyond hand size (up to several thousand cells: Rips filtrations, flag complexes, lower-star functions on triangulated surfaces) every way the library offers to compute the barcode gives the same bars of nonzero length: plain, extra and divide-and-conquer reduction, with or without clearing, compression and basis, chain and DG homology and cohomology, union-find for components, update from another filtration, the zigzag whose cells leave together, and the diagram of sublevel complexes. The barcode does not depend on vertex labels or on the order of entry, follows increasing changes of value, adds over disjoint unions, is trivial for a cone, shifts a dimension under suspension, survives expansions and barycentric subdivision, is cut by stopping early, sums to the Euler characteristic of every sublevel set, moves by no more than the values do (bottleneck stability), and on a closed manifold is mirrored by the negated function. Zigzag barcodes give the Betti number of every level and reverse with time. Triangulated grids, spheres and circles have their known Betti numbers under every reduction.",
 ["inputs","configurations","histories","schedules"],"all filtrations large enough that matrices fill in, containers reallocate and recursive algorithms split, under every algorithm and option",
 "tests compare a few options on one small random filtration; no test checks a theorem across inputs",
 ["include/homology/","include/persistence/","include/zigzag/","include/quiver/","include/multigraph/","include/filtration/","include/complex/"],[("reduction algorithms and options","include/homology/reduction.hpp"),("pairs of reduced filtered objects","include/persistence/filtered_basis.hpp; include/persistence/filtered_dgbasis.hpp"),("zigzag reduction","include/zigzag/reduction.hpp")])
prop("C29","A program of several translation units works as one of a single unit",
 "Any number of translation units of a program may include the library (bats.hpp, future.hpp, util/io.hpp); the program links, the same call with the same arguments gives the same result in every unit and every time, and objects made in one unit (complexes, filtrations, maps, diagrams) can be read, changed and copied in another with the results they have in their own.",
 ["configurations","inputs","histories"],"all programs made of several units, all objects passed between them",
 "every test is a program of one unit, so what only a second unit brings out is never executed",
 ["include/"],[("non-template functions defined in headers","include/util/permutation.hpp; include/topology/grid.hpp; include/topology/nerve.hpp; include/zigzag/zigzag_filtration.hpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
