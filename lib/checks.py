"""Which programs decide which property."""
def P(src, defs=(), **kw):
    d = dict(src=src, defs=list(defs)); d.update(kw); return d
def fields(src, fs=(2, 3, 5, 0), **kw):
    return [P(src, ["FIELD=%d" % f], **kw) for f in fs]

CHECKS = {
 "C01": dict(programs=fields("c01_field.cpp", (2, 3, 5, 7, 101, 0), shards=2),
   rule="random and extreme integers, residue pairs and operator chains per field; a case is non-trivial and distinct by its operands"),
 "C02": dict(programs=fields("c02_vec.cpp", (2, 3, 5, 0), shards=4),
   rule="random operation histories on vectors of length 0..30 against a dense model, all densities; distinct by start vector and operation list"),
 "C03": dict(programs=fields("c03_mat.cpp", (2, 3, 5, 0), shards=4),
   rule="random matrices of every shape 0..7 (histories to 14) and density against dense matrices; distinct by operands and operation list"),
 "C04": dict(programs=fields("c04_fact.cpp", (2, 3, 5, 0), shards=4),
   rule="random matrices 0..9 x 0..9 of every rank (sparse, dense, repeated and zero rows/columns), nonsingular triangular systems and pivot matrices; distinct by operands"),
 "C05": dict(programs=fields("c05_pid.cpp", (2, 3, 5, 0), shards=4, cpu=10),
   rule="random polynomials to degree 7 (with common factors), polynomial and integer matrices to 4x4 (with equal and associate entries), square matrices to 5x5 (nilpotent, scalar, permutation-like, dense); distinct by operands"),
 "C06": dict(programs=[P("c06_util.cpp", shards=4)],
   rule="random permutations to length 60, key lists with ties, sorted sets (empty, disjoint, nested) with exact-size storage, trie histories with copies and moves; distinct by operands"),
 "C07": dict(programs=fields("c07_simp.cpp", (3,), shards=8),
   rule="random insertion histories (single, recursive, by key, shuffled vertices, missing faces, non-members) on 1..9 vertices to dimension 4, known spaces, random linear extensions, set operations; distinct by the history"),
 "C08": dict(programs=fields("c08_cube.cpp", (3,), shards=8),
   rule="random cube insertion histories (single, recursive, invalid, missing faces) in ambient dimension 1..4, toplex lists, skeleta, cube files; random attaching data of cell complexes; distinct by the history"),
 "C09": dict(programs=fields("c09_map.cpp", (2, 3, 0), shards=4),
   rule="random vertex maps between random and known complexes (both representations), their compositions, subcomplex and cubical inclusions, relative maps, graph cell maps; distinct by complex and map"),
 "C10": dict(programs=fields("c10_hom.cpp", (2, 3, 5, 0), shards=2),
   rule="random and known simplicial (both representations), cubical, cell and relative complexes and random chain complexes, with the basis of each dimension reordered, under every combination of flags; complexes large enough for divide and conquer to split; distinct by the complex"),
 "C11": dict(programs=fields("c11_ind.cpp", (2, 3, 5, 0), shards=2),
   rule="random cycles, boundaries and chains in random and known complexes, random chain maps (solutions of the commutation equations), simplicial maps, homotopies and compositions, with independently chosen reduction modes on each side; distinct by complexes, map and modes"),
 "C12": dict(programs=fields("c12_dg.cpp", (2, 3, 0), shards=2),
   rule="random and known complexes of every kind and random chain complexes as differential graded spaces of both degrees, augmented or not, under every mode; simplicial and random maps with both degrees and compositions; distinct by complexes, map and modes"),
  "C13": dict(programs=fields("c13_pers.cpp", (2, 3, 5, 0), shards=2),
   rule="random and known filtered complexes of every kind (entered cell by cell, recursively, from value tables; ties, infinite and negative values, vertices only, lower-star like) and random chain complexes with monotone values, under every flag, homology and cohomology, augmented or not; distinct by complex and values"),
  "C14": dict(programs=fields("c14_upd.cpp", (2, 3, 5, 0), shards=2),
   rule="filtered complexes of every kind and random chain complexes with histories of 1..4 value updates (unchanged, same order, all equal, partial, reversed, fresh), homology and cohomology, every reduction that keeps a basis, sparsified or cleaned in between; distinct by complex and history"),
  "C15": dict(programs=[P("c15_cells.cpp", ["FIELD=2"], shards=5), P("c15_cells.cpp", ["FIELD=3"], shards=2), P("c15_cells.cpp", ["FIELD=5"], shards=1)],
   rule="histories of 1..3 random changes of a filtered simplicial complex (cells added and removed with the closure kept, values fresh, tied, infinite or unchanged), through the reduced and unreduced chain complex, both degrees of the graded space and UpdateInfo2, both representations, every argument; distinct by the history"),
  "C16": dict(programs=[P("c16_rips.cpp", ["FIELD=2"], shards=6), P("c16_rips.cpp", ["FIELD=3"], shards=2)],
   rule="random point sets (lattice, ties, duplicates, clusters, 0..22 points, 1..3 coordinates, four metrics, double and float) and random weighted graphs with edges in any order and direction, thresholds at, between and outside the distances, every top dimension 0..5, three complex representations; cliques enumerated by definition; lower stars over random spaces and cube sets with real, integer and float vertex values; distinct by the input"),
  "C17": dict(programs=[P("c17_uf.cpp", ["FIELD=2"], shards=5), P("c17_uf.cpp", ["FIELD=3"], shards=3)],
   rule="random weighted graphs (1..12 vertices, any density, values fresh, tied, infinite or differing only beyond single precision) stored in random order as simplicial, light, cubical and cell complexes (parallel edges, loops), before and after a change of values, and random pairwise distances in double and float; elder rule on plain component sets as reference, general reduction compared as well; pair-index arithmetic checked exhaustively up to 50 points; Morse pairings of random graphs (ranked or by index, reused after clear) and of random complexes added cell by cell; distinct by the input"),
   "C18": dict(programs=[P("c18_zz.cpp", ["FIELD=2"], shards=4), P("c18_zz.cpp", ["FIELD=3"], shards=3), P("c18_zz.cpp", ["FIELD=0"], shards=2)],
   rule="random histories of entries and removals (random, ordinary filtrations, thickened, one cell at a time, sliding windows; repeated lifetimes, closed endpoints, infinite end) of random and known simplicial (both representations), cubical and cell complexes, given as value tables or entered cell by cell or recursively, under every flag and top dimension; reference: ranks of zigzag relations between all pairs of levels; distinct by complex and history"),
  "C19": dict(programs=[P("c19_quiver.cpp", ["FIELD=2"], shards=3, cpu=4), P("c19_quiver.cpp", ["FIELD=3"], shards=3, cpu=4), P("c19_quiver.cpp", ["FIELD=0"], shards=2, cpu=4)],
   rule="random representations (1..12 edges, all orientations, dimensions 0..5, every rank, interval modules conjugated by random bases), every algorithm and thread count, the forms returned; reference: ranks of linear relations between all pairs of nodes; distinct by the representation"),
  "C20": dict(programs=fields("c20_func.cpp", (2, 3), shards=4),
   rule="random graphs of random spaces and simplicial, light, cubical and cell maps, of point sets and set maps, of chain complexes, through every functor, shape, objects and induced maps compared with per-node computation; random zigzags of subcomplexes against ranks of relations; Morozov and oscillating Rips zigzags of random point sets against their definition; thread counts 1..8; distinct by the diagram"),
   "C21": dict(programs=[P("c21_top.cpp", shards=8, threads=4)],
   rule="random point sets (lattice, repeated, parallel and opposite, real; 0..14 points, 1..4 coordinates; seven metrics, double and float), random covers, cuts, numbers of neighbours and landmarks, radii at and away from distances; every construction compared with its definition by enumeration; distinct by the input"),
   "C22": dict(programs=fields("c22_prod.cpp", (2, 3, 0), shards=3),
   rule="random pairs of small complexes (and subcomplexes, orders of cells, labels, truncations), random chain complexes over F2, F3 and Q; products, tensor products, Eilenberg-Zilber, relative complexes and Mayer-Vietoris compared with their definitions and with ranks computed densely; distinct by the input"),
   "C23": dict(programs=[P("c23_io.cpp", shards=4)],
   rule="random vectors and matrices over int, F2, F5, F7, F65537, Q and double (empty, zero rows or columns, large indices, fractions, extreme reals), simplicial complexes (random and known spaces, any order, labels to 5e9), cellular maps, diagrams and point-cloud files (headers, blank lines, trailing commas, ragged rows); each written, read back into new and used objects and compared entry by entry, and grown afterwards; distinct by the object"),
   "C24": dict(programs=[P("c24_par.cpp", ["PART=%d" % k, "FIELD=3"], mode="tsan", shards=3, cpu=120) for k in (1, 2, 3)],
  rule="random point clouds, wide matrices, quivers, diagrams of complexes, covers and point sets; every parallel entry point run with one thread and with several teams of 2 to 8 threads on an instrumented OpenMP runtime that varies chunk and task order with the seed, under ThreadSanitizer; results compared entry by entry; distinct by the input"),
  "C26": dict(programs=[P("c26_grid.cpp", shards=6)],
  rule="random grids (widths zero to six) and ranges, random sets of cubes, random complexes and images with negative, tied, large and extreme values over int, float and double; cells, values, lifetimes, levelset complexes and levelset zigzags compared with their definitions cell by cell; distinct by the input"),
   "C25": dict(programs=[P("c25_life.cpp", ["PART=%d" % k, "FIELD=3"], shards=3) for k in (1, 2)] +
    [P("c25_life.cpp", ["PART=%d" % k, "FIELD=3"], mode="memcheck", shards=2, scale=0.3, tscale=2, cpu=200) for k in (1, 2)] +
    [P(s, ["FIELD=3"], mode="memcheck", shards=1, scale=0.03, tscale=0.5, cpu=200) for s in
      ("c02_vec.cpp", "c03_mat.cpp", "c05_pid.cpp", "c06_util.cpp", "c07_simp.cpp", "c08_cube.cpp", "c09_map.cpp", "c10_hom.cpp",
       "c11_ind.cpp", "c13_pers.cpp", "c15_cells.cpp", "c16_rips.cpp", "c18_zz.cpp", "c22_prod.cpp")] +
    [P(s, mode="memcheck", shards=1, scale=0.03, tscale=0.5, cpu=200) for s in ("c21_top.cpp", "c23_io.cpp", "c26_grid.cpp")],
   rule="random histories of construction, copy, move, assignment (to itself, to and from empty), swap, insertion, erasure, mutation and heap reallocation over vectors of every value type (sparse and dense vectors, column and CSC matrices, tries, scalars, every complex, maps, chain complexes and maps, filtrations, reduced and filtered reduced complexes, diagrams), each compared with the recorded contents of its original, under AddressSanitizer and UBSan; the same histories and samples of the other workloads under valgrind memcheck for values used before they are set; empty inputs of every kind; distinct by the history"),
  "C27": dict(programs=fields("c27_dense.cpp", (2, 3, 5, 0), shards=2),
   rule="random matrices of every rank and shape up to 7x7 over F2, F3, F5 and Q in every combination of the four layouts of the operands, random histories of elementary operations, factorisations multiplied back and their shapes checked, random histories of a span, a similarity transform and a composite permutation against dense models; distinct by the input"),
  "C28": dict(programs=[P("c28_routes.cpp", ["FIELD=%d" % f], shards=s, scale=c, cpu=120) for f, s, c in ((2, 4, 1), (3, 2, .4), (5, 2, .25))],
   rule="Rips filtrations of 10 to 47 points in six shapes, flag complexes of weighted graphs, lower-star functions on triangulated tori, Klein bottles, cylinders, Moebius bands, squares, spheres and joins of circles, up to several thousand cells; every route to the barcode compared with every other, theorems checked between them; distinct by the input"),
 "C29": dict(programs=[P("c29_units.cpp", units=2, shards=6)],
  rule="random inputs of fourteen jobs over the library's non-template functions, each run in two translation units of one program and repeated; random complexes, filtrations, maps and covers made in one unit and changed, reduced and compared in the other; distinct by job and input"),
}
