// C10: Betti numbers and reduction invariants for every algorithm flag.
#include "chains.hpp"
using namespace vh;
typedef bats::ReducedChainComplex<CM> RC;
struct Ref { std::vector<size_t> b; std::vector<std::vector<size_t>> p2c; std::vector<SMx> B; std::vector<size_t> n; };
static Ref ref(const CC &C) {
  Ref q; size_t d = C.maxdim() + 1; for (size_t k = 0; k < d; k++) { q.B.push_back(smx(C[k], "boundary")); q.n.push_back(C[k].ncol()); SMx W = q.B[k]; q.p2c.push_back(textbook(W, C[k].nrow())); }
  for (size_t k = 0; k < d; k++) { size_t rk = 0, rk1 = 0; for (auto j : q.p2c[k]) rk += j != bats::NO_IND; if (k + 1 < d) for (auto j : q.p2c[k + 1]) rk1 += j != bats::NO_IND; q.b.push_back(q.n[k] - rk - rk1); }
  return q;
}
static void pivots(const CM &R, const std::vector<size_t> &p2c, const std::vector<size_t> &want, const std::string &w) {
  REQUIRE(p2c.size() == R.nrow(), "p2c-size", w << " " << p2c.size() << " for " << R.nrow() << " rows"); SMx m = smx(R, w); std::vector<size_t> p(R.nrow(), bats::NO_IND);
  for (size_t j = 0; j < m.size(); j++) if (!m[j].empty()) { size_t i = m[j].rbegin()->first; REQUIRE(p[i] == bats::NO_IND, "not-reduced", w << " columns " << p[i] << " and " << j << " share pivot " << i); p[i] = j; }
  REQUIRE(p == p2c, "p2c", w << " pivot table " << vh::show(p2c) << " but the matrix has " << vh::show(p)); REQUIRE(p == want, "pairing", w << " pairs " << vh::show(p) << " expected " << vh::show(want));
}
static void summary(const Ref &q, const RC &R, const std::string &w) {
  REQUIRE(R.maxdim() + 1 == q.n.size(), "maxdim", w); for (size_t k = 0; k < q.n.size(); k++) { REQUIRE(R.dim(k) == q.n[k], "dim", w << " dimension " << k); REQUIRE(R.hdim(k) == q.b[k] && R.betti(k) == q.b[k], "betti", w << " dimension " << k << ": " << R.hdim(k) << " expected " << q.b[k]); }
}
static void nobasis(Case &C, const Ref &q, const RC &R, const std::string &w) { summary(q, R, w); for (size_t k = 0; k < q.n.size(); k++) pivots(R.R[k], R.p2c[k], q.p2c[k], w + " dimension " + std::to_string(k)); C.count("reductions"); }
static void basis(Case &C, const Ref &q, const RC &R, const std::string &w, bool paired = true) {
  summary(q, R, w);
  for (size_t k = 0; k < q.n.size(); k++) { std::string z = w + " dimension " + std::to_string(k); SMx U = smx(R.U[k], z + " U"), Rk = smx(R.R[k], z + " R"); REQUIRE(U.size() == q.n[k] && R.U[k].nrow() == q.n[k], "U-shape", z); REQUIRE(R.R[k].nrow() == (k ? q.n[k - 1] : 1), "R-shape", z);
    for (size_t j = 0; j < U.size(); j++) { REQUIRE(!U[j].empty() && U[j].rbegin()->first == j, "U-not-upper-triangular", z << " column " << j << ": " << show(U[j])); SCol y = sapply(q.B[k], U[j]); REQUIRE(y == Rk[j], "BU!=R", z << " column " << j << ": B U = " << show(y) << " R = " << show(Rk[j])); }
    if (paired) pivots(R.R[k], R.p2c[k], q.p2c[k], z);
    // representatives: cycles, independent modulo boundaries (reduce against the textbook boundaries)
    SMx W; size_t nb = 0; if (k + 1 < q.n.size()) { W = q.B[k + 1]; nb = W.size(); } std::set<size_t> seen; for (auto i : R.I[k]) { REQUIRE(i < q.n[k] && seen.insert(i).second, "representative-index", z << " " << i); REQUIRE(sapply(q.B[k], U[i]).empty(), "representative-not-cycle", z << " " << i); W.push_back(U[i]); }
    textbook(W, q.n[k]); for (size_t j = nb; j < W.size(); j++) REQUIRE(!W[j].empty(), "representatives-dependent", z << " representative " << j - nb << " is a combination of boundaries and earlier ones");
    C.count("representatives", R.I[k].size()); }
  C.count("basis_reductions");
}
#define ALG(X) X(bats::standard_reduction_flag, "standard") X(bats::extra_reduction_flag, "extra") X(bats::divide_conquer_flag, "divide-conquer")
static void all(Case &C, const CC &A, bool heavy) {
  Ref q = ref(A); auto unchanged = [&](const char *w) { for (size_t k = 0; k < q.n.size(); k++) REQUIRE(smx(A[k], w) == q.B[k], "input-changed", w << " dimension " << k); };
  if (!heavy) { RC d(A); basis(C, q, d, "default"); auto e = bats::Reduce(A); basis(C, q, e, "Reduce"); }
#define ONE(FL, N) { RC a(A, FL()); nobasis(C, q, a, N); RC b(A, FL(), bats::clearing_flag()); nobasis(C, q, b, N " clearing"); RC c(A, FL(), bats::compression_flag()); nobasis(C, q, c, N " compression"); \
    RC d(A, FL(), bats::compute_basis_flag()); basis(C, q, d, N " basis"); RC e(A, FL(), bats::clearing_flag(), bats::compute_basis_flag()); basis(C, q, e, N " clearing basis"); RC f(A, FL(), bats::compression_flag(), bats::compute_basis_flag()); basis(C, q, f, N " compression basis"); \
    if (!heavy) { auto I = d.I; d.remove_extra_cycles(); basis(C, q, d, N " basis, extra cycles removed"); d.sparsify_basis(); basis(C, q, d, N " basis, sparsified"); REQUIRE(d.I == I, "representatives-moved", N); e.sparsify_basis(); basis(C, q, e, N " clearing basis, sparsified"); e.remove_extra_cycles(); basis(C, q, e, N " clearing basis, extra cycles removed"); } }
  ALG(ONE)
#undef ONE
  CC P = A; P.clear_compress_apparent_pairs(); for (int t = 0; t < 2; t++) { RC a = t ? RC(P, bats::standard_reduction_flag()) : RC(P, bats::standard_reduction_flag(), bats::clearing_flag()); summary(q, a, "apparent pairs"); for (size_t k = 0; k < q.n.size(); k++) pivots(a.R[k], a.p2c[k], q.p2c[k], "apparent pairs dimension " + std::to_string(k)); }
  unchanged("after reductions");
}
FAMILY(flags, 350, 5000) {
  Src s = rand_src(C.rng); C.desc << s.show(); if (s.cells() > 2) C.nontrivial(); all(C, s.C, false);
  auto b = orc::betti(s.D); Ref q = ref(s.C); REQUIRE(b == q.b, "oracle-self-check", "dense and sparse references differ"); REQUIRE(s.C.is_valid_complex(), "is_valid_complex", "");
  // a broken differential is refused by is_valid_complex
  if (s.D.size() > 2) { CC Z = s.C; size_t k = C.rng.r(1, s.D.size() - 2); DM X = s.D[k]; if (X.r && X.c) { size_t i = C.rng.r(0, X.r - 1), j = C.rng.r(0, X.c - 1); X(i, j) = X(i, j) + K(1); Z[k] = sparse(X); bool ok = (k == 1 || (s.D[k - 1] * X).zero()) && (X * s.D[k + 1]).zero(); REQUIRE(Z.is_valid_complex() == ok, "is_valid_complex", "dimension " << k); } }
}
// known spaces straight through the complex-level interface
FAMILY(known, 60, 300) {
  Rng &r = C.rng; const int p = FIELD; struct T { sp::Cpx x; std::vector<size_t> b; const char *n; }; bool two = p == 2;
  std::vector<T> v = {{sp::circle(r.r(3, 9)), {1, 1}, "circle"}, {sp::torus7(), {1, 2, 1}, "torus"}, {sp::rp2(), two ? std::vector<size_t>{1, 1, 1} : std::vector<size_t>{1, 0, 0}, "RP2"}, {sp::klein(), two ? std::vector<size_t>{1, 2, 1} : std::vector<size_t>{1, 1, 0}, "klein"}, {sp::simplex(r.r(0, 4)), {}, "simplex"}, {sp::sphere(2), {1, 0, 1}, "S2"}, {sp::sphere(3), {1, 0, 0, 1}, "S3"}, {sp::unite(sp::circle(4), sp::shift(sp::circle(3), 10)), {2, 2}, "two circles"}};
  auto &t = v[r.r(0, v.size() - 1)]; if (t.b.empty()) { t.b.assign(t.x.dim() + 1, 0); t.b[0] = 1; } if (FIELD == 3 && std::string(t.n) == "klein") {} auto y = sp::relabel(t.x, r.perm(t.x.nv())); C.desc << t.n << " " << sp::show(y); C.nontrivial();
  auto S = make_sc(r, y); auto L = make_lc(r, y); auto chk = [&](const RC &R, const char *w) { for (size_t k = 0; k <= R.maxdim(); k++) REQUIRE(R.hdim(k) == t.b[k], "known-betti", t.n << " " << w << " dimension " << k << ": " << R.hdim(k)); C.count("known_spaces"); };
  chk(bats::Reduce(S, F()), "trie"); chk(bats::Reduce(L, F()), "light"); chk(bats::Reduce(S, F(), bats::extra_reduction_flag(), bats::compression_flag()), "trie extra compression"); chk(bats::Reduce(L, F(), bats::standard_reduction_flag(), bats::clearing_flag(), bats::compute_basis_flag()), "light clearing"); chk(bats::__ReducedChainComplex(S, F(), bats::divide_conquer_flag()), "divide and conquer");
  RC Z; Z.initialize(CC(S)); for (size_t k = 0; k <= Z.maxdim(); k++) REQUIRE(Z.dim(k) == S.ncells(k), "initialize", k);
}
// large enough for divide and conquer to split (256 columns without a basis, 1024 with one)
FAMILY(split, 3, 24) {
  Rng &r = C.rng; bool big = C.idx % 3 == 0; size_t nv = big ? r.r(46, 49) : r.r(25, 30); sp::Cpx x; for (size_t i = 0; i < nv; i++) for (size_t j = 0; j < i; j++) if (r.chance(big ? .995 : .9)) x.all.insert({j, i}); for (size_t i = 0; i < nv; i++) x.all.insert({i});
  for (int t = big ? r.r(1030, 1100) : r.r(260, 700); t--;) { sp::Sx s = r.subset(nv, 3); bool ok = true; for (auto &f : sp::facets_of(s)) ok &= x.all.count(f) > 0; if (ok) x.all.insert(s); }
  auto S = make_sc(r, x); CC A(S); C.desc << "random 2-complex on " << nv << " vertices, " << A.dim(1) << " edges, " << A.dim(2) << " triangles"; C.nontrivial(); all(C, A, true); C.count("split_reductions");
}
// the parallel first sweep keeps the pairing whatever the block size
FAMILY(sweep, 200, 2000) {
  Rng &r = C.rng; Src s = rand_src(r); if (s.D.size() < 2) throw Skip(); size_t k = r.r(1, s.D.size() - 1); size_t bs = r.r(1, s.D[k].c + 2); C.desc << s.show() << " dimension " << k << " blocks of " << bs; C.nontrivial();
  SMx B = smx(s.C[k], "boundary"), W = B; auto want = textbook(W, s.C[k].nrow()); CM M1 = s.C[k], M2 = s.C[k], U = CM::identity(s.C.dim(k)); bats::partial_reduce_parallel(M1, bs); bats::partial_reduce_parallel(M2, U, bs);
  auto Us = smx(U, "U"), Ms = smx(M2, "R"); for (size_t j = 0; j < B.size(); j++) { REQUIRE(!Us[j].empty() && Us[j].rbegin()->first == j, "U-not-upper-triangular", j); REQUIRE(sapply(B, Us[j]) == Ms[j], "BU!=R", "column " << j); }
  for (size_t b = 0; b < B.size(); b += bs) { std::set<size_t> p; for (size_t j = b; j < std::min(b + bs, B.size()); j++) if (!Ms[j].empty()) REQUIRE(p.insert(Ms[j].rbegin()->first).second, "block-not-reduced", "block at " << b); }
  auto p1 = bats::reduce_matrix(M1), p2 = bats::reduce_matrix(M2, U); pivots(M1, p1, want, "sweep"); pivots(M2, p2, want, "sweep basis");
}
// greedy column reductions one column at a time: same pairing, columns stay in the span of earlier ones
FAMILY(columns, 250, 2500) {
  Rng &r = C.rng; Src s = rand_src(r); if (s.D.size() < 2) throw Skip(); size_t k = r.r(1, s.D.size() - 1); C.desc << s.show() << " dimension " << k; if (s.D[k].c > 1) C.nontrivial();
  SMx B = smx(s.C[k], "boundary"), W = B; auto want = textbook(W, s.C[k].nrow()); CM M = s.C[k], M2 = s.C[k]; std::vector<size_t> p(M.nrow(), bats::NO_IND); std::map<F, size_t> coeff; typename SV::tmp_type tmp; std::unordered_map<size_t, size_t> up;
  for (size_t j = 0; j < M.ncol(); j++) { bats::reduce_column_sparsify(M, j, p, coeff, tmp); bats::reduce_column_extra(M2, j, up, tmp); } pivots(M, p, want, "sparsify");
  std::vector<size_t> p2(M.nrow(), bats::NO_IND); for (auto &q : up) p2[q.first] = q.second; pivots(M2, p2, want, "extra");
  for (auto *X : {&M, &M2}) { SMx Rk = smx(*X, "R"); for (size_t j = 0; j < Rk.size(); j++) { SMx V; for (size_t t = 0; t <= j; t++) V.push_back(B[t]); V[j] = Rk[j]; V.push_back(B[j]); textbook(V, s.C[k].nrow()); REQUIRE(V.back().empty(), "column-span", "column " << j << " left the span"); } }
}
