// C14: updating the values of a filtration equals recomputing from scratch.
#include "filt.hpp"
using namespace vh;
typedef bats::ReducedFilteredChainComplex<double, CM> RFC;
typedef bats::FilteredChainComplex<double, CM> FC;
typedef bats::FilteredDGVectorSpace<double, CM> FD;
typedef bats::ReducedFilteredDGVectorSpace<double, CM> RFD;
static const char *MODE[] = {"default", "standard basis", "extra basis", "divide-conquer basis", "clearing basis", "extra clearing basis", "compression basis", "extra compression basis"};
template <class Z, class A> Z reduce(const A &a, int m) {
  using namespace bats; typedef standard_reduction_flag S; typedef extra_reduction_flag X; typedef divide_conquer_flag V; typedef compute_basis_flag Bf; typedef clearing_flag Cl; typedef compression_flag Co;
  switch (m) { case 0: return Z(a); case 1: return Z(a, S(), Bf()); case 2: return Z(a, X(), Bf()); case 3: return Z(a, V(), Bf()); case 4: return Z(a, S(), Cl(), Bf()); case 5: return Z(a, X(), Cl(), Bf()); default: if constexpr (std::is_same<Z, RFC>::value) { if (m == 6) return Z(a, S(), Co(), Bf()); return Z(a, X(), Co(), Bf()); } else return Z(a); }
}
// how the next values relate to the present ones
static Vals next(Rng &r, const std::vector<SMx> &B, const Vals &v) {
  Vals w = v; switch (r.r(0, 5)) {
    case 0: return v;                                                                   // unchanged
    case 1: for (auto &x : w) for (auto &t : x) t = 2 * t + 1; return w;                // same order
    case 2: { double c = r.r(-2, 2); for (auto &x : w) for (auto &t : x) t = c; return w; }  // all equal
    case 3: if (v.size()) { size_t k = r.r(0, v.size() - 1); for (auto &t : w[k]) t += r.r(0, 3); for (size_t q = 1; q < B.size(); q++) for (size_t j = 0; j < B[q].size(); j++) for (auto &p : B[q][j]) w[q][j] = std::max(w[q][j], w[q - 1][p.first]); return w; }
    case 4: { for (auto &x : w) for (auto &t : x) t = -t; std::vector<double> lo; for (size_t q = B.size(); q-- > 1;) for (size_t j = 0; j < B[q].size(); j++) for (auto &p : B[q][j]) w[q - 1][p.first] = std::min(w[q - 1][p.first], w[q][j]); return w; }  // reversed
    default: return rand_vals(r, B); }
}
static void reps(Case &C, const RFC &Z, const std::vector<SMx> &B, const Vals &v, const std::string &w) { for (size_t k = 0; k < v.size(); k++) for (auto &p : Z.persistence_pairs(k)) { SCol c = scol(Z.representative(p), v[k].size(), w); REQUIRE(sapply(B[k], c).empty(), "representative-not-cycle", w << " dimension " << k); REQUIRE(c.count(p.birth_ind), "representative-misses-birth-cell", w); for (auto &e : c) REQUIRE(v[k][e.first] <= p.birth, "representative-born-later", w << " dimension " << k); C.count("representatives"); } }
static void state(Case &C, const RFC &Z, const std::vector<SMx> &B, const Vals &v, const std::string &w) { std::vector<SMx> L; std::vector<size_t> rows; same_barcode(Z, B, v, w); chain_maps(B, Z.perm, L, rows); invariants(Z.RC, L, rows, w); for (size_t k = 0; k < v.size(); k++) { size_t n = 0; for (auto &p : Z.persistence_pairs(k)) n += p.death_ind == bats::NO_IND; REQUIRE(Z.hdim(k) == n, "betti", w << " dimension " << k); } reps(C, Z, B, v, w); C.count("states"); }
static void state(Case &C, const RFD &Z, const std::vector<SMx> &B, const Vals &v, int deg, bool aug, const std::string &w) { std::vector<SMx> L; std::vector<size_t> rows; same_barcode(Z, B, v, w, deg == 1, aug); dg_maps(B, Z.perm, deg, aug, L, rows); invariants(Z.RC, L, rows, w, deg); for (size_t k = 0; k < v.size(); k++) { size_t n = 0; for (auto &p : Z.persistence_pairs(k)) n += p.death_ind == bats::NO_IND; REQUIRE(Z.hdim(k) == n, "betti", w << " dimension " << k); } C.count("states"); }
template <class FCm> void chain(Case &C, FCm A, const std::vector<SMx> &B, const std::vector<Vals> &seq) {
  Rng &r = C.rng; int m = r.r(0, 7); C.desc << " " << MODE[m]; RFC Z = reduce<RFC>(A, m); state(C, Z, B, seq[0], MODE[m]);
  for (size_t i = 1; i < seq.size(); i++) { std::string w = std::string(MODE[m]) + " update " + std::to_string(i); if (r.chance(.2)) Z.sparsify_basis(); if (r.chance(.2)) Z.remove_extra_cycles(); Z.update_filtration(seq[i]); state(C, Z, B, seq[i], w);
    A.update_filtration(seq[i]); REQUIRE(A.val == seq[i], "values", w); check_perm(A.perm, seq[i], w); for (size_t k = 1; k < B.size(); k++) REQUIRE(smx(A.complex()[k], w) == in_order(B[k], A.perm[k], A.perm[k - 1]), "updated-complex", w << ": boundary " << k << " is not in the order of the new values"); RFC Y = reduce<RFC>(A, r.r(0, 7)); same_barcode(Y, B, seq[i], w + " recomputed"); for (size_t k = 0; k < B.size(); k++) REQUIRE(bats::barcode_equality(Z.persistence_pairs(k), Y.persistence_pairs(k)), "update-differs-from-fresh", w << " dimension " << k); C.count("updates"); }
}
static void dgs(Case &C, FD A, const std::vector<SMx> &B, const std::vector<Vals> &seq, int deg, bool aug) {
  Rng &r = C.rng; int m = r.r(0, 5); C.desc << " " << MODE[m] << (aug ? " augmented" : ""); std::string d = " degree " + std::to_string(deg) + (aug ? " augmented" : ""); RFD Z = reduce<RFD>(A, m); state(C, Z, B, seq[0], deg, aug, MODE[m] + d);
  for (size_t i = 1; i < seq.size(); i++) { std::string w = std::string(MODE[m]) + d + " update " + std::to_string(i); Z.update_filtration(seq[i]); state(C, Z, B, seq[i], deg, aug, w); A.update_filtration(seq[i]); REQUIRE(A.val == seq[i], "values", w); check_perm(A.perm, seq[i], w, deg == 1); RFD Y = reduce<RFD>(A, r.r(0, 5)); state(C, Y, B, seq[i], deg, aug, w + " recomputed"); C.count("updates"); }
}
template <class X> std::vector<DM> bounds(const X &x) { std::vector<DM> D; D.push_back(DM(0, x.ncells(0))); for (size_t k = 1; k <= x.maxdim(); k++) D.push_back(dense_csc(x.boundary_csc(k))); return D; }
static std::vector<Vals> history(Case &C, const std::vector<SMx> &B) { std::vector<Vals> s = {rand_vals(C.rng, B)}; for (int i = C.rng.r(1, 4); i--;) s.push_back(next(C.rng, B, s.back())); for (auto &v : s) C.desc << " ;" << show_vals(v); return s; }
template <class X> void run(Case &C, const X &x) { auto B = sparse_bd(bounds(x)); auto seq = history(C, B); bats::Filtration<double, X> Fl(x, seq[0]); chain(C, FC(Fl), B, seq); for (int deg : {-1, 1}) { bool aug = C.rng.chance(.3); dgs(C, FD(Fl, deg, aug), B, seq, deg, aug); } }
FAMILY(trie, 130, 2000) { auto x = C.rng.chance(.1) ? sp::random(C.rng, C.rng.r(1, 6), 0, 4) : sp::random_space(C.rng); C.desc << "trie " << sp::show(x); C.nontrivial(); run(C, make_sc(C.rng, x)); }
FAMILY(light, 70, 1200) { auto x = sp::random_space(C.rng); C.desc << "light " << sp::show(x); C.nontrivial(); run(C, make_lc(C.rng, x)); }
FAMILY(cubes, 80, 1200) { std::string d; auto q = make_cc(C.rng, d); C.desc << d; C.nontrivial(); run(C, q); }
FAMILY(cells, 80, 1200) { std::string d; auto q = make_cell(C.rng, d); C.desc << d; C.nontrivial(); run(C, q); }
FAMILY(chains, 200, 3000) {
  Src s = rand_src(C.rng, 6); C.desc << s.show(); C.nontrivial(); auto B = sparse_bd(s.D); auto seq = history(C, B); FC A; A.val = seq[0]; A.C = s.C; A.perm = stable(seq[0]); A.C.ipermute_basis(A.perm); chain(C, A, B, seq); size_t md = s.D.size() - 1;
  for (int deg : {-1, 1}) { std::vector<CM> L; for (size_t k = 0; k <= md; k++) L.push_back(sparse(deg == -1 ? s.D[k] : s.D[k].T())); if (deg == -1) L.push_back(CM(s.D[md].c, 0)); else L.push_back(CM(0, s.D[md].c)); dgs(C, FD(L, seq[0], deg), B, seq, deg, false); }
}
