// C13: persistence barcodes.
#include "filt.hpp"
using namespace vh;
typedef bats::ReducedFilteredChainComplex<double, CM> RFC;
typedef bats::FilteredChainComplex<double, CM> FC;
typedef bats::FilteredDGVectorSpace<double, CM> FD;
typedef bats::ReducedFilteredDGVectorSpace<double, CM> RFD;
// reduced with basis: representatives are cycles led by the birth cell, and at every value the living ones are a basis of homology
static void reps(Case &C, const RFC &Z, const std::vector<SMx> &B, const Vals &v, const std::string &w) {
  std::set<double> ts; for (auto &x : v) for (auto t : x) ts.insert(t); std::vector<double> tv(ts.begin(), ts.end()); while (tv.size() > 4) tv.erase(tv.begin() + C.rng.r(0, tv.size() - 1));
  for (size_t k = 0; k < v.size(); k++) {
    auto P = Z.persistence_pairs(k), Q = Z.persistence_pairs(k, true); REQUIRE(P.size() == Q.size(), "permuted-count", w << " " << k); std::string z = w + " dimension " + std::to_string(k); std::vector<SCol> reps; std::vector<size_t> pos(v[k].size()); for (size_t i = 0; i < pos.size(); i++) pos[Z.perm[k][i]] = i;
    for (size_t i = 0; i < P.size(); i++) { SCol c = scol(Z.representative(P[i]), v[k].size(), z), q = scol(Z.representative(Q[i], true), v[k].size(), z + " permuted"), back; for (auto &e : q) back[Z.perm[k][e.first]] = e.second;
      REQUIRE(c == back, "representative-permuted", z << " pair " << i << ": " << show(c) << " and " << show(back)); REQUIRE(sapply(B[k], c).empty(), "representative-not-cycle", z << " birth cell " << P[i].birth_ind << ": " << show(c)); REQUIRE(c.count(P[i].birth_ind), "representative-misses-birth-cell", z << " " << P[i].birth_ind << ": " << show(c)); for (auto &e : c) REQUIRE(v[k][e.first] <= P[i].birth && pos[e.first] <= pos[P[i].birth_ind], "representative-born-later", z << " cell " << e.first); reps.push_back(c); C.count("representatives"); }
    for (double t : tv) { SMx W; size_t nb; if (k + 1 < v.size()) for (size_t j = 0; j < B[k + 1].size(); j++) if (v[k + 1][j] <= t) W.push_back(B[k + 1][j]); nb = W.size(); for (size_t i = 0; i < P.size(); i++) if (P[i].birth <= t && !(P[i].death <= t && P[i].death_ind != bats::NO_IND)) W.push_back(reps[i]); textbook(W, v[k].size()); for (size_t j = nb; j < W.size(); j++) REQUIRE(!W[j].empty(), "representatives-dependent", z << " at value " << t); }
  }
}
static void forms(Case &C, const RFC &Z, const Vals &v, const std::string &w) {
  for (size_t k = 0; k < v.size(); k++) { auto P = Z.persistence_pairs(k), Q = Z.persistence_pairs(k, true); REQUIRE(P.size() == Q.size(), "permuted-count", w); size_t inf = 0;
    for (size_t i = 0; i < P.size(); i++) { REQUIRE(Z.perm[k][Q[i].birth_ind] == P[i].birth_ind && P[i] == Q[i] && !(P[i] != Q[i]), "permuted-birth", w << " dimension " << k << " pair " << i); if (P[i].death_ind == bats::NO_IND) { REQUIRE(Q[i].death_ind == bats::NO_IND, "permuted-death", w); inf++; } else REQUIRE(Z.perm[k + 1][Q[i].death_ind] == P[i].death_ind, "permuted-death", w << " dimension " << k << " pair " << i);
      REQUIRE(P[i].get_dim() == P[i].dim && P[i].get_birth_ind() == P[i].birth_ind && P[i].get_death_ind() == P[i].death_ind && P[i].get_birth() == P[i].birth && P[i].get_death() == P[i].death, "accessors", w << " dimension " << k);
      std::ostringstream o; o << k << " : (" << P[i].birth << ',' << P[i].death << ") <" << P[i].birth_ind << ',' << (P[i].death_ind == bats::NO_IND ? -1 : (int)P[i].death_ind) << '>'; REQUIRE(P[i].str() == o.str(), "str", P[i].str() << " expected " << o.str()); if (std::isfinite(P[i].birth)) { REQUIRE(P[i].length() == P[i].death - P[i].birth, "length", k); REQUIRE(P[i].mid() == (P[i].birth + P[i].death) / 2, "mid", k); } }
    REQUIRE(Z.hdim(k) == inf, "betti", w << " dimension " << k << " hdim " << Z.hdim(k) << " infinite bars " << inf);
    for (bool pm : {false, true}) { auto &X = pm ? Q : P; auto [bd, in] = Z.persistence_pairs_vec(k, pm); REQUIRE(bd.size() == 2 * X.size() && in.size() == bd.size(), "vec-size", w); for (size_t i = 0; i < X.size(); i++) REQUIRE(bd[2 * i] == X[i].birth && bd[2 * i + 1] == X[i].death && in[2 * i] == X[i].birth_ind && in[2 * i + 1] == X[i].death_ind, "vec", w << " dimension " << k << " pair " << i); }
    // stand-alone extraction from the reduced matrix
    std::vector<double> a, b; for (auto i : Z.perm[k]) a.push_back(v[k][i]); std::vector<size_t> pc(v[k].size(), bats::NO_IND); if (k + 1 < v.size()) { pc = Z.RC.p2c[k + 1]; for (auto i : Z.perm[k + 1]) b.push_back(v[k + 1][i]); } auto E = bats::extract_pairs(Z.RC.R[k], pc, a, b, k); REQUIRE(E.size() == Q.size(), "extract", k); auto G = Q; auto lt = [](const auto &x, const auto &y) { return x.birth_ind < y.birth_ind; }; std::sort(E.begin(), E.end(), lt); std::sort(G.begin(), G.end(), lt); for (size_t i = 0; i < E.size(); i++) REQUIRE(E[i] == G[i] && E[i].birth_ind == G[i].birth_ind && E[i].death_ind == G[i].death_ind, "extract", w << " dimension " << k << " pair " << i);
    auto S = P; C.rng.shuffle(S); REQUIRE(bats::barcode_equality(P, S) && bats::barcode_equality(S, P), "barcode-equality", "shuffled barcode differs"); if (!S.empty()) { auto T1 = S; T1.pop_back(); REQUIRE(!bats::barcode_equality(P, T1) && !bats::barcode_equality(T1, P), "barcode-equality", "missing bar not noticed"); auto &e = S[C.rng.r(0, S.size() - 1)]; int what = C.rng.r(0, 2); if (what == 0) e.birth = -77; else if (what == 1) e.death = 77; else e.dim += 1; REQUIRE(!bats::barcode_equality(P, S) && !bats::barcode_equality(S, P), "barcode-equality", "changed bar not noticed"); }
    if (S.size() > 1) { auto X = P, Y = P; for (size_t i = 0; i < X.size(); i++) { X[i].birth = Y[i].birth = i % 2; X[i].death = Y[i].death = 5; } Y[0].birth = 1; bool same = false; REQUIRE(bats::barcode_equality(X, Y) == same && bats::barcode_equality(Y, X) == same, "barcode-equality", "multiplicities ignored"); } }
}
#define FLAGS(X) X(bats::standard_reduction_flag, "standard") X(bats::extra_reduction_flag, "extra") X(bats::divide_conquer_flag, "divide-conquer")
static void all_flags(Case &C, const FC &A, const std::vector<SMx> &B, const Vals &v, bool heavy = false) {
  auto chk = [&](const RFC &Z, const std::string &w, bool basis) { same_barcode(Z, B, v, w); forms(C, Z, v, w); if (basis) reps(C, Z, B, v, w); C.count("barcodes"); };
  if (!heavy) { chk(RFC(A), "default", true); chk(bats::Reduce(A), "Reduce", true); }
#define ONE(FL, N) chk(RFC(A, FL()), N, false); chk(RFC(A, FL(), bats::clearing_flag()), N " clearing", false); chk(RFC(A, FL(), bats::compression_flag()), N " compression", false); \
  { RFC Z(A, FL(), bats::compute_basis_flag()); chk(Z, N " basis", true); if (!heavy) { auto W = Z.RC; W.remove_extra_cycles(); Z.remove_extra_cycles(); for (size_t k = 0; k < W.U.size(); k++) REQUIRE(smx(W.U[k], N) == smx(Z.RC.U[k], N) && smx(W.R[k], N) == smx(Z.RC.R[k], N), "extra-cycles", "dimension " << k); chk(Z, N " basis, extra cycles removed", true); W.sparsify_basis(); Z.sparsify_basis(); for (size_t k = 0; k < W.U.size(); k++) REQUIRE(smx(W.U[k], N) == smx(Z.RC.U[k], N), "sparsify", "dimension " << k); chk(Z, N " basis, sparsified", true); } } chk(RFC(A, FL(), bats::clearing_flag(), bats::compute_basis_flag()), N " clearing basis", true); chk(RFC(A, FL(), bats::compression_flag(), bats::compute_basis_flag()), N " compression basis", true);
  FLAGS(ONE)
#undef ONE
}
static const char *MODE[] = {"default", "standard", "extra", "divide-conquer", "standard basis", "extra basis", "divide-conquer basis", "clearing", "extra clearing", "clearing basis", "extra clearing basis", "compression", "extra compression", "divide-conquer clearing"};
static RFD reduce_dg(const FD &A, int m) {
  using namespace bats; typedef standard_reduction_flag S; typedef extra_reduction_flag X; typedef divide_conquer_flag V; typedef compute_basis_flag Bf; typedef clearing_flag Cl; typedef compression_flag Co;
  switch (m) { case 0: return RFD(A); case 1: return RFD(A, S()); case 2: return RFD(A, X()); case 3: return RFD(A, V()); case 4: return RFD(A, S(), Bf()); case 5: return RFD(A, X(), Bf()); case 6: return RFD(A, V(), Bf()); case 7: return RFD(A, S(), Cl()); case 8: return RFD(A, X(), Cl()); case 9: return RFD(A, S(), Cl(), Bf()); case 10: return RFD(A, X(), Cl(), Bf()); case 11: return RFD(A, S(), Co()); case 12: return RFD(A, X(), Co()); default: return RFD(A, V(), Cl()); }
}
static void dg(Case &C, const FD &A, const std::vector<SMx> &B, const Vals &v, int deg, bool aug) {
  for (int m = 0; m < 14; m++) { RFD Z = reduce_dg(A, m); std::string w = std::string(MODE[m]) + " degree " + std::to_string(deg) + (aug ? " augmented" : ""); same_barcode(Z, B, v, w, deg == +1, aug); for (size_t k = 0; k < v.size(); k++) { auto P = Z.persistence_pairs(k); size_t inf = 0; for (auto &p : P) inf += p.death_ind == bats::NO_IND; REQUIRE(Z.hdim(k) == inf, "betti", w << " dimension " << k); auto [bd, in] = Z.persistence_pairs_vec(k); REQUIRE(bd.size() == 2 * P.size() && in.size() == bd.size(), "vec-size", w); for (size_t i = 0; i < P.size(); i++) REQUIRE(bd[2 * i] == P[i].birth && bd[2 * i + 1] == P[i].death && in[2 * i] == P[i].birth_ind && in[2 * i + 1] == P[i].death_ind, "vec", w << " dimension " << k); } C.count("dg_barcodes"); }
}
template <class X> std::vector<DM> bounds(const X &x) { std::vector<DM> D; D.push_back(DM(0, x.ncells(0))); for (size_t k = 1; k <= x.maxdim(); k++) D.push_back(dense_csc(x.boundary_csc(k))); return D; }
template <class X> void run(Case &C, const bats::Filtration<double, X> &Fl, bool quickflags) {
  Rng &r = C.rng; const X &x = Fl.complex(); auto D = bounds(x); auto B = sparse_bd(D); Vals v = Fl.vals(); REQUIRE(v.size() == x.maxdim() + 1, "filtration-maxdim", v.size() << " for " << x.maxdim()); for (size_t k = 0; k < v.size(); k++) REQUIRE(v[k].size() == x.ncells(k) && Fl.ncells(k) == v[k].size() && Fl.vals(k) == v[k], "filtration-ncells", k);
  C.desc << show_vals(v); check_perm(Fl.sortperm(), v, "sortperm"); for (size_t k = 0; k < v.size(); k++) REQUIRE(Fl.sortperm(k) == Fl.sortperm()[k], "sortperm", k);
  FC A(Fl); REQUIRE(A.val == v, "values", "chain complex"); check_perm(A.perm, v, "chain complex"); for (size_t k = 0; k < v.size(); k++) { REQUIRE(A.dim(k) == v[k].size(), "dim", k); if (k) REQUIRE(smx(A.complex()[k], "permuted boundary") == in_order(B[k], A.perm[k], A.perm[k - 1]), "permuted-boundary", "dimension " << k); }
  if (quickflags) { auto P = bats::Reduce(Fl, F()); same_barcode(P, B, v, "Reduce filtration"); RFC Q(bats::Chain(Fl, F()), bats::standard_reduction_flag(), bats::compression_flag()); same_barcode(Q, B, v, "Reduce chain"); }
  else all_flags(C, A, B, v);
  // agreement with the dense textbook oracle
  std::vector<DM> Dd = D; size_t n = 0; for (auto &d : D) n += d.c; if (n < 120) { auto o = orc::barcode(Dd, v, false); std::sort(o.begin(), o.end()); REQUIRE(o == bars_of(pairing(B, stable(v)), v), "oracle-self-check", "references differ"); }
  bool aug = r.chance(.4); for (int deg : {-1, 1}) { FD G(Fl, deg, aug); check_perm(G.perm, v, "dg", deg == 1); dg(C, G, B, v, deg, aug); }
}
template <class X> void sublevel(Case &C, const bats::Filtration<double, X> &Fl) {
  const X &x = Fl.complex(); Vals v = Fl.vals(); auto Z = bats::Reduce(Fl, F()); std::vector<double> ts = {-INF, INF, -10, 10}; for (auto &l : v) for (int i = 0; i < 2; i++) if (!l.empty()) { double t = C.rng.pick(l); ts.push_back(t); if (std::isfinite(t)) ts.push_back(std::nextafter(t, -INF)); }
  for (double t : ts) { X Y = Fl.sublevelset(t); size_t tot = 0; for (size_t k = 0; k < v.size(); k++) { std::set<std::vector<size_t>> want, got; for (size_t i = 0; i < v[k].size(); i++) if (v[k][i] <= t) want.insert(x.get_cell(k, i)); if (k <= Y.maxdim()) for (size_t i = 0; i < Y.ncells(k); i++) got.insert(Y.get_cell(k, i)); REQUIRE(got == want && (k > Y.maxdim() || Y.ncells(k) == want.size()), "sublevelset", "at " << t << " dimension " << k << " has " << got.size() << " cells, expected " << want.size()); tot += want.size(); }
    if (!tot) continue; auto H = bats::Reduce(Y, F()); for (size_t k = 0; k < v.size(); k++) { size_t n = 0; for (auto &p : Z.persistence_pairs(k)) n += p.birth <= t && (p.death > t || p.death_ind == bats::NO_IND); size_t b = k <= H.maxdim() ? H.hdim(k) : 0; REQUIRE(b == n, "betti-curve", "at " << t << " dimension " << k << " Betti number " << b << " but " << n << " bars"); } C.count("sublevelsets"); }
}
// simplicial filtrations entered cell by cell
struct Model { sp::Cpx x; std::map<sp::Sx, double> t; };
static Model model(Rng &r) { Model m; m.x = r.chance(.15) ? sp::random(r, r.r(1, 6), 0, r.r(1, 5)) : sp::random_space(r); auto c = m.x.cells(); std::vector<SMx> B; for (size_t k = 0; k < c.size(); k++) { auto b = k ? sp::bd(c[k - 1], c[k]) : std::vector<std::vector<int>>(); SMx q(c[k].size()); for (size_t i = 0; i < b.size(); i++) for (size_t j = 0; j < b[i].size(); j++) if (b[i][j]) q[j][i] = K(1); B.push_back(q); } Vals v = rand_vals(r, B); for (size_t k = 0; k < c.size(); k++) for (size_t i = 0; i < c[k].size(); i++) m.t[c[k][i]] = v[k][i]; return m; }
template <class X> void entered(Case &C, bats::Filtration<double, X> &Fl, const Model &m, bool directed) {
  for (auto s : sp::random_order(C.rng, m.x)) { cell_ind ci; if constexpr (std::is_same<X, bats::SimplicialComplex>::value) ci = directed ? Fl.add_directed(m.t.at(s), s) : Fl.add(m.t.at(s), s); else ci = Fl.add(m.t.at(s), s); REQUIRE(ci.dim == s.size() - 1 && Fl.complex().get_cell(ci.dim, ci.ind) == s && Fl.vals(ci.dim)[ci.ind] == m.t.at(s), "add", "simplex " << vh::show(s)); }
}
template <class X> void as_model(const bats::Filtration<double, X> &Fl, const Model &m, const char *w) { size_t n = 0; for (size_t k = 0; k <= Fl.maxdim(); k++) for (size_t i = 0; i < Fl.ncells(k); i++) { auto s = Fl.complex().get_cell(k, i); REQUIRE(m.t.count(s) && m.t.at(s) == Fl.vals(k)[i], "filtration-values", w << " " << vh::show(s) << " has " << Fl.vals(k)[i]); n++; } REQUIRE(n == m.t.size(), "filtration-cells", w << " " << n << " for " << m.t.size()); }
FAMILY(trie, 110, 1800) { auto m = model(C.rng); C.desc << sp::show(m.x); C.nontrivial(); bats::Filtration<double, bats::SimplicialComplex> Fl; entered(C, Fl, m, C.rng.chance(.5)); as_model(Fl, m, "trie"); run(C, Fl, false); sublevel(C, Fl); }
FAMILY(light, 60, 1200) { auto m = model(C.rng); C.desc << sp::show(m.x); C.nontrivial(); size_t nv = m.x.nv(), d = m.x.dim(); bats::Filtration<double, bats::LightSimplicialComplex<size_t>> Fl(nv, d); entered(C, Fl, m, false); as_model(Fl, m, "light"); run(C, Fl, C.rng.chance(.5)); sublevel(C, Fl); }
FAMILY(cubes, 70, 1200) {
  Rng &r = C.rng; std::string d; auto q = make_cc(r, d); C.desc << d; C.nontrivial(); auto B = sparse_bd(bounds(q)); Vals v = rand_vals(r, B); bats::Filtration<double, bats::CubicalComplex> Fl(q, v); run(C, Fl, r.chance(.5)); sublevel(C, Fl);
  bats::Filtration<double, bats::CubicalComplex> G(q); Vals z; for (size_t k = 0; k <= q.maxdim(); k++) z.push_back(std::vector<double>(q.ncells(k), 0)); REQUIRE(G.vals() == z, "default-values", "not zero"); G.update_filtration(v); REQUIRE(G.vals() == v, "update_filtration", ""); same_barcode(bats::Reduce(G, F()), B, v, "updated values");
  // unions of sublevel sets of two filtrations: cells of either, at the value the second gives them if it has them
  typedef bats::Filtration<double, bats::CubicalComplex> QF; Vals w = rand_vals(r, B); auto part = [&](const Vals &u, double t, std::map<sp::Sx, double> &m) { bats::CubicalComplex y(q.maxdim()); Vals uv(q.maxdim() + 1); for (size_t k = 0; k <= q.maxdim(); k++) for (size_t i = 0; i < q.ncells(k); i++) if (u[k][i] <= t) { auto c = q.get_cell(k, i); y.add(c); uv[k].push_back(u[k][i]); m[c] = u[k][i]; } return QF(y, uv); };
  auto mid = [&](const Vals &u) { std::vector<double> a; for (auto &k : u) for (auto x : k) a.push_back(x); return r.chance(.2) ? INF : a.empty() ? 0. : r.pick(a); }; std::map<sp::Sx, double> m1, m2; double t1 = mid(v), t2 = mid(w); QF U = part(v, t1, m1), W = part(w, t2, m2); U.union_add(W); for (auto &p : m2) m1[p.first] = p.second; size_t n = 0;
  for (size_t k = 0; k <= U.maxdim(); k++) { REQUIRE(U.vals(k).size() == U.ncells(k), "union-size", "dimension " << k); for (size_t i = 0; i < U.ncells(k); i++) { auto c = U.complex().get_cell(k, i); REQUIRE(m1.count(c) && m1[c] == U.vals(k)[i], "union-value", vh::show(c) << " at " << U.vals(k)[i]); n++; } } REQUIRE(n == m1.size(), "union-size", n << " cells, expected " << m1.size()); C.count("cube_unions");
}
FAMILY(cells, 60, 1200) { Rng &r = C.rng; std::string d; auto q = make_cell(r, d); C.desc << d; C.nontrivial(); auto B = sparse_bd(bounds(q)); Vals v = rand_vals(r, B); bats::Filtration<double, bats::CellComplex> Fl(q, v); run(C, Fl, r.chance(.5)); }
// cells added with their faces at one value, and unions of filtrations
FAMILY(recursive, 80, 1200) {
  Rng &r = C.rng; bats::Filtration<double, bats::SimplicialComplex> Fl, Gl; Model m, g; Draw d(r); std::vector<std::pair<double, sp::Sx>> a; for (int i = r.r(1, 7); i--;) a.push_back({d(r), r.subset(7, r.r(1, 4))}); std::sort(a.begin(), a.end());
  for (auto &p : a) { auto s = p.second; auto ret = Fl.add_recursive(p.first, s); std::set<sp::Sx> nw, got; sp::Cpx y; y.add(s); for (auto &f : y.all) if (m.t.emplace(f, p.first).second) nw.insert(f); m.x.add(s); C.desc << " " << p.first << vh::show(s); for (auto &c : ret) got.insert(Fl.complex().get_cell(c.dim, c.ind)); for (auto &f : nw) REQUIRE(got.count(f), "recursive-return", vh::show(f)); }
  C.nontrivial(); as_model(Fl, m, "recursive"); run(C, Fl, true);
  auto mg = model(r); for (auto s : sp::random_order(r, mg.x)) Gl.add(mg.t.at(s), s); bool ok = true; for (auto &p : mg.t) ok &= !m.t.count(p.first) || m.t[p.first] == p.second; auto U = Fl; U.union_add(Gl); Model u = m; for (auto &p : mg.t) u.t.emplace(p.first, p.second); size_t n = 0; for (size_t k = 0; k <= U.maxdim(); k++) for (size_t i = 0; i < U.ncells(k); i++) { auto s = U.complex().get_cell(k, i); REQUIRE(u.t.count(s), "union-cell", vh::show(s)); bool a1 = m.t.count(s) && m.t[s] == U.vals(k)[i], b1 = mg.t.count(s) && mg.t[s] == U.vals(k)[i]; REQUIRE(a1 || b1, "union-value", vh::show(s)); n++; } REQUIRE(n == u.t.size(), "union-size", n << " for " << u.t.size()); (void)ok;
}
// arbitrary chain complexes as filtered differential graded spaces, any filtration order
FAMILY(chains, 120, 2000) {
  Rng &r = C.rng; Src s = rand_src(r, 6); C.desc << s.show(); if (s.cells() > 2) C.nontrivial(); auto B = sparse_bd(s.D); Vals v = rand_vals(r, B); C.desc << show_vals(v); size_t md = s.D.size() - 1;
  FC A; A.val = v; A.C = s.C; A.perm = stable(v); if (md > 0) A.C.ipermute_basis(A.perm); all_flags(C, A, B, v);
  for (int deg : {-1, 1}) { std::vector<CM> L; for (size_t k = 0; k <= md; k++) L.push_back(sparse(deg == -1 ? s.D[k] : s.D[k].T())); if (deg == -1) L.push_back(CM(s.D[md].c, 0)); else L.push_back(CM(0, s.D[md].c)); FD G(L, v, deg); dg(C, G, B, v, deg, false); }
}
// clique filtrations large enough for divide and conquer to split
FAMILY(large, 3, 20) {
  Rng &r = C.rng; size_t n = r.r(24, 30); bats::Filtration<double, bats::SimplicialComplex> Fl; std::vector<std::vector<double>> w(n, std::vector<double>(n, 0)); bool ties = r.chance(.5); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) w[i][j] = w[j][i] = ties ? r.r(1, 5) : r.u01(); C.desc << "random weights on " << n << " points" << (ties ? ", ties" : ""); C.nontrivial();
  for (size_t i = 0; i < n; i++) { std::vector<size_t> s = {i}; Fl.add(0, s); } for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { std::vector<size_t> s = {i, j}; Fl.add(w[i][j], s); } for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (size_t k = j + 1; k < n; k++) if (r.chance(.3)) { std::vector<size_t> s = {i, j, k}; Fl.add(std::max({w[i][j], w[i][k], w[j][k]}), s); }
  auto B = sparse_bd(bounds(Fl.complex())); FC A(Fl); all_flags(C, A, B, Fl.vals(), true); FD G(Fl, 1, false); for (int m : {0, 3, 6, 9, 12}) same_barcode(reduce_dg(G, m), B, Fl.vals(), std::string("large cohomology ") + MODE[m], true, false);
}
