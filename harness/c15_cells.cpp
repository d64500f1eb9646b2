// C15: adding, deleting, reordering and re-valuing cells equals recomputing from scratch.
#include "filt.hpp"
using namespace vh;
typedef bats::ReducedFilteredChainComplex<double, CM> RFC;
typedef bats::FilteredChainComplex<double, CM> FC;
typedef bats::FilteredDGVectorSpace<double, CM> FD;
typedef bats::ReducedFilteredDGVectorSpace<double, CM> RFD;
struct Hush { std::streambuf *b; std::ostringstream o; Hush() { b = std::cout.rdbuf(o.rdbuf()); } ~Hush() { std::cout.rdbuf(b); } };
struct Model { sp::Cpx x; std::map<sp::Sx, double> t; };
static void values(Rng &r, Model &m) { Draw d(r); std::map<sp::Sx, double> t; auto c = m.x.cells(); bool keep = r.chance(.5); for (auto &l : c) for (auto &s : l) { double v = keep && m.t.count(s) ? m.t[s] : d(r); for (auto &f : sp::facets_of(s)) v = std::max(v, t[f]); t[s] = v; } m.t = t; }
static Model first(Rng &r, size_t nv, size_t md) { Model m; m.x = sp::random(r, nv, md, nv > 7 ? r.r(15, 35) : r.r(1, 8)); sp::Sx s = r.subset(nv, md + 1); m.x.add(s); values(r, m); return m; }
// same dimension; cells come and go
static Model change(Rng &r, const Model &a, size_t nv, size_t md) {
  Model m = a; switch (r.r(0, 5)) { case 0: break; case 1: return first(r, nv, md); default: { if (r.chance(.7)) { auto mx = m.x.maximal(); for (auto &s : mx) if (r.chance(.4)) { m.x.all.erase(s); if (r.chance(.5)) for (auto &f : sp::facets_of(s)) { bool used = false; for (auto &q : m.x.all) if (q.size() == f.size() + 1 && std::includes(q.begin(), q.end(), f.begin(), f.end())) used = true; if (!used) m.x.all.erase(f); } } } if (r.chance(.7)) m.x = sp::unite(m.x, sp::random(r, nv, md, nv > 7 ? r.r(1, 15) : r.r(1, 4))); } }
  if (m.x.dim() < (int)md) m.x.add(r.subset(nv, md + 1)); values(r, m); return m;
}
template <class X> bats::Filtration<double, X> build(Rng &r, const Model &m, size_t nv, size_t md) {
  auto fill = [&](bats::Filtration<double, X> &F) { auto o = sp::random_order(r, m.x); if (r.chance(.3)) std::stable_sort(o.begin(), o.end(), [&](auto &a, auto &b) { return std::make_pair(m.t.at(a), a.size()) < std::make_pair(m.t.at(b), b.size()); }); for (auto s : o) F.add(m.t.at(s), s); };
  if constexpr (std::is_same<X, bats::SimplicialComplex>::value) { bats::Filtration<double, X> F; fill(F); return F; } else { bats::Filtration<double, X> F(nv, md); fill(F); return F; }
}
template <class X> std::vector<SMx> bounds(const X &x) { std::vector<DM> D; D.push_back(DM(0, x.ncells(0))); for (size_t k = 1; k <= x.maxdim(); k++) D.push_back(dense_csc(x.boundary_csc(k))); return sparse_bd(D); }
static void state(Case &C, const RFC &Z, const std::vector<SMx> &B, const Vals &v, const std::string &w) { std::vector<SMx> L; std::vector<size_t> rows; same_barcode(Z, B, v, w); chain_maps(B, Z.perm, L, rows); invariants(Z.RC, L, rows, w); for (size_t k = 0; k < v.size(); k++) { size_t n = 0; for (auto &p : Z.persistence_pairs(k)) n += p.death_ind == bats::NO_IND; REQUIRE(Z.hdim(k) == n, "betti", w << " dimension " << k); } C.count("states"); }
static void state(Case &C, const RFD &Z, const std::vector<SMx> &B, const Vals &v, int deg, const std::string &w) { std::vector<SMx> L; std::vector<size_t> rows; same_barcode(Z, B, v, w, deg == 1); dg_maps(B, Z.perm, deg, false, L, rows); invariants(Z.RC, L, rows, w, deg); for (size_t k = 0; k < v.size(); k++) { size_t n = 0; for (auto &p : Z.persistence_pairs(k)) n += p.death_ind == bats::NO_IND; REQUIRE(Z.hdim(k) == n, "betti", w << " dimension " << k); } C.count("states"); }
typedef bats::standard_reduction_flag S; typedef bats::extra_reduction_flag XF; typedef bats::clearing_flag Cl; typedef bats::compute_basis_flag Bf;
template <class Z, class A> Z start(const A &a, int m) { switch (m) { case 0: return Z(a); case 1: return Z(a, S(), Bf()); case 2: return Z(a, XF(), Bf()); default: return Z(a, S(), Cl(), Bf()); } }
template <class X> struct Seq { std::vector<bats::Filtration<double, X>> F; std::vector<std::vector<SMx>> B; };
template <class X> Seq<X> seq(Case &C) { Rng &r = C.rng; bool big = r.chance(.02); size_t md = big ? r.r(1, 2) : r.chance(.02) ? r.r(4, 7) : r.r(0, 3), nv = big ? r.r(12, md == 1 ? 45 : 15) : md > 3 ? r.r(md + 1, md + 2) : r.r(md + 1, 7); Model m = first(r, nv, md); Seq<X> s; int n = r.chance(.03) ? r.r(5, 10) : r.r(1, 3); for (int i = 0; i <= n; i++) { if (i) m = change(r, m, nv, md); s.F.push_back(build<X>(r, m, nv, md)); s.B.push_back(bounds(s.F.back().complex())); C.desc << (i ? " -> " : "") << sp::show(m.x) << show_vals(s.F.back().vals()); } C.nontrivial(); return s; }
// the printed account of an update: every simplex that leaves, comes or stays, with its places in the two filtered orders
template <class U, class X> void detail(Case &C, U &UI, const bats::Filtration<double, X> &F, const bats::Filtration<double, X> &G, const std::string &w) {
  std::map<sp::Sx, size_t> at[2]; const bats::Filtration<double, X> *fs[2] = {&F, &G}; const Perms *ps[2] = {&UI.F_X_perms, &UI.F_Y_perms};
  for (int z = 0; z < 2; z++) { check_perm(*ps[z], fs[z]->vals(), w + " order"); for (size_t k = 0; k < ps[z]->size(); k++) { auto v = fs[z]->complex().get_simplices(k); for (size_t i = 0; i < v.size(); i++) { sp::Sx s(v[(*ps[z])[k][i]].begin(), v[(*ps[z])[k][i]].end()); std::sort(s.begin(), s.end()); at[z][s] = i; } } }
  std::string t; { Hush h; UI.print_detail(); t = h.o.str(); } std::istringstream in(t); std::string l; int sec = 0; sp::Sx cur; std::map<sp::Sx, int> seen; size_t bd = 0;
  while (std::getline(in, l)) { if (l.find("Deletion") == 0) sec = 1; else if (l.find("Addition") == 0) sec = 2; else if (l.find("Intersection") == 0) sec = 3; else if (l.find("Transformed") == 0) sec = 0; std::vector<size_t> in_, out; bool b = false; for (size_t i = 0; i < l.size(); i++) { if (l[i] == '{') b = true; else if (l[i] == '}') b = false; else if (isdigit(l[i])) { size_t n = 0; while (i < l.size() && isdigit(l[i])) n = n * 10 + (l[i++] - '0'); i--; (b ? in_ : out).push_back(n); } }
    if (sec && l.find("\t{") == 0) { cur = sp::Sx(in_.begin(), in_.end()); std::sort(cur.begin(), cur.end()); REQUIRE(seen.emplace(cur, sec).second, "detail-twice", w << " " << show(cur)); bool x = at[0].count(cur), y = at[1].count(cur); REQUIRE(sec == (x && y ? 3 : x ? 1 : y ? 2 : 0), "detail-section", w << " " << show(cur) << " printed in section " << sec); std::vector<size_t> e; if (x) e.push_back(at[0][cur]); if (y) e.push_back(at[1][cur]); REQUIRE(out == e, "detail-index", w << " " << show(cur) << " " << show(out) << " expected " << show(e)); }
    else if (sec == 2 && l.find("\twith boundary") == 0) { bd++; std::vector<size_t> e; for (auto &f : sp::facets_of(cur)) e.push_back(at[1].at(f)); std::sort(e.begin(), e.end()); REQUIRE(out == e, "detail-boundary", w << " " << show(cur) << " " << show(out) << " expected " << show(e)); } }
  size_t all = 0, nb = 0; for (auto &q : at[0]) all += !at[1].count(q.first); all += at[1].size(); for (auto &q : at[1]) nb += q.first.size() > 1 && !at[0].count(q.first); REQUIRE(seen.size() == all && bd == nb, "detail-missing", w << " " << seen.size() << " simplices printed of " << all); C.count("details");
}
#if FIELD == 2
// what a caller may do with an update before applying it
template <class U, class X> void handle(Case &C, U &UI, const Perms &perm, int deg, const bats::Filtration<double, X> &F, const bats::Filtration<double, X> &G, const std::string &w) { Rng &r = C.rng; if (r.chance(.15)) detail(C, UI, F, G, w); for (int i = r.chance(.3) ? r.r(1, 2) : 0; i--;) { UI.filtered_info(perm, deg); C.count("filtered_again"); } if (r.chance(.1)) detail(C, UI, F, G, w + " again"); }
template <class X> void chains(Case &C) {
  Rng &r = C.rng; auto s = seq<X>(C); FC A(s.F[0]); int m0 = r.r(0, 3); RFC Z = start<RFC>(A, m0); bool std_ = r.chance(.5); C.desc << " start " << m0 << " arguments " << std_;
  for (size_t i = 1; i < s.F.size(); i++) { Hush h; bats::Update_info UI(s.F[i - 1], s.F[i]); std::string w = "update " + std::to_string(i); handle(C, UI, r.chance(.5) ? Z.perm : A.perm, -1, s.F[i - 1], s.F[i], w); if (std_) Z.update_filtration_general(UI, S()); else Z.update_filtration_general(UI); state(C, Z, s.B[i], s.F[i].vals(), w); if (r.chance(.2)) Z.sparsify_basis(); RFC fresh((FC(s.F[i]))); REQUIRE(bats::test_reduce_result(Z, fresh), "test_reduce_result", w);
    A.update_filtration_general(UI); auto v = s.F[i].vals(); REQUIRE(A.val == v, "values", w); check_perm(A.perm, v, w); for (size_t k = 0; k < v.size(); k++) REQUIRE(A.C.boundary[k].ncol() == v[k].size(), "updated-complex", w << " boundary " << k << " has " << A.C.boundary[k].ncol() << " columns"); for (size_t k = 1; k < v.size(); k++) REQUIRE(A.C.boundary[k].nrow() == v[k - 1].size() && smx(A.complex()[k], w) == in_order(s.B[i][k], A.perm[k], A.perm[k - 1]), "updated-complex", w << " boundary " << k); C.count("updates"); }
}
FAMILY(general_trie, 400, 5000) { chains<bats::SimplicialComplex>(C); }
FAMILY(general_light, 300, 4000) { chains<bats::LightSimplicialComplex<size_t>>(C); }
template <class X> void dgs(Case &C, bool clearing) {
  Rng &r = C.rng; auto s = seq<X>(C); int m0 = r.r(0, 3); bool std_ = r.chance(.5); C.desc << " start " << m0 << " arguments " << std_;
  for (int deg : {-1, 1}) { RFD Z = start<RFD>(FD(s.F[0], deg), m0); for (size_t i = 1; i < s.F.size(); i++) { Hush h; bats::Update_info UI(s.F[i - 1], s.F[i]); std::string w = std::string(clearing ? "clearing " : "") + "degree " + std::to_string(deg) + " update " + std::to_string(i); handle(C, UI, Z.perm, deg, s.F[i - 1], s.F[i], w); if (clearing) { if (std_) Z.update_filtration_general_clearing(UI, S()); else Z.update_filtration_general_clearing(UI); } else { if (std_) Z.update_filtration_general(UI, S()); else Z.update_filtration_general(UI); } state(C, Z, s.B[i], s.F[i].vals(), deg, w); C.count("updates"); } }
}
FAMILY(dg_trie, 300, 4000) { dgs<bats::SimplicialComplex>(C, false); }
FAMILY(dg_light, 200, 3000) { dgs<bats::LightSimplicialComplex<size_t>>(C, false); }
FAMILY(dg_clearing_trie, 300, 4000) { dgs<bats::SimplicialComplex>(C, true); }
FAMILY(dg_clearing_light, 200, 3000) { dgs<bats::LightSimplicialComplex<size_t>>(C, true); }
#endif
template <class X> void info2(Case &C) {
  Rng &r = C.rng; auto s = seq<X>(C); int m0 = r.r(0, 3); C.desc << " start " << m0;
  for (int deg : {-1, 1}) { RFD Z = start<RFD>(FD(s.F[0], deg), m0); for (size_t i = 1; i < s.F.size(); i++) { Hush h; bats::UpdateInfo2 UI(s.F[i - 1], s.F[i]); std::string w = "degree " + std::to_string(deg) + " update " + std::to_string(i); Z.update_basis(UI); state(C, Z, s.B[i], s.F[i].vals(), deg, w); C.count("updates"); } }
}
FAMILY(info2_trie, 300, 4000) { info2<bats::SimplicialComplex>(C); }
FAMILY(info2_light, 200, 3000) { info2<bats::LightSimplicialComplex<size_t>>(C); }
// every kind of update in one history, with changes of values in between
template <class X> void mixed(Case &C) {
  Rng &r = C.rng; auto s = seq<X>(C); int m0 = r.r(0, 3); C.desc << " start " << m0; int deg = r.chance(.5) ? -1 : 1; C.desc << " degree " << deg;
  RFD Z = start<RFD>(FD(s.F[0], deg), m0); auto cur = s.F[0]; for (size_t i = 1; i < s.F.size(); i++) { Hush h; std::string w = "step " + std::to_string(i);
    for (int t = r.r(0, 2); t--;) { auto v = rand_vals(r, s.B[i - 1]); C.desc << " v" << show_vals(v); Z.update_filtration(v); cur = bats::Filtration<double, X>(cur.complex(), v); state(C, Z, s.B[i - 1], v, deg, w + " after new values"); C.count("value_changes"); }
    int kind = FIELD == 2 ? r.r(0, 2) : 2; C.desc << " kind " << kind; if (kind == 2) { bats::UpdateInfo2 UI(cur, s.F[i]); Z.update_basis(UI); }
#if FIELD == 2
    else { bats::Update_info UI(cur, s.F[i]); handle(C, UI, Z.perm, deg, cur, s.F[i], w); if (kind == 1) Z.update_filtration_general_clearing(UI); else if (r.chance(.5)) Z.update_filtration_general(UI, S()); else Z.update_filtration_general(UI); }
#endif
    cur = s.F[i]; state(C, Z, s.B[i], s.F[i].vals(), deg, w + " kind " + std::to_string(kind)); C.count("updates"); }
}
FAMILY(mixed_trie, 200, 3000) { mixed<bats::SimplicialComplex>(C); }
FAMILY(mixed_light, 150, 2000) { mixed<bats::LightSimplicialComplex<size_t>>(C); }
