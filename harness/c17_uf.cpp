// C17: zero-dimensional persistence by union-find.
#include "filt.hpp"
using namespace vh;
// elder rule on weighted graphs, components kept as plain sets
template <class T> std::vector<std::pair<T, T>> elder(const std::vector<T> &v, const std::vector<std::array<size_t, 2>> &e, const std::vector<T> &t) {
  size_t n = v.size(); std::vector<size_t> comp(n); for (size_t i = 0; i < n; i++) comp[i] = i; std::vector<std::pair<T, T>> out; std::vector<size_t> o(e.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i; std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return t[a] < t[b]; });
  auto birth = [&](size_t c) { T b = std::numeric_limits<T>::infinity(); for (size_t i = 0; i < n; i++) if (comp[i] == c) b = std::min(b, v[i]); return b; };
  for (auto k : o) { size_t a = comp[e[k][0]], b = comp[e[k][1]]; if (a == b) continue; T x = birth(a), y = birth(b); out.push_back({std::max(x, y), t[k]}); for (auto &c : comp) if (c == b) c = a; }
  std::set<size_t> s(comp.begin(), comp.end()); for (auto c : s) out.push_back({birth(c), std::numeric_limits<T>::infinity()}); std::sort(out.begin(), out.end()); return out;
}
template <class T, class PP> std::vector<std::pair<T, T>> pd(PP P, bool idx, size_t n, size_t m, const std::string &w) {
  std::vector<std::pair<T, T>> o; std::set<size_t> b, d; for (auto &p : P) { REQUIRE(p.dim == 0, "dimension", w << " " << p.str()); o.push_back({p.birth, p.death}); if (idx) { REQUIRE(p.birth_ind < n && b.insert(p.birth_ind).second, "birth-index", w << " " << p.str()); if (p.death_ind != bats::NO_IND) REQUIRE(p.death_ind < m && d.insert(p.death_ind).second, "death-index", w << " " << p.str()); } } std::sort(o.begin(), o.end()); return o;
}
template <class T> std::string sh(const std::vector<std::pair<T, T>> &v) { std::ostringstream o; for (auto &p : v) o << "(" << p.first << "," << p.second << ")"; return o.str(); }
template <class T, class X> void compare(Case &C, const bats::Filtration<T, X> &Fl, const std::vector<std::array<size_t, 2>> &e, const std::string &w) {
  auto v = Fl.vals(); std::vector<T> t; if (v.size() > 1) t = v[1]; auto want = elder<T>(v[0], e, t); bats::FilteredChainComplex<T, CM> A(Fl);
  auto U = bats::union_find_pairs(A); auto got = pd<T>(U, true, v[0].size(), t.size(), w); REQUIRE(got == want, "union-find", w << " " << sh(got) << " expected " << sh(want));
  bats::ReducedFilteredChainComplex<T, CM> Z(A); auto gen = pd<T>(Z.persistence_pairs(0), true, v[0].size(), t.size(), w); REQUIRE(gen == want, "general-reduction", w << " " << sh(gen) << " expected " << sh(want)); REQUIRE(gen == got, "agree", w);
  size_t inf = 0; for (auto &p : U) inf += p.death_ind == bats::NO_IND; REQUIRE(inf == Z.hdim(0), "infinite-bars", w << " " << inf << " for " << Z.hdim(0)); C.count("pairs", U.size()); C.count("finite", U.size() - inf);
}
template <class T> std::vector<T> values(Rng &r, size_t n) { std::vector<T> v; int m = r.r(0, 6); T b = r.r(-3, 3); for (size_t i = 0; i < n; i++) v.push_back(m == 0 ? T(r.r(0, 2)) : m == 1 ? b : m == 2 ? T(1) + T(r.r(0, 4)) * (sizeof(T) == 8 ? T(1e-12) : T(1e-6)) : m == 3 ? T(sizeof(T) == 8 ? 1e12 : 1e6) + r.r(0, 5) : m == 4 ? T(r.chance(.2) ? -std::numeric_limits<T>::infinity() : r.r(-3, 3)) : T(r.u(-5, 5))); return v; }
template <class T, class X, class G> void graph(Case &C, G empty, const std::string &w) {
  Rng &r = C.rng; bool big = r.chance(.015); size_t n = big ? r.r(30, 150) : r.chance(.1) ? 1 : r.r(2, 12); double p = big ? r.pick(std::vector<double>{.01, .03, .06}) : r.pick(std::vector<double>{.05, .15, .3, .7, 1}); auto v = values<T>(r, n); auto tt = values<T>(r, n * n); std::vector<std::array<size_t, 2>> e; std::vector<T> t; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (r.chance(p)) { e.push_back({i, j}); } r.shuffle(e);
  for (auto &q : e) t.push_back(std::max({v[q[0]], v[q[1]], tt[q[0] * n + q[1]]})); if (r.chance(.1)) for (auto &x : t) if (r.chance(.2)) x = std::numeric_limits<T>::infinity();
  C.desc << w << " v=" << show(v) << " e="; for (size_t i = 0; i < e.size(); i++) C.desc << e[i][0] << "-" << e[i][1] << ":" << t[i] << " "; C.nontrivial();
  bats::Filtration<T, X> Fl(empty(n)); for (size_t i = 0; i < n; i++) { std::vector<size_t> s = {i}; Fl.add(v[i], s); } for (size_t i = 0; i < e.size(); i++) { std::vector<size_t> s = {e[i][0], e[i][1]}; Fl.add(t[i], s); }
  if (r.chance(.3)) { std::map<std::array<size_t, 2>, T> et; for (size_t i = 0; i < e.size(); i++) et[e[i]] = t[i]; for (size_t a = 0; a < n; a++) for (size_t b = a + 1; b < n; b++) for (size_t c = b + 1; c < n; c++) if (et.count({a, b}) && et.count({b, c}) && et.count({a, c}) && r.chance(.4)) { std::vector<size_t> s = {a, b, c}; Fl.add(std::max({et[{a, b}], et[{b, c}], et[{a, c}]}), s); } }
  if (Fl.vals().size() < 2) { auto U = bats::union_find_pairs(bats::FilteredChainComplex<T, CM>(Fl)); auto want = elder<T>(v, e, t); REQUIRE((pd<T>(U, true, n, 0, w)) == want, "union-find", w << " vertices only"); C.count("vertices_only"); }
  compare<T>(C, Fl, e, w);
  // values changed after the complex was built
  if (r.chance(.5)) { auto v2 = Fl.vals(); v2[0] = values<T>(r, n); for (size_t i = 0; i < e.size(); i++) v2[1][i] = std::max({v2[0][e[i][0]], v2[0][e[i][1]], T(r.r(-2, 6))}); for (size_t k = 2; k < v2.size(); k++) for (auto &x : v2[k]) x = std::numeric_limits<T>::infinity(); bats::FilteredChainComplex<T, CM> A(Fl); A.update_filtration(v2); auto got = pd<T>(bats::union_find_pairs(A), true, n, e.size(), w); auto want = elder<T>(v2[0], e, v2.size() > 1 ? v2[1] : std::vector<T>()); REQUIRE(got == want, "union-find-updated", w << " " << sh(got) << " expected " << sh(want)); C.count("updated"); }
}
FAMILY(trie, 900, 15000) { if (C.rng.chance(.5)) graph<double, bats::SimplicialComplex>(C, [](size_t n) { return bats::SimplicialComplex(n, 2); }, "trie"); else graph<double, bats::SimplicialComplex>(C, [](size_t) { return bats::SimplicialComplex(); }, "trie"); }
FAMILY(light, 600, 10000) { graph<double, bats::LightSimplicialComplex<size_t>>(C, [](size_t n) { return bats::LightSimplicialComplex<size_t>(n, 2); }, "light"); }
FAMILY(single, 400, 6000) { graph<float, bats::SimplicialComplex>(C, [](size_t n) { return bats::SimplicialComplex(n, 1); }, "float"); }
// cell complexes: parallel edges and loops
FAMILY(cells, 600, 9000) {
  Rng &r = C.rng; bool big = r.chance(.02); size_t n = r.r(1, big ? 120 : 8), m = r.r(0, big ? 250 : 14); bats::CellComplex X(2); X.add_vertices(n); auto v = values<double>(r, n); std::vector<std::array<size_t, 2>> e; std::vector<double> t; bool loops = r.chance(.4);
  for (size_t i = 0; i < m; i++) { size_t a = r.r(0, n - 1), b = r.r(0, n - 1); if (a == b) { if (!loops) continue; X.add(std::vector<size_t>(), std::vector<int>(), 1); } else X.add(std::vector<size_t>{std::min(a, b), std::max(a, b)}, std::vector<int>{-1, 1}, 1); e.push_back({a, b}); t.push_back(std::max({v[a], v[b], (double)r.r(-3, 5)})); C.desc << a << "-" << b << ":" << t.back() << " "; }
  C.desc << show(v) << (loops ? " loops" : ""); C.nontrivial(); Vals vals = {v, t}; while (vals.size() <= X.maxdim()) vals.push_back({}); vals.resize(X.maxdim() + 1); bats::Filtration<double, bats::CellComplex> Fl(X, vals); compare<double>(C, Fl, e, "cells"); if (loops) C.count("loops");
}
FAMILY(cubes, 150, 3000) {
  Rng &r = C.rng; std::string d; auto q = make_cc(r, d); C.desc << d; C.nontrivial(); std::vector<SMx> B; std::vector<DM> D; D.push_back(DM(0, q.ncells(0))); for (size_t k = 1; k <= q.maxdim(); k++) D.push_back(dense_csc(q.boundary_csc(k))); B = sparse_bd(D); Vals v = rand_vals(r, B); std::vector<std::array<size_t, 2>> e; if (q.maxdim() > 0) for (auto &c : B[1]) { auto it = c.begin(); size_t a = it->first; ++it; e.push_back({a, it->first}); } bats::Filtration<double, bats::CubicalComplex> Fl(q, v); compare<double>(C, Fl, e, "cubes");
}
// Rips filtrations given by sorted pairwise distances
template <class T> void rips(Case &C, size_t n) {
  Rng &r = C.rng; size_t m = n * (n - 1) / 2; std::vector<T> d; std::vector<std::array<size_t, 2>> e; int kind = r.r(0, 3); std::vector<double> x; for (size_t i = 0; i < n; i++) x.push_back(r.r(0, 3 * n)); for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { e.push_back({i, j}); d.push_back(kind == 0 ? T(r.r(0, 3)) : kind == 1 ? T(r.u(0, 5)) : kind == 2 ? T(std::fabs(x[i] - x[j])) : T(1) + T(r.r(0, 3)) * (sizeof(T) == 8 ? T(1e-12) : T(1e-6))); }
  std::vector<size_t> o(m); for (size_t i = 0; i < m; i++) o[i] = i; if (r.chance(.5)) r.shuffle(o); std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return d[a] < d[b]; }); std::vector<T> v(n, 0); if (n < 14) C.desc << show(d); else C.desc << n << " " << kind << " " << x[0]; C.nontrivial();
  auto want = elder<T>(v, e, d); auto P = bats::rips_union_find_pairs(o, d); auto got = pd<T>(P, true, n, m, "rips"); REQUIRE(got == want, "rips-union-find", sh(got) << " expected " << sh(want)); for (auto &p : P) if (p.death_ind != bats::NO_IND) REQUIRE(p.death == d[o[p.death_ind]] || p.death == d[p.death_ind], "rips-death-index", p.str()); C.count("rips"); C.count("pairs", P.size());
  if (n <= 12) { bats::Matrix<T> D(n, n); for (size_t i = 0; i < n; i++) D(i, i) = 0; for (size_t k = 0; k < m; k++) D(e[k][0], e[k][1]) = D(e[k][1], e[k][0]) = d[k]; auto Fl = bats::RipsFiltration<bats::SimplicialComplex>(D, std::numeric_limits<T>::infinity(), 2); std::vector<std::array<size_t, 2>> e2; if (Fl.complex().maxdim() > 0) for (size_t i = 0; i < Fl.complex().ncells(1); i++) { auto s = Fl.complex().get_cell(1, i); e2.push_back({s[0], s[1]}); } compare<T>(C, Fl, e2, "rips filtration"); }
}
FAMILY(rips, 700, 12000) { rips<double>(C, C.rng.chance(.02) ? C.rng.r(30, 90) : C.rng.r(1, 20)); }
FAMILY(rips_single, 150, 3000) { rips<float>(C, C.rng.r(1, 12)); }
FAMILY(indices, 60, 300) {
  Rng &r = C.rng; size_t N = C.idx < 50 ? C.idx + 1 : r.r(50, 200); C.desc << N; C.nontrivial(); size_t k = 0; for (size_t i = 0; i < N; i++) for (size_t j = i + 1; j < N; j++) { auto [a, b] = bats::binom_to_inds(k, N); REQUIRE(a == i && b == j, "pair-index", N << ": " << k << " is " << a << "," << b << " expected " << i << "," << j); k++; } REQUIRE(bats::k_choose_2(N) == k, "choose", N);
  size_t big = r.r(1000, 3000000); for (int q = 0; q < 200; q++) { size_t i = r.chance(.3) ? r.pick(std::vector<size_t>{0, 1, big - 2, big - 3}) : r.r(0, big - 2), j = r.chance(.3) ? r.pick(std::vector<size_t>{i + 1, big - 1}) : r.r(i + 1, big - 1); size_t ix = i * big - i * (i + 1) / 2 + (j - i - 1); auto [a, b] = bats::binom_to_inds(ix, big); REQUIRE(a == i && b == j, "pair-index", big << ": " << ix << " is " << a << "," << b << " expected " << i << "," << j); size_t t = r.r(1, 1000000000); size_t c = bats::k_choose_2_inv(t); REQUIRE(c * (c - 1) / 2 >= t && (c - 1) * (c - 2) / 2 < t, "choose-inverse", t << " gives " << c); }
  std::vector<size_t> par(N), model; for (size_t i = 0; i < N; i++) par[i] = i ? r.r(0, i) : 0; r.chance(.5) ? (void)0 : (void)0; std::vector<size_t> root(N); for (size_t i = 0; i < N; i++) { size_t x = i; while (par[x] != x) x = par[x]; root[i] = x; } for (int q = 0; q < 30; q++) { size_t i = r.r(0, N - 1); REQUIRE(bats::find_parent(par, i) == root[i], "find-parent", i); for (size_t z = 0; z < N; z++) { size_t x = z, g = 0; while (par[x] != x && g++ <= N) x = par[x]; REQUIRE(x == root[z], "find-parent", "compression moved " << z << " to another root"); } }
}
// Morse pairings: edges offered in filtration order pair as union-find does; cells added with pairing form a matching of faces with cofaces
FAMILY(pairing_edges, 400, 8000) {
  Rng &r = C.rng; bool big = r.chance(.02); size_t n = r.r(1, big ? 150 : 10), m = r.r(0, big ? 300 : 20); auto v = values<double>(r, n); bool rank = r.chance(.6); if (!rank) for (size_t i = 0; i < n; i++) v[i] = i; std::vector<std::array<size_t, 2>> e; std::vector<double> t; for (size_t k = 0; k < m; k++) { size_t a = r.r(0, n - 1), b = r.r(0, n - 1); e.push_back({a, b}); t.push_back(std::max({v[a], v[b], (double)r.r(-2, 12)})); }
  std::vector<size_t> o(m); for (size_t i = 0; i < m; i++) o[i] = i; std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return t[a] < t[b]; }); C.desc << show(v) << (rank ? " ranked" : ""); for (auto k : o) C.desc << " " << e[k][0] << "-" << e[k][1] << ":" << t[k]; C.nontrivial();
  MorsePairing<bats::SimplicialComplex> M(std::vector<size_t>{n, m}); auto want = elder<double>(v, e, t); for (int round = 0; round < 2; round++) { std::string w = round ? "after clear" : "new"; REQUIRE(M.maxdim() == 1 && M.ncells(0) == n && M.size(1) == m, "pairing-size", w); for (size_t i = 0; i < n; i++) REQUIRE(!M.is_paired(0, i), "pairing-paired", w); size_t made = 0; std::vector<char> killed(m, 0);
    for (auto k : o) { bool did = rank ? M.set_pair_edge(e[k][0], e[k][1], k, v) : M.set_pair_edge(e[k][0], e[k][1], k); made += did; killed[k] = did; REQUIRE(M.is_paired(1, k) == did, "pairing-paired", w << " edge " << k); } auto &U = M.up_paired(0); auto &D = M.down_paired(1); REQUIRE(U.size() == made && D.size() == made, "pairing-count", w); std::vector<std::pair<double, double>> got; std::set<size_t> us, ds; for (size_t i = 0; i < made; i++) { REQUIRE(us.insert(U[i]).second && ds.insert(D[i]).second && killed[D[i]] && M.is_paired(0, U[i]), "pairing-twice", w << " " << U[i] << "," << D[i]); got.push_back({v[U[i]], t[D[i]]}); }
    auto f0 = M.unpaired(0), f1 = M.unpaired(1); REQUIRE(f0.size() == n - made && f1.size() == m - made, "pairing-unpaired", w); for (auto i : f0) { REQUIRE(!us.count(i), "pairing-unpaired", w); got.push_back({v[i], INF}); } for (auto i : f1) REQUIRE(!ds.count(i), "pairing-unpaired", w); std::sort(got.begin(), got.end()); REQUIRE(got == want, "pairing", w << " " << sh(got) << " expected " << sh(want)); M.clear(); } C.count("edge_pairings");
}
FAMILY(pairing_cells, 200, 4000) {
  Rng &r = C.rng; auto x = r.chance(.5) ? sp::random_space(r) : sp::random(r, r.r(1, 6), r.r(0, 3), r.r(1, 6)); auto ord = sp::random_order(r, x); size_t cut = r.chance(.5) ? 0 : r.r(0, ord.size()); C.desc << sp::show(x) << " " << cut << " before"; C.nontrivial(); bats::SimplicialComplex X; for (size_t i = 0; i < cut; i++) X.add(ord[i]); MorsePairing<bats::SimplicialComplex> M(X); std::map<size_t, std::vector<std::pair<size_t, size_t>>> pairs;
  for (size_t i = cut; i < ord.size(); i++) { auto s = ord[i]; auto c = M.add_pair(s); REQUIRE(c.dim + 1 == s.size() && X.get_simplex(c.dim, c.ind) == s, "pairing-added", sp::show(x)); }
  for (size_t k = 0; k <= X.maxdim(); k++) REQUIRE(M.maxdim() >= X.maxdim() && M.ncells(k) >= X.ncells(k), "pairing-size", "dimension " << k << ": " << M.ncells(k) << " for " << X.ncells(k)); long chi = 0, free = 0; for (size_t k = 0; k <= X.maxdim(); k++) { chi += (k % 2 ? -1 : 1) * (long)X.ncells(k); for (auto i : M.unpaired(k)) if (i < X.ncells(k)) free += k % 2 ? -1 : 1; }
  std::vector<std::set<size_t>> used(X.maxdim() + 1); for (size_t k = 0; k < X.maxdim(); k++) { auto &U = M.up_paired(k); auto &D = M.down_paired(k + 1); REQUIRE(U.size() == D.size(), "pairing-count", k); for (size_t i = 0; i < U.size(); i++) { REQUIRE(U[i] < X.ncells(k) && D[i] < X.ncells(k + 1) && M.is_paired(k, U[i]) && M.is_paired(k + 1, D[i]), "pairing-index", k); REQUIRE(used[k].insert(U[i]).second && used[k + 1].insert(D[i]).second, "pairing-twice", "dimension " << k << " " << U[i] << "," << D[i]); auto a = X.get_simplex(k, U[i]), b = X.get_simplex(k + 1, D[i]); if (k) REQUIRE(std::includes(b.begin(), b.end(), a.begin(), a.end()), "pairing-not-a-face", vh::show(a) << " and " << vh::show(b)); } for (size_t i = 0; i < X.ncells(k); i++) REQUIRE(M.is_paired(k, i) == (used[k].count(i) > 0), "pairing-paired", "dimension " << k << " cell " << i); }
  REQUIRE(chi == free, "pairing-euler", chi << " and " << free); if (!cut) { std::vector<std::array<size_t, 2>> e; std::vector<double> t; for (size_t i = 0; i < X.ncells(1); i++) { auto s = X.get_simplex(1, i); auto at = [&](size_t q) { for (size_t j = 0; j < X.ncells(0); j++) if (X.get_simplex(0, j)[0] == q) return j; return bats::NO_IND; }; e.push_back({at(s[0]), at(s[1])}); t.push_back(i); } size_t comp = 0; for (auto &p : elder<double>(std::vector<double>(X.ncells(0), -1), e, t)) comp += p.second == INF; size_t got = 0; for (auto i : M.unpaired(0)) got += i < X.ncells(0); REQUIRE(got == comp, "pairing-components", got << " expected " << comp); } C.count("cell_pairings");
}
