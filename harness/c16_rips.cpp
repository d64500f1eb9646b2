// C16: Rips, flag and lower-star constructions.
#include "filt.hpp"
#include <filtration/rips.hpp>
using namespace vh;
typedef bats::SimplicialComplex SC;
typedef bats::LightSimplicialComplex<size_t> LC;
typedef bats::LightSimplicialComplex<size_t, std::map<size_t, size_t>> LM;
typedef std::vector<std::vector<double>> Pts;
typedef std::map<sp::Sx, double> Valued;
// ---- reference
static double ref_dist(int m, const std::vector<double> &x, const std::vector<double> &y) {
  long double s = 0, a = 0, b = 0; for (size_t i = 0; i < x.size(); i++) { long double d = (long double)x[i] - y[i]; if (m == 0) s += d * d; else if (m == 1) s += std::fabs(d); else if (m == 2) s = std::max(s, std::fabs(d)); else { s += (long double)x[i] * y[i]; a += (long double)x[i] * x[i]; b += (long double)y[i] * y[i]; } }
  if (m == 0) return std::sqrt(s); if (m < 3) return s; return 1 - s / std::sqrt(a * b);
}
static Valued cliques(size_t n, size_t dmax, const std::map<std::pair<size_t, size_t>, double> &e, double t0) {
  Valued v; std::vector<sp::Sx> cur; for (size_t i = 0; i < n; i++) { v[{i}] = t0; cur.push_back({i}); }
  for (size_t d = 1; d <= dmax; d++) { std::vector<sp::Sx> nx; for (auto &s : cur) for (size_t k = s.back() + 1; k < n; k++) { double t = v[s]; bool ok = true; bool first = d == 1; for (auto u : s) { auto it = e.find({u, k}); if (it == e.end()) { ok = false; break; } t = first ? it->second : std::max(t, it->second); first = false; } if (ok) { auto q = s; q.push_back(k); v[q] = t; nx.push_back(q); } } cur = nx; }
  return v;
}
template <class X> void cells_are(const X &x, const Valued &want, const std::string &w) {
  std::set<sp::Sx> got; size_t tot = 0; for (size_t k = 0; k <= x.maxdim(); k++) for (size_t i = 0; i < x.ncells(k); i++) { sp::Sx s = x.get_cell(k, i); REQUIRE(s.size() == k + 1 && std::is_sorted(s.begin(), s.end()), "cell-shape", w << " " << show(s)); REQUIRE(want.count(s), "cell-not-a-clique", w << " " << show(s)); REQUIRE(got.insert(s).second, "cell-twice", w << " " << show(s)); tot++; }
  for (auto &p : want) REQUIRE(got.count(p.first), "clique-missing", w << " " << show(p.first)); REQUIRE(x.ncells() == tot, "ncells", w << " " << x.ncells() << " for " << tot);
}
static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)); }
template <class T, class X> void filtration_is(Case &C, const bats::Filtration<T, X> &Fl, const Valued &want, const std::string &w, bool edges_increase = true) {
  const X &x = Fl.complex(); cells_are(x, want, w); REQUIRE(Fl.vals().size() >= 1, "filtration-empty", w); std::map<sp::Sx, T> v;
  for (size_t k = 0; k <= x.maxdim(); k++) { size_t nv = k < Fl.vals().size() ? Fl.vals(k).size() : 0; REQUIRE(nv == x.ncells(k), "values-size", w << " dimension " << k << ": " << nv << " values for " << x.ncells(k)); for (size_t i = 0; i < nv; i++) { auto s = x.get_cell(k, i); v[s] = Fl.vals(k)[i]; REQUIRE(close(v[s], want.at(s)), "value", w << " " << show(s) << " has " << v[s] << " expected " << want.at(s)); } }
  for (auto &p : v) { auto &s = p.first; for (auto &f : sp::facets_of(s)) REQUIRE(v.count(f) && (v[f] <= p.second), "not-monotone", w << " " << show(f) << " after " << show(s)); if (s.size() > 2) { T t = 0; bool first = true; for (size_t a = 0; a < s.size(); a++) for (size_t b = a + 1; b < s.size(); b++) { T y = v.at({s[a], s[b]}); t = first ? y : std::max(t, y); first = false; } REQUIRE(t == p.second, "value-not-largest-edge", w << " " << show(s) << " has " << p.second << " largest edge " << t); } }
  C.count("filtrations"); C.count("cells", v.size());
}
struct Input { int metric; Pts p; size_t n, d; std::map<std::pair<size_t, size_t>, double> all, e; double r; };
static const char *MN[] = {"euclidean", "L1", "Linf", "cosine"};
static Input input(Case &C, size_t nmax) {
  Rng &r = C.rng; Input I; I.n = r.chance(.06) ? r.r(0, 1) : r.r(2, nmax); I.d = r.chance(.04) ? r.r(4, 12) : r.r(1, 3); I.metric = r.r(0, 3); int kind = r.r(0, 3);
  for (size_t i = 0; i < I.n; i++) { std::vector<double> x; for (size_t j = 0; j < I.d; j++) x.push_back(kind == 0 ? r.r(0, 2) : kind == 1 ? r.r(-6, 6) : kind == 2 ? r.u(-1, 1) : r.r(0, 4) / 4.0 + (j ? 0 : 10 * r.r(0, 1))); if (kind != 0 && i && r.chance(.1)) x = I.p[r.r(0, i - 1)]; if (I.metric == 3) x[0] = r.pick(std::vector<double>{1, 2, -1}); I.p.push_back(x); }
  std::vector<double> ds; for (size_t i = 0; i < I.n; i++) for (size_t j = i + 1; j < I.n; j++) { double d = ref_dist(I.metric, I.p[i], I.p[j]); I.all[{i, j}] = d; ds.push_back(d); }
  auto nx = [&](double t) { for (auto d : ds) if (d != t && std::fabs(d - t) < 1e-7) return false; return true; };
  do { switch (r.r(0, 5)) { case 0: I.r = INF; break; case 1: I.r = 0; break; case 2: I.r = -1; break; case 3: case 4: if (!ds.empty()) { double t = r.pick(ds); bool exact = I.metric < 3 && t == std::floor(t * 4) / 4 && (I.metric || kind != 2); I.r = exact ? t : t + r.pick(std::vector<double>{-1e-3, 1e-3}); break; } /* fallthrough */ default: I.r = r.u(0, I.metric == 3 ? 2 : 5); } } while (!nx(I.r) || (I.metric == 3 && I.r == 0));
  for (auto &p : I.all) if (p.second <= I.r) I.e.insert(p);
  C.desc << MN[I.metric] << " r=" << I.r; for (auto &x : I.p) C.desc << " " << show(x); return I;
}
template <class T> bats::DataSet<T> data(const Input &I) { bats::Matrix<T> m(I.n, I.d); for (size_t i = 0; i < I.n; i++) for (size_t j = 0; j < I.d; j++) m(i, j) = I.p[i][j]; return bats::DataSet<T>(m); }
template <class T> bats::Matrix<T> pdist(const Input &I) { bats::Matrix<T> m(I.n, I.n); for (size_t i = 0; i < I.n; i++) { m(i, i) = 0; for (size_t j = i + 1; j < I.n; j++) m(i, j) = m(j, i) = I.all.at({i, j}); } return m; }
template <class X, class T, class M> void complexes(Case &C, const Input &I, const M &m, size_t dmax, const std::string &w) {
  auto D = data<T>(I); auto W = cliques(I.n, dmax, I.e, 0); cells_are(bats::RipsComplex<X>(D, m, (T)I.r, dmax), W, w + " complex"); auto P = pdist<T>(I); cells_are(bats::RipsComplex<X>(P, (T)I.r, dmax), W, w + " complex of distances"); C.count("complexes", 2);
}
template <class X> void inds_are(const X &x, const std::vector<std::vector<size_t>> &in, const std::vector<std::pair<size_t, size_t>> &edges, const Valued &want, const std::string &w) {
  REQUIRE(in.size() >= x.maxdim() + 1, "inverse-dimensions", w << " " << in.size()); for (size_t k = 0; k < in.size(); k++) REQUIRE(in[k].size() == (k <= x.maxdim() ? x.ncells(k) : 0), "inverse-size", w << " dimension " << k << ": " << in[k].size() << " for " << x.ncells(k));
  for (size_t k = 0; k <= x.maxdim(); k++) for (size_t i = 0; i < x.ncells(k); i++) { auto s = x.get_cell(k, i); if (k == 0) { REQUIRE(in[0][i] == s[0], "inverse-vertex", w << " " << s[0] << " mapped to " << in[0][i]); continue; } REQUIRE(in[k][i] < edges.size(), "inverse-range", w << " " << in[k][i]); auto e = edges[in[k][i]]; REQUIRE(std::count(s.begin(), s.end(), e.first) && std::count(s.begin(), s.end(), e.second) && e.first != e.second, "inverse-edge-not-in-simplex", w << " " << show(s) << " edge " << e.first << "," << e.second); REQUIRE(close(want.at({std::min(e.first, e.second), std::max(e.first, e.second)}), want.at(s)), "inverse-edge-not-critical", w << " " << show(s)); }
}
template <class X, class T, class M> void filtrations(Case &C, const Input &I, const M &m, size_t dmax, const std::string &w) {
  auto D = data<T>(I); auto W = cliques(I.n, dmax, I.e, 0); auto Fl = bats::RipsFiltration<X>(D, m, (T)I.r, dmax); filtration_is(C, Fl, W, w + " filtration"); auto P = pdist<T>(I); auto G = bats::RipsFiltration<X>(P, (T)I.r, dmax); filtration_is(C, G, W, w + " filtration of distances");
  // the edges in the order the extension sorts them
  { auto E = bats::rips_filtration_edges(D, m, (T)I.r); REQUIRE(E.size() == I.e.size() && std::is_sorted(E.begin(), E.end()), "edges", w << " " << E.size()); std::vector<std::pair<size_t, size_t>> ed; for (auto &e : E) { ed.push_back({e.s, e.t}); REQUIRE(I.e.count({std::min(e.s, e.t), std::max(e.s, e.t)}) && close(e.r, I.e.at({std::min(e.s, e.t), std::max(e.s, e.t)})), "edges", w << " edge " << e.s << "," << e.t); } auto [H, in] = bats::RipsFiltration_extension<X>(D, m, (T)I.r, dmax); filtration_is(C, H, W, w + " extension"); inds_are(H.complex(), in, ed, W, w); }
  { auto E = bats::rips_filtration_edges(P, (T)I.r); std::sort(E.begin(), E.end()); std::vector<std::pair<size_t, size_t>> ed; for (auto &e : E) ed.push_back({e.s, e.t}); auto [H, in] = bats::RipsFiltration_extension<X>(P, (T)I.r, dmax); filtration_is(C, H, W, w + " extension of distances"); inds_are(H.complex(), in, ed, W, w); }
  size_t tot = 0; for (size_t k = 0; k <= Fl.complex().maxdim(); k++) tot += Fl.complex().ncells(k); if (tot && tot < 90) { auto Z = bats::Reduce(Fl, F()); bats::Filtration<T, X> G2 = G; auto Y = bats::Reduce(G2, F()); for (size_t k = 0; k <= dmax && k <= Fl.complex().maxdim(); k++) { std::vector<std::pair<T, T>> a, b; for (auto &p : Z.persistence_pairs(k)) if (p.length() > 1e-6) a.push_back({p.birth, p.death}); for (auto &p : Y.persistence_pairs(k)) if (p.length() > 1e-6) b.push_back({p.birth, p.death}); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); REQUIRE(a.size() == b.size(), "data-vs-distances", w << " dimension " << k << ": " << a.size() << " and " << b.size()); for (size_t i = 0; i < a.size(); i++) REQUIRE(close(a[i].first, b[i].first) && close(a[i].second, b[i].second), "data-vs-distances", w << " dimension " << k); } }
}
#define METRIC(CALL) switch (I.metric) { case 0: { bats::Euclidean m; CALL; break; } case 1: { bats::L1Dist m; CALL; break; } case 2: { bats::LInfDist m; CALL; break; } default: { bats::CosineDist m; CALL; } }
FAMILY(rips_complex, 400, 8000) { auto I = input(C, 8); size_t dm = C.rng.chance(.05) ? C.rng.r(5, 8) : C.rng.r(0, 4); C.desc << " dmax " << dm; C.nontrivial(); METRIC((complexes<SC, double>(C, I, m, dm, "trie"))) METRIC((complexes<LC, double>(C, I, m, dm, "light"))) if (C.rng.chance(.3)) METRIC((complexes<LM, double>(C, I, m, dm, "light map"))) }
FAMILY(rips_filtration, 400, 8000) { auto I = input(C, 7); size_t dm = C.rng.chance(.05) ? C.rng.r(5, 8) : C.rng.r(0, 4); C.desc << " dmax " << dm; C.nontrivial(); METRIC((filtrations<SC, double>(C, I, m, dm, "trie"))) METRIC((filtrations<LC, double>(C, I, m, dm, "light"))) if (C.rng.chance(.3)) METRIC((filtrations<LM, double>(C, I, m, dm, "light map"))) }
FAMILY(rips_float, 120, 2500) { auto I = input(C, 6); for (auto &p : I.all) if (I.r != p.second && std::fabs(p.second - I.r) < 1e-3) throw Skip(); size_t dm = C.rng.r(0, 3); C.nontrivial(); METRIC((filtrations<SC, float>(C, I, m, dm, "trie float"))) METRIC((complexes<LC, float>(C, I, m, dm, "light float"))) }
FAMILY(rips_large, 25, 400) { auto I = input(C, 22); C.nontrivial(); size_t dm = C.rng.r(1, 2); METRIC((filtrations<SC, double>(C, I, m, dm, "trie"))) METRIC((complexes<LC, double>(C, I, m, 3, "light"))) }
// ---- flag complexes of arbitrary weighted graphs
struct Graph { size_t n; std::vector<std::pair<size_t, size_t>> e; std::vector<double> t; std::map<std::pair<size_t, size_t>, double> m; };
static Graph graph(Case &C, bool complete = false) { Rng &r = C.rng; Graph g; g.n = complete ? r.r(2, 7 + 5 * r.chance(.1)) : r.chance(.05) ? 0 : r.r(1, 8); double p = complete ? 1 : r.pick(std::vector<double>{.2, .5, .8, 1}); size_t hub = 0, nh = 0; if (!complete && r.chance(.05)) { g.n = r.r(19, 45); p = .08; nh = r.r(1, 2); hub = r.r(0, g.n - 2); } Draw d(r); bool flip = r.chance(.5); for (size_t i = 0; i < g.n; i++) for (size_t j = i + 1; j < g.n; j++) if (r.chance(p) || (i >= hub && i < hub + nh) || (j >= hub && j < hub + nh)) g.e.push_back({i, j}); r.shuffle(g.e); for (auto &x : g.e) { double t = d(r); g.t.push_back(t); g.m[x] = t; if (flip && r.chance(.5)) std::swap(x.first, x.second); C.desc << " " << x.first << "-" << x.second << ":" << t; } C.desc << " on " << g.n; return g; }
template <class X> void flag(Case &C, const Graph &g, size_t dm, const std::string &w, bool sorted_only) {
  std::vector<size_t> ed; for (auto x : g.e) { if (sorted_only && x.first > x.second) std::swap(x.first, x.second); ed.push_back(x.first); ed.push_back(x.second); }
  cells_are(bats::FlagComplex<X>(ed, g.n, dm), cliques(g.n, dm, g.m, 0), w); double t0 = -INF; for (auto t : g.t) (void)t; if (C.rng.chance(.5)) { t0 = 0; for (auto t : g.t) t0 = std::min(t0, t); } auto W = cliques(g.n, dm, g.m, t0); std::vector<bats::filtered_edge<double>> fe; for (size_t i = 0; i < g.e.size(); i++) fe.emplace_back(g.e[i].first, g.e[i].second, g.t[i]); auto f1 = fe, f2 = fe; filtration_is(C, bats::FlagFiltration<X>(f1, g.n, dm, t0), W, w); auto [H, in] = bats::FlagFiltration_extension<X>(f2, g.n, dm, t0); filtration_is(C, H, W, w + " extension"); std::vector<std::pair<size_t, size_t>> so; for (auto &e : f2) so.push_back({e.s, e.t}); inds_are(H.complex(), in, so, W, w);
  ed.push_back(0); MUST_THROW((bats::FlagComplex<X>(ed, g.n, dm)), "odd-edge-list", "accepted");
}
FAMILY(flag, 500, 9000) { auto g = graph(C); C.nontrivial(); size_t dm = C.rng.chance(.05) ? C.rng.r(6, 8) : C.rng.r(0, 5); C.desc << " dmax " << dm; flag<SC>(C, g, dm, "trie", false); flag<LC>(C, g, dm, "light", false); if (C.rng.chance(.3)) flag<LM>(C, g, dm, "light map", false); }
FAMILY(complete, 150, 2500) {
  Rng &r = C.rng; auto g = graph(C, true); C.nontrivial(); size_t dm = r.r(0, std::min<size_t>(g.n + 1, 5)); C.desc << " dmax " << dm; auto ix = r.perm(g.e.size()); std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return g.t[a] < g.t[b]; }); std::vector<size_t> ed; std::vector<double> t; for (auto i : ix) { ed.push_back(g.e[i].first); ed.push_back(g.e[i].second); t.push_back(g.t[i]); } double t0 = -INF; auto W = cliques(g.n, dm, g.m, t0);
  auto [X, Fl] = bats::CompleteFlagFiltration<double>(ed, t, g.n, dm, t0); filtration_is(C, Fl, W, "complete"); cells_are(X, W, "complete complex");
}
FAMILY(edges, 200, 4000) {
  Rng &r = C.rng; size_t n = r.r(0, 9); C.desc << n; C.nontrivial(); auto P = bats::all_pairs(n); REQUIRE(P.size() == n * (n ? n - 1 : 0), "all-pairs", P.size()); std::set<std::pair<size_t, size_t>> s; for (size_t k = 0; k < P.size(); k += 2) { REQUIRE(P[k] != P[k + 1] && P[k] < n && P[k + 1] < n, "all-pairs", n); s.insert({std::min(P[k], P[k + 1]), std::max(P[k], P[k + 1])}); } REQUIRE(2 * s.size() == P.size(), "all-pairs", n);
  size_t d = r.r(1, 3); std::vector<double> x; for (size_t i = 0; i < n * d; i++) x.push_back(r.chance(.5) ? r.r(-4, 4) : r.u(-3, 3)); auto v = bats::pairwise_dist(x, P, d); REQUIRE(v.size() == P.size() / 2, "pairwise", v.size()); std::map<std::pair<size_t, size_t>, double> w; for (size_t k = 0; k < v.size(); k++) { std::vector<double> a(x.begin() + d * P[2 * k], x.begin() + d * (P[2 * k] + 1)), b(x.begin() + d * P[2 * k + 1], x.begin() + d * (P[2 * k + 1] + 1)); REQUIRE(close(v[k], ref_dist(0, a, b)), "pairwise", v[k]); w[{P[2 * k], P[2 * k + 1]}] = v[k]; }
  auto e = P; auto u = v; bats::sort_edges(e, u); REQUIRE(e.size() == P.size() && std::is_sorted(u.begin(), u.end()), "sort-edges", "not sorted"); std::set<std::pair<size_t, size_t>> z; for (size_t k = 0; k < u.size(); k++) { REQUIRE(w.count({e[2 * k], e[2 * k + 1]}) && w.at({e[2 * k], e[2 * k + 1]}) == u[k], "sort-edges", "edge and value separated"); z.insert({e[2 * k], e[2 * k + 1]}); } REQUIRE(z.size() == u.size(), "sort-edges", "edge lost");
  std::vector<double> y; for (size_t i = 0; i < n; i++) y.push_back(r.u(-3, 3)); std::vector<size_t> e1 = {7}; std::vector<double> t1 = {1, 2}; bats::rips_edges(y, e1, t1); REQUIRE(e1.size() == P.size() && t1.size() == v.size(), "line-edges", e1.size()); std::set<std::pair<size_t, size_t>> q; for (size_t k = 0; k < t1.size(); k++) { REQUIRE(e1[2 * k] < e1[2 * k + 1] && e1[2 * k + 1] < n && t1[k] == std::fabs(y[e1[2 * k]] - y[e1[2 * k + 1]]), "line-edges", k); q.insert({e1[2 * k], e1[2 * k + 1]}); } REQUIRE(q.size() == t1.size(), "line-edges", "repeated");
  // the order of weighted edges is a strict total order on (value, source, target)
  std::vector<bats::filtered_edge<double>> fe; for (int i = 0; i < 8; i++) fe.emplace_back(r.r(0, 2), r.r(0, 2), r.r(0, 2)); for (auto &a : fe) for (auto &b : fe) REQUIRE((a < b) == (std::make_tuple(a.r, a.s, a.t) < std::make_tuple(b.r, b.s, b.t)), "edge-order", "");
}
// ---- lower stars
template <class X> void lower(Case &C, const X &x, size_t nv, const std::string &w) {
  Rng &r = C.rng; auto go = [&](auto f0) { typedef typename decltype(f0)::value_type T; auto [v, in] = lower_star_filtration(x, f0); REQUIRE(v.size() == x.maxdim() + 1 && in.size() == v.size(), "lower-dimensions", w << " " << v.size()); std::map<sp::Sx, double> val;
    for (size_t k = 0; k < v.size(); k++) { REQUIRE(v[k].size() == x.ncells(k) && in[k].size() == v[k].size(), "lower-size", w << " dimension " << k); for (size_t i = 0; i < v[k].size(); i++) { auto s = x.get_cell(k, i); T m = f0[s[0]]; for (auto u : s) m = std::max(m, f0[u]); REQUIRE(v[k][i] == m, "lower-value", w << " " << show(s) << " has " << v[k][i] << " expected " << m); REQUIRE(std::count(s.begin(), s.end(), in[k][i]) && f0[in[k][i]] == m, "lower-vertex", w << " " << show(s) << " says " << in[k][i]); val[s] = v[k][i]; C.count("lower_cells"); } }
    for (auto &p : val) for (auto &f : sp::facets_of(p.first)) REQUIRE(val.at(f) <= p.second, "lower-not-monotone", w << " " << show(p.first));
    // derivative of the persistence pairs with respect to the vertex values
    if (x.ncells(0) == nv && nv) { bats::Filtration<double, X> Fl(x, v); auto Z = bats::Reduce(Fl, F()); std::vector<std::vector<double>> g; std::vector<std::vector<int>> bd; std::vector<double> want(nv, 0); for (size_t k = 0; k < v.size(); k++) { g.push_back({}); bd.push_back({}); for (auto &p : Z.persistence_pairs(k)) { double a = r.r(-3, 3), b = p.death_ind == bats::NO_IND ? 0 : r.r(-3, 3); g[k].push_back(a); g[k].push_back(b); bd[k].push_back(p.birth_ind); bd[k].push_back(p.death_ind == bats::NO_IND ? -1 : (int)p.death_ind); want[in[k][p.birth_ind]] += a; if (p.death_ind != bats::NO_IND) want[in[k + 1][p.death_ind]] += b; } }
      auto got = lower_star_backwards(g, bd, in); REQUIRE(got == want, "lower-backwards", w << " " << show(got) << " expected " << show(want)); } };
  Draw d(r); std::vector<double> f; std::vector<int> fi; std::vector<float> ff; for (size_t i = 0; i < nv; i++) { f.push_back(d(r)); fi.push_back(r.r(-4, 4)); ff.push_back(r.u(-2, 2)); } C.desc << " f=" << show(f); go(f); go(fi); go(ff);
}
FAMILY(lower_star, 300, 5000) { Rng &r = C.rng; auto x = sp::random_space(r); C.desc << sp::show(x); C.nontrivial(); size_t nv = x.nv(); SC s; LC l(nv, std::max(0, x.dim())); for (auto c : sp::random_order(r, x)) { s.add(c); l.add(c); } lower(C, s, nv, "trie"); lower(C, l, nv, "light"); }
template <class V> double at(const V &f, const std::vector<size_t> &v, size_t k = 0) { if constexpr (std::is_arithmetic<V>::value) return f; else return at(f[v[k]], v, k + 1); }
template <class V> void cube_lower(Case &C, const bats::CubicalComplex &X, const V &f, size_t dim) {
  auto v = lower_star_filtration(X, f); REQUIRE(v.size() == X.maxdim() + 1, "cube-dimensions", v.size()); std::map<sp::Sx, double> val; for (size_t k = 0; k < v.size(); k++) { REQUIRE(v[k].size() == X.ncells(k), "cube-size", k); for (size_t i = 0; i < v[k].size(); i++) { auto c = X.get_cell(k, i); double m = -INF; for (size_t b = 0; b < (1u << dim); b++) { std::vector<size_t> p; for (size_t j = 0; j < dim; j++) p.push_back(c[2 * j + ((b >> j) & 1)]); m = std::max(m, at(f, p)); } REQUIRE(v[k][i] == m, "cube-value", show(c) << " has " << v[k][i] << " expected " << m); val[c] = m; C.count("lower_cells"); } }
  bats::Filtration<double, bats::CubicalComplex> Fl(X); (void)Fl;
}
FAMILY(lower_cube, 250, 4000) {
  Rng &r = C.rng; bool three = r.chance(.4); size_t a = r.r(1, 4), b = r.r(1, 4), c = r.r(1, 3); Draw d(r); std::vector<std::vector<double>> f2(a, std::vector<double>(b)); std::vector<std::vector<std::vector<double>>> f3(a, std::vector<std::vector<double>>(b, std::vector<double>(c))); for (auto &x : f2) for (auto &y : x) y = d(r); for (auto &x : f3) for (auto &y : x) for (auto &z : y) z = d(r); std::vector<std::vector<float>> g2; for (auto &x : f2) g2.push_back(std::vector<float>(x.begin(), x.end())); C.desc << a << "x" << b << "x" << c << " " << three; C.nontrivial();
  size_t n[3] = {a, b, c}; size_t dim = three ? 3 : 2; bats::CubicalComplex X(dim); if (r.chance(.3) && a > 1 && b > 1 && (!three || c > 1)) for (size_t i = 0; i + 1 < a; i++) for (size_t j = 0; j + 1 < b; j++) for (size_t k = 0; k + 1 < (three ? c : 2); k++) { std::vector<size_t> q = {i, i + 1, j, j + 1}; if (three) { q.push_back(k); q.push_back(k + 1); } X.add_recursive(q); } else for (int i = r.r(0, 6); i--;) { std::vector<size_t> q; for (size_t j = 0; j < dim; j++) { size_t x = r.r(0, n[j] - 1); q.push_back(x); q.push_back(x + 1 < n[j] && r.chance(.6) ? x + 1 : x); } X.add_recursive(q); }
  if (three) cube_lower(C, X, f3, 3); else { cube_lower(C, X, f2, 2); cube_lower(C, X, g2, 2); }
}
// ---- unions of filtrations
FAMILY(union_add, 150, 2500) {
  auto I = input(C, 7); Rng &r = C.rng; bats::Euclidean eu; if (I.metric) { I.metric = 0; I.e.clear(); for (auto &p : I.all) { p.second = ref_dist(0, I.p[p.first.first], I.p[p.first.second]); } I.r = INF; I.e = I.all; } auto D = data<double>(I); size_t dm = r.r(1, 3); C.nontrivial(); auto Fl = bats::RipsFiltration<SC>(D, eu, I.r, dm); auto W = cliques(I.n, dm, I.e, 0); size_t n2 = r.r(0, I.n), d2 = r.r(0, 3); Valued V; for (auto &p : W) V[p.first] = p.second; if (Fl.complex().maxdim() > 0) for (size_t i = 0; i < Fl.complex().ncells(1); i++) { auto s = Fl.complex().get_cell(1, i); I.all[{s[0], s[1]}] = Fl.vals(1)[i]; } std::map<std::pair<size_t, size_t>, double> e2; for (size_t i = 0; i < n2; i++) for (size_t j = i + 1; j < n2; j++) if (r.chance(.6)) e2[{i, j}] = I.all.at({i, j}); std::vector<bats::filtered_edge<double>> fe; for (auto &p : e2) fe.emplace_back(p.first.first, p.first.second, p.second); auto G2 = bats::FlagFiltration<SC>(fe, n2, d2, 0.0); for (auto &p : cliques(n2, d2, e2, 0)) V[p.first] = p.second; Fl.union_add(G2); filtration_is(C, Fl, V, "union"); Fl.union_add(Fl); filtration_is(C, Fl, V, "union with itself");
}
