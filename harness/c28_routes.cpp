// C28: on inputs too large for a dense oracle, independent routes to one invariant agree and the theorems about it hold.
#include "filt.hpp"
#include <filtration/rips.hpp>
#include <omp.h>
using namespace vh;
typedef bats::ReducedFilteredChainComplex<double, CM> RFC;
typedef bats::FilteredChainComplex<double, CM> FC;
typedef bats::FilteredDGVectorSpace<double, CM> FD;
typedef bats::ReducedFilteredDGVectorSpace<double, CM> RFD;
typedef std::vector<orc::Bar> Bars;
typedef std::map<sp::Sx, double> Valued;
typedef bats::SimplicialComplex SC;
typedef bats::LightSimplicialComplex<size_t> LC;
// ---- large filtered complexes
static void close_down(Valued &v) { std::vector<std::pair<sp::Sx, double>> q(v.begin(), v.end()); std::stable_sort(q.begin(), q.end(), [](auto &a, auto &b) { return a.first.size() > b.first.size(); }); size_t top = 0; for (auto &p : q) top = std::max(top, p.first.size()); for (size_t d = top; d > 1; d--) { std::vector<std::pair<sp::Sx, double>> l; for (auto &p : v) if (p.first.size() == d) l.push_back(p); for (auto &p : l) for (auto &f : sp::facets_of(p.first)) { auto it = v.find(f); if (it == v.end()) v[f] = p.second; else it->second = std::min(it->second, p.second); } } }
static Valued cliques(size_t n, const std::vector<std::vector<double>> &d, double lim, size_t dmax, const std::vector<double> &v0) {
  Valued v; std::vector<std::pair<sp::Sx, double>> cur; for (size_t i = 0; i < n; i++) { v[{i}] = v0[i]; cur.push_back({{i}, v0[i]}); }
  for (size_t k = 1; k <= dmax; k++) { std::vector<std::pair<sp::Sx, double>> nx; for (auto &c : cur) for (size_t j = c.first.back() + 1; j < n; j++) { double t = std::max(c.second, v0[j]); bool ok = true; for (auto u : c.first) { if (d[u][j] > lim) { ok = false; break; } t = std::max(t, d[u][j]); } if (ok) { auto s = c.first; s.push_back(j); v[s] = t; nx.push_back({s, t}); } } cur = nx; } return v;
}
static std::vector<std::vector<double>> points(Rng &r, size_t n, int kind, std::string &w) {
  static const char *N[] = {"uniform", "grid", "circle", "clusters", "figure eight", "sphere"}; w = N[kind]; std::vector<std::vector<double>> p; for (size_t i = 0; i < n; i++) { double a = 2 * M_PI * (r.chance(.7) ? (i + .0) / n : r.u01()), e = .1; switch (kind) { case 0: p.push_back({r.u(0, 3), r.u(0, 3)}); break; case 1: p.push_back({(double)r.r(0, 4), (double)r.r(0, 4)}); break; case 2: p.push_back({2 * std::cos(a) + r.u(-e, e), 2 * std::sin(a) + r.u(-e, e)}); break; case 3: { double c = r.r(0, 3); p.push_back({c * 2 + r.u(-.5, .5), c * c + r.u(-.5, .5)}); break; } case 4: p.push_back({(i % 2 ? 1.5 : -1.5) + 1.5 * std::cos(a), 1.5 * std::sin(a)}); break; default: { double z = r.u(-1, 1), s = std::sqrt(1 - z * z); a = r.u(0, 6.3); p.push_back({s * std::cos(a), s * std::sin(a), z}); } } } for (auto &x : p) for (auto &c : x) c = std::round(c * 1024) / 1024; return p;
}
static std::vector<std::vector<double>> linf(const std::vector<std::vector<double>> &p) { std::vector<std::vector<double>> d(p.size(), std::vector<double>(p.size(), 0)); for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < p.size(); j++) for (size_t k = 0; k < p[i].size(); k++) d[i][j] = std::max(d[i][j], std::fabs(p[i][k] - p[j][k])); return d; }
static std::vector<sp::Sx> grid(Rng &r, int kind, size_t a, size_t b, std::string &w) { // torus, Klein bottle, cylinder, Moebius band, square: triangulated a x b grids
  static const char *N[] = {"torus", "klein", "cylinder", "moebius", "square"}; w = std::string(N[kind]) + " " + std::to_string(a) + "x" + std::to_string(b); bool wi = kind <= 3, fl = kind == 1 || kind == 3, wj = kind < 2; size_t R = b + (wj ? 0 : 1); auto id = [&](size_t i, size_t j) { if (wi && i == a) { i = 0; if (fl) j = wj ? (b - j) % b : b - j; } return i * R + (wj ? j % b : j); };
  std::vector<sp::Sx> m; for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) { m.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)}); m.push_back({id(i, j), id(i, j + 1), id(i + 1, j + 1)}); } for (auto &s : m) std::sort(s.begin(), s.end()); (void)r; return m; }
static Valued lower_star(const sp::Cpx &c, const std::vector<double> &f) { Valued v; for (auto &s : c.all) { double t = -INF; for (auto u : s) t = std::max(t, f[u]); v[s] = t; } return v; }
static std::vector<double> field(Rng &r, size_t n) { std::vector<double> f; int k = r.r(0, 3); double s = r.u(.2, 3); for (size_t i = 0; i < n; i++) f.push_back(k == 0 ? r.r(0, 6) : k == 1 ? std::round(1024 * r.u(0, 4)) / 1024 : k == 2 ? std::round(1024 * (std::sin(i * s) + r.u(0, .3))) / 1024 : r.r(0, 1)); return f; }
struct Big { Valued v; int kind; std::vector<std::vector<double>> pts; sp::Cpx cpx; std::vector<double> f; double lim; size_t top; };
static Big big(Case &C, double scale = 1, int kind = -1, bool first = true) { // kind 4: lower star on a grid with more than 2048 edges
  Rng &r = C.rng; Big b; b.kind = kind < 0 ? r.r(0, 3) : kind; b.lim = INF; b.top = 2; std::string w;
  if (b.kind <= 1) { b.top = r.chance(.25) ? 3 : 2; size_t n = (b.top == 3 ? r.r(10, 15) : r.r(14, 26)) * scale; if (n > 30 && b.kind == 0) n = r.r(25, 30); b.pts = points(r, n, r.r(0, 5), w); auto d = linf(b.pts); if (b.kind == 1) { b.lim = r.pick(std::vector<double>{.8, 1, 1.5, 2}); } b.v = cliques(n, d, b.lim, b.top, std::vector<double>(n, 0)); C.desc << "rips " << w << " n=" << n << " r=" << b.lim; }
  else if (b.kind == 2 || b.kind == 4) { int g = r.r(0, 4); b.cpx = sp::of(b.kind == 4 ? grid(r, g, r.r(24, 34), r.r(29, 34), w) : grid(r, g, r.r(3, 12 * scale), r.r(3, 12 * scale), w)); b.f = field(r, b.cpx.nv()); b.v = lower_star(b.cpx, b.f); C.desc << "lower star " << w; }
  else { size_t n = r.r(12, 40) * scale; double p = r.pick(std::vector<double>{.1, .2, .35}); std::vector<std::vector<double>> d(n, std::vector<double>(n, INF)); std::vector<double> v0; int ties = r.r(0, 2); for (size_t i = 0; i < n; i++) { v0.push_back(ties ? r.r(-2, 2) : r.u(-2, 2)); for (size_t j = 0; j < i; j++) if (r.chance(p)) d[i][j] = d[j][i] = ties == 2 ? r.r(0, 9) : r.u(0, 5); } b.top = r.r(2, 4); b.v = cliques(n, d, 1e9, b.top, v0); if (b.v.size() > 2500 * scale) { b.top = 2; b.v = cliques(n, d, 1e9, 2, v0); } C.desc << "flag n=" << n << " p=" << p; }
  C.desc << " cells=" << b.v.size(); if (first) C.nontrivial(); C.count("inputs"); C.count("cells", b.v.size()); return b;
}
// the library's filtration, cells entered in a random admissible order
template <class X> bats::Filtration<double, X> build(Rng &r, const Valued &v) {
  std::vector<std::pair<sp::Sx, double>> q(v.begin(), v.end()); int o = r.r(0, 2); if (o == 1) r.shuffle(q); std::stable_sort(q.begin(), q.end(), [&](auto &a, auto &b) { return o == 2 ? (a.second < b.second || (a.second == b.second && a.first.size() < b.first.size())) : a.first.size() < b.first.size(); });
  size_t n = 0, m = 0; for (auto &p : v) { n = std::max(n, p.first.back() + 1); m = std::max(m, p.first.size() - 1); } X x; if constexpr (std::is_same<X, LC>::value) x = X(n, m); bats::Filtration<double, X> Fl(x); for (auto &p : q) { auto s = p.first; Fl.add(p.second, s); } return Fl;
}
template <class Z> Bars bars(const Z &z, size_t md) { Bars b; for (size_t k = 0; k <= md; k++) for (auto &p : z.persistence_pairs(k)) if (p.birth != p.death) b.push_back({p.dim, p.birth, p.death}); std::sort(b.begin(), b.end()); return b; }
static std::string sb(const Bars &b) { std::ostringstream o; o << b.size() << " bars"; for (size_t i = 0; i < b.size() && i < 40; i++) o << " " << b[i].dim << ":(" << b[i].b << "," << b[i].d << ")"; return o.str(); }
static std::string diff(const Bars &a, const Bars &b) { Bars x, y; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x)); std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(y)); return "only here " + sb(x) + "; only in the other " + sb(y); }
static void same(const Bars &a, const Bars &b, const std::string &w) { REQUIRE(a == b, "routes-differ", w << ": " << diff(a, b)); }
static size_t maxdim(const Valued &v) { size_t m = 0; for (auto &p : v) m = std::max(m, p.first.size() - 1); return m; }
static const int NROUTES = 22;
// one of the library's ways of computing the barcode
template <class X> Bars route(int m, const bats::Filtration<double, X> &Fl, std::string &w) {
  using namespace bats; typedef standard_reduction_flag S; typedef extra_reduction_flag E2; typedef divide_conquer_flag V; typedef compute_basis_flag Bf; typedef clearing_flag Cl; typedef compression_flag Co; size_t md = Fl.complex().maxdim();
  auto fc = [&](auto... f) { return bars(RFC(FC(Fl), f...), md); }; auto dg = [&](int deg, auto... f) { return bars(RFD(FD(Fl, deg, false), f...), md); };
  switch (m) {
    case 0: w = "Reduce(filtration)"; return bars(Reduce(Fl, F()), md); case 1: w = "standard"; return fc(S()); case 2: w = "extra"; return fc(E2()); case 3: w = "divide-conquer"; return fc(V());
    case 4: w = "clearing"; return fc(S(), Cl()); case 5: w = "compression"; return fc(S(), Co()); case 6: w = "basis"; return fc(S(), Bf()); case 7: w = "extra clearing basis"; return fc(E2(), Cl(), Bf()); case 8: w = "extra compression basis"; return fc(E2(), Co(), Bf()); case 9: w = "divide-conquer basis"; return fc(V(), Bf()); case 10: w = "divide-conquer clearing"; return fc(V(), Cl());
    case 11: w = "dg homology"; return dg(-1); case 12: w = "dg cohomology"; return dg(1); case 13: w = "dg cohomology clearing"; return dg(1, S(), Cl()); case 14: w = "dg cohomology basis"; return dg(1, S(), Bf()); case 15: w = "dg homology compression"; return dg(-1, S(), Co()); case 16: w = "dg cohomology extra compression"; return dg(1, E2(), Co()); case 17: w = "dg cohomology divide-conquer clearing"; return dg(1, V(), Cl()); case 18: w = "dg homology extra clearing basis"; return dg(-1, E2(), Cl(), Bf());
    case 19: { w = "updated from a constant filtration"; Vals v = Fl.vals(), c = v; for (auto &x : c) for (auto &t : x) t = 1; Filtration<double, X> G(Fl.complex(), c); FC A(G); RFC Z(A, S(), Bf()); Z.update_filtration(v); return bars(Z, md); }
    case 20: { w = "extra cycles removed and sparsified"; FC A(Fl); RFC Z(A, S(), Bf()); Z.remove_extra_cycles(); Z.sparsify_basis(); return bars(Z, md); }
    default: { w = "zigzag"; Vals v = Fl.vals(); double end = -INF; for (auto &x : v) for (auto t : x) end = std::max(end, t); end += 1; std::vector<std::vector<std::vector<std::pair<double, double>>>> life; for (auto &x : v) { life.push_back({}); for (auto t : x) life.back().push_back({{t, end}}); } zigzag::ZigzagFiltration<X, double> Z(Fl.complex(), life); auto P = zigzag::barcode(Z, md, F(), no_optimization_flag(), standard_reduction_flag()); Bars b; for (auto &d : P) for (auto &p : d) if (p.birth_is_entry && (!p.death_is_entry || p.birth < p.death)) b.push_back({p.dim, p.birth, p.death_is_entry ? p.death : INF}); std::sort(b.begin(), b.end()); return b; }
  }
}
template <class X> Bars any(Rng &r, const bats::Filtration<double, X> &Fl, std::string &w) { return route(r.r(0, NROUTES - 2), Fl, w); }
static Bars any(Rng &r, const Valued &v, std::string &w) { if (r.chance(.3)) return any(r, build<LC>(r, v), w); return any(r, build<SC>(r, v), w); }
static void euler(Case &C, const Valued &v, const Bars &b) { std::set<double> ts; for (auto &p : v) ts.insert(p.second); std::vector<double> tv(ts.begin(), ts.end()); for (int i = 0; i < 6; i++) { double t = C.rng.pick(tv); long e = 0, f = 0; for (auto &p : v) if (p.second <= t) e += p.first.size() % 2 ? 1 : -1; for (auto &x : b) if (x.b <= t && t < x.d) f += x.dim % 2 ? -1 : 1; REQUIRE(e == f, "euler-characteristic", "at " << t << " cells give " << e << " bars " << f); } }
template <class X> void routes(Case &C, const Big &b) {
  Rng &r = C.rng; auto Fl = build<X>(r, b.v); size_t md = Fl.complex().maxdim(); REQUIRE(Fl.complex().ncells() == b.v.size() && md == maxdim(b.v), "cells", Fl.complex().ncells()); std::string w, w0; Bars ref = route(1, Fl, w0); euler(C, b.v, ref);
  for (int m = 0; m < NROUTES; m++) { if (m == 1 || (m == NROUTES - 1 && b.v.size() > 350)) continue; if (r.chance(.3)) omp_set_num_threads(r.r(2, 8)); Bars g = route(m, Fl, w); omp_set_num_threads(1); same(g, ref, w + " and " + w0); C.count("routes"); }
  if (b.v.size() < 2500 || r.chance(.2)) { std::vector<SMx> B; for (size_t k = 0; k <= md; k++) { if (!k) { B.push_back(SMx(Fl.complex().ncells(0))); continue; } auto &x = Fl.complex(); std::map<sp::Sx, size_t> ix; for (size_t i = 0; i < x.ncells(k - 1); i++) ix[x.get_simplex(k - 1, i)] = i; SMx m; for (size_t j = 0; j < x.ncells(k); j++) { sp::Sx s = x.get_simplex(k, j); auto f = sp::facets_of(s); SCol c; for (size_t i = 0; i < f.size(); i++) c[ix.at(f[i])] = K(i % 2 ? -1 : 1); m.push_back(c); } B.push_back(m); } Vals v = Fl.vals(); same(alive(bars_of(pairing(B, stable(v)), v)), ref, "textbook and " + w0); C.count("textbook"); }
  FC A(Fl); Bars h0; for (auto &p : bats::union_find_pairs(A)) if (p.birth != p.death) h0.push_back({0, p.birth, p.death}); std::sort(h0.begin(), h0.end()); Bars r0; for (auto &x : ref) if (x.dim == 0) r0.push_back(x); same(h0, r0, "union-find and " + w0);
  C.count("bars", ref.size()); size_t hi = 0; for (auto &x : ref) hi += x.dim > 0; C.count("bars_above_zero", hi); size_t tot = 0; auto H = bats::Reduce(Fl.complex(), F()); for (size_t k = 0; k <= md; k++) { size_t n = 0; for (auto &x : ref) n += x.dim == k && x.d == INF; REQUIRE(H.hdim(k) == n, "homology-of-the-whole", "dimension " << k << ": " << H.hdim(k) << " for " << n << " infinite bars"); tot += n; }
}
FAMILY(routes_tree, 90, 1500) { auto b = big(C); routes<SC>(C, b); }
FAMILY(routes_light, 40, 700) { auto b = big(C); routes<LC>(C, b); }
FAMILY(routes_large, 10, 160) { auto b = big(C, 1.8, C.rng.chance(.4) ? -1 : C.rng.chance(.5) ? 0 : 4); routes<SC>(C, b); }
// ---- what must not change the barcode, and what changes it in a known way
static Bars by(const Bars &b, std::function<double(double)> f) { Bars o; for (auto &x : b) o.push_back({x.dim, f(x.b), x.d == INF ? INF : f(x.d)}); return alive(o); }
FAMILY(invariance, 160, 2500) {
  Rng &r = C.rng; auto b = big(C, .8); std::string w, w0; Bars ref = any(r, b.v, w0); size_t n = 0; for (auto &p : b.v) n = std::max(n, p.first.back() + 1); size_t md = maxdim(b.v); euler(C, b.v, ref);
  { auto p = r.perm(n); Valued u; for (auto &q : b.v) { auto s = q.first; for (auto &x : s) x = p[x]; std::sort(s.begin(), s.end()); u[s] = q.second; } same(any(r, u, w), ref, "relabelled " + w + " and " + w0); C.count("relabelled"); }
  { auto f = [](double t) { return 4 * t + 1; }; Valued u = b.v; for (auto &q : u) q.second = f(q.second); same(any(r, u, w), by(ref, f), "rescaled " + w + " and " + w0); auto g = [](double t) { return t < 1 ? t : t < 2 ? 1 : t + 3; }; u = b.v; for (auto &q : u) q.second = g(q.second); same(any(r, u, w), by(ref, g), "values merged " + w + " and " + w0); C.count("reparametrised"); }
  { auto c = big(C, .5, -1, false); std::string w1; Bars q = any(r, c.v, w1); Valued u = b.v; for (auto &x : c.v) { auto s = x.first; for (auto &y : s) y += n; u[s] = x.second; } Bars z = ref; z.insert(z.end(), q.begin(), q.end()); std::sort(z.begin(), z.end()); same(any(r, u, w), z, "disjoint union " + w + " and " + w0 + ", " + w1); C.count("unions"); }
  double lo = INF, hi = -INF; for (auto &p : b.v) { lo = std::min(lo, p.second); hi = std::max(hi, p.second); }
  { // cone over everything with the apex first: the only bar is the component of the apex
    Valued u = b.v; u[{n}] = lo; for (auto &p : b.v) { auto s = p.first; s.push_back(n); u[s] = p.second; } Bars z = {{0, lo, INF}}; same(any(r, u, w), z, "cone " + w); C.count("cones"); }
  { // suspension: reduced barcode one dimension up
    Valued u = b.v; for (size_t a : {n, n + 1}) { u[{a}] = lo - 1; for (auto &p : b.v) { auto s = p.first; s.push_back(a); u[s] = p.second; } } Bars z = {{0, lo - 1, INF}}; bool first = true; for (auto &x : ref) { if (x.dim == 0 && x.d == INF && x.b == lo && first) { first = false; z.push_back({0, lo - 1, lo}); continue; } z.push_back({x.dim + 1, x.b, x.d}); } if (first) throw Violation{"no-infinite-component", "no infinite bar at the smallest value"}; std::sort(z.begin(), z.end()); same(any(r, u, w), z, "suspension " + w + " and " + w0); C.count("suspensions"); }
  { // expansions: pairs (face, simplex) entered together never matter
    Valued u = b.v; size_t m = n; std::vector<std::pair<sp::Sx, double>> cells(b.v.begin(), b.v.end()); for (int i = r.r(3, 25); i--;) { auto &c = r.pick(cells); if (c.first.size() > md + 1) continue; double t = c.second + r.r(0, 2); auto s = c.first; u[{m}] = t; for (size_t bits = 1; bits < (1u << s.size()); bits++) { sp::Sx q; for (size_t j = 0; j < s.size(); j++) if (bits >> j & 1) q.push_back(s[j]); q.push_back(m); u[q] = t; } m++; } same(any(r, u, w), ref, "expanded " + w + " and " + w0); C.count("expansions"); }
  // truncation: the filtration stopped at t has the bars born by t, cut
  { double t = r.pick(std::vector<double>{lo, hi, (lo + hi) / 2, lo + (hi - lo) * .3}); Valued u; for (auto &p : b.v) if (p.second <= t) u.insert(p); Bars z; for (auto &x : ref) if (x.b <= t) z.push_back({x.dim, x.b, x.d <= t ? x.d : INF}); std::sort(z.begin(), z.end()); same(any(r, u, w), z, "stopped at " + std::to_string(t) + " " + w + " and " + w0); C.count("truncations"); }
  // skeleton: nothing changes below the skeleton's dimension
  if (md > 1) { Valued u; for (auto &p : b.v) if (p.first.size() <= md) u.insert(p); Bars g = any(r, u, w), x, y; for (auto &q : g) if (q.dim + 1 < md) x.push_back(q); for (auto &q : ref) if (q.dim + 1 < md) y.push_back(q); same(x, y, "skeleton " + w + " and " + w0); C.count("skeleta"); }
}
// ---- stability
static bool cover(const Bars &A, const Bars &B, double e) { // every bar of A longer than 2e has its own partner in B within e
  std::vector<int> mt(B.size(), -1); std::vector<char> seen; std::function<bool(size_t)> go = [&](size_t i) { for (size_t j = 0; j < B.size(); j++) if (!seen[j] && std::fabs(A[i].b - B[j].b) <= e && std::fabs(A[i].d - B[j].d) <= e) { seen[j] = 1; if (mt[j] < 0 || go(mt[j])) { mt[j] = i; return true; } } return false; };
  for (size_t i = 0; i < A.size(); i++) if (A[i].d - A[i].b > 2 * e) { seen.assign(B.size(), 0); if (!go(i)) return false; } return true;
}
static void stable_within(Case &C, const Bars &A, const Bars &B, double e, const std::string &w) {
  double tol = e * (1 + 1e-9) + 1e-9; for (size_t k = 0; k < 6; k++) { Bars a, b; std::vector<double> x, y; for (auto &q : A) if (q.dim == k) { if (q.d == INF) x.push_back(q.b); else a.push_back(q); } for (auto &q : B) if (q.dim == k) { if (q.d == INF) y.push_back(q.b); else b.push_back(q); } REQUIRE(x.size() == y.size(), "infinite-bars", w << " dimension " << k << ": " << x.size() << " and " << y.size()); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); for (size_t i = 0; i < x.size(); i++) REQUIRE(std::fabs(x[i] - y[i]) <= tol, "unstable", w << " dimension " << k << " infinite bar born " << x[i] << " and " << y[i] << " values moved by " << e);
    REQUIRE(cover(a, b, tol) && cover(b, a, tol), "unstable", w << " dimension " << k << ": values moved by " << e << "; " << sb(a) << " and " << sb(b)); } C.count("stability");
}
FAMILY(stability, 120, 2000) {
  Rng &r = C.rng; auto b = big(C, 1, r.chance(.5) ? 2 : 0); std::string w, w0; Bars ref = any(r, b.v, w0); double e = r.pick(std::vector<double>{.01, .1, .5}); Valued u;
  if (b.kind == 2) { auto g = b.f; double m = 0; for (auto &x : g) { double d = std::round(1024 * r.u(-e, e)) / 1024; x += d; m = std::max(m, std::fabs(d)); } u = lower_star(b.cpx, g); e = m; } else { auto q = b.pts; for (auto &p : q) for (auto &x : p) x += std::round(1024 * r.u(-e / 2, e / 2)) / 1024; auto d0 = linf(b.pts), d1 = linf(q); double m = 0; for (size_t i = 0; i < q.size(); i++) for (size_t j = 0; j < q.size(); j++) m = std::max(m, std::fabs(d0[i][j] - d1[i][j])); u = cliques(q.size(), d1, INF, b.top, std::vector<double>(q.size(), 0)); e = m; }
  C.desc << " moved " << e; Bars got = any(r, u, w); stable_within(C, ref, got, e, w0 + " and " + w);
}
// ---- a filtration updated step by step
FAMILY(updates, 60, 1000) {
  Rng &r = C.rng; auto b = big(C, r.chance(.1) ? 1.3 : .8); auto Fl = build<SC>(r, b.v); size_t md = Fl.complex().maxdim(); auto &x = Fl.complex(); std::vector<std::vector<sp::Sx>> cells(md + 1); for (size_t k = 0; k <= md; k++) for (size_t i = 0; i < x.ncells(k); i++) cells[k].push_back(x.get_simplex(k, i));
  FC A(Fl); RFC Z(A, bats::standard_reduction_flag(), bats::compute_basis_flag()); std::vector<RFD> G; for (int deg : {-1, 1}) G.push_back(RFD(FD(Fl, deg, false), bats::standard_reduction_flag(), bats::compute_basis_flag())); Valued v = b.v; std::string w; Bars last = bars(Z, md);
  for (int i = r.r(2, 4); i--;) { Valued u; double e = r.pick(std::vector<double>{0., .05, .5, 100.}); if (r.chance(.2)) { std::map<sp::Sx, double> t; for (auto &p : v) t[p.first] = p.second; for (size_t k = 0; k <= md; k++) for (auto &s : cells[k]) { double z = -v[{s[0]}]; for (auto y : s) z = std::max(z, -v[{y}]); u[s] = z; } e = -1; } else { u = v; for (auto &p : u) p.second += r.u(-e, e); for (size_t k = 1; k <= md; k++) for (auto &s : cells[k]) for (auto &f : sp::facets_of(s)) u[s] = std::max(u[s], u[f]); e = 0; for (auto &p : u) e = std::max(e, std::fabs(p.second - v[p.first])); }
    Vals nv(md + 1); for (size_t k = 0; k <= md; k++) for (auto &s : cells[k]) nv[k].push_back(u[s]); if (r.chance(.2)) Z.sparsify_basis(); if (r.chance(.2)) Z.remove_extra_cycles(); Z.update_filtration(nv); Bars got = bars(Z, md); bats::Filtration<double, SC> F2(x, nv); Bars fresh = any(r, F2, w); same(got, fresh, "updated and fresh " + w); for (auto &g : G) { g.update_filtration(nv); same(bars(g, md), fresh, "updated degree and fresh " + w); } if (e >= 0) stable_within(C, last, got, e, "update"); euler(C, u, got); last = got; v = u; C.count("updates"); }
}
// ---- the same barcode through a diagram of complexes
FAMILY(tower, 40, 600) {
  Rng &r = C.rng; auto b = big(C, .75); { size_t n = 0; double lo = INF; for (auto &p : b.v) { n = std::max(n, p.first.back() + 1); lo = std::min(lo, p.second); } Valued e; sp::Cpx c = sp::simplex(maxdim(b.v), n); for (auto &q : c.all) b.v[q] = lo; } std::string w0; Bars ref = any(r, b.v, w0); std::set<double> ts; for (auto &p : b.v) ts.insert(p.second); std::vector<double> tv(ts.begin(), ts.end()); size_t want = std::min<size_t>(tv.size(), r.r(2, 9)); while (tv.size() > want) tv.erase(tv.begin() + r.r(0, tv.size() - 1)); size_t n = tv.size(), md = maxdim(b.v), nv = 0; for (auto &p : b.v) nv = std::max(nv, p.first.back() + 1); if (n < 2) throw Skip(); bool zig = r.chance(.4); std::vector<size_t> at; for (size_t i = 0; i < n; i++) at.push_back(i); if (zig) { for (size_t i = n - 1; i--;) at.push_back(i); } // up, or up and down again
  bats::Diagram<SC, bats::CellularMap> D(0, 0); std::vector<SC> X; for (auto i : at) { SC x; for (size_t k = 1; k <= md + 1; k++) for (auto &p : b.v) if (p.first.size() == k && p.second <= tv[i]) { auto s = p.first; x.add(s); } X.push_back(x); } size_t m = 0, m0 = 99; for (auto &x : X) { m = std::max<size_t>(m, x.maxdim()); m0 = std::min<size_t>(m0, x.maxdim()); } REQUIRE(m == m0, "node-dimensions", m << " " << m0);
  for (auto &x : X) D.add_node(x); for (size_t j = 0; j + 1 < at.size(); j++) { bool up = at[j] < at[j + 1]; size_t s = up ? j : j + 1, t = up ? j + 1 : j; D.add_edge(s, t, bats::SimplicialMap(X[s], X[t])); } C.desc << " " << at.size() << " nodes"; for (bool th : {false, true}) { omp_set_num_threads(th ? 6 : 1); auto CD = bats::ChainFunctor<CM>(D);
    for (size_t k = 0; k <= md && k <= m; k++) { auto H = bats::Hom(CD, k); std::map<std::pair<size_t, size_t>, size_t> got, exp; for (auto &p : bats::barcode(H, k)) got[{p.birth, p.death}]++; for (auto &x : ref) if (x.dim == k) { size_t i = std::lower_bound(tv.begin(), tv.end(), x.b) - tv.begin(), j = std::lower_bound(tv.begin(), tv.end(), x.d) - tv.begin(); if (i >= n || i >= j) continue; if (!zig) exp[{i, j - 1}]++; else if (j >= n) exp[{i, at.size() - 1 - i}]++; else { exp[{i, j - 1}]++; exp[{at.size() - j, at.size() - 1 - i}]++; } } std::ostringstream o; for (auto &p : got) o << " " << p.second << "x[" << p.first.first << "," << p.first.second << "]"; o << " expected"; for (auto &p : exp) o << " " << p.second << "x[" << p.first.first << "," << p.first.second << "]"; REQUIRE(got == exp, "tower-barcode", "dimension " << k << ":" << o.str() << (th ? " threads" : "") << " and " << w0); C.count("towers"); } } omp_set_num_threads(1);
}
// ---- large zigzags: at every level as many bars as the complex there has classes; time reversed, the bars are reversed
struct ZB { size_t dim; double b, d; bool be, de; bool operator<(const ZB &o) const { return std::tie(dim, b, d, be, de) < std::tie(o.dim, o.b, o.d, o.be, o.de); } bool operator==(const ZB &o) const { return !(*this < o) && !(o < *this); } };
template <class P> std::vector<ZB> zbars(const P &p) { std::vector<ZB> o; for (auto &d : p) for (auto &x : d) { if (x.birth == x.death && !(x.birth_is_entry && !x.death_is_entry)) continue; o.push_back({x.dim, x.birth, x.death, x.birth_is_entry, x.death_is_entry}); } std::sort(o.begin(), o.end()); return o; }
FAMILY(zigzags, 50, 800) {
  Rng &r = C.rng; auto b = big(C, .7); auto Fl = build<SC>(r, b.v); auto &x = Fl.complex(); size_t md = x.maxdim(); size_t steps = r.r(4, 14); double span = r.r(1, 6); std::map<sp::Sx, std::vector<std::pair<double, double>>> L; size_t copies = 0;
  // each vertex lives on a few intervals; a simplex lives where all its vertices do, or on a part of that
  for (size_t k = 0; k <= md; k++) for (size_t i = 0; i < x.ncells(k); i++) { sp::Sx s = x.get_simplex(k, i); auto &l = L[s]; if (!k) { double t = r.r(0, 3); do { double e = t + r.r(0, span); l.push_back({t, e}); t = e + r.r(1, 4); } while (t < steps && r.chance(.5)); } else { auto cur = L[sp::facets_of(s)[0]]; for (auto &f : sp::facets_of(s)) { std::vector<std::pair<double, double>> nx; for (auto &p : cur) for (auto &q : L[f]) { double a = std::max(p.first, q.first), c = std::min(p.second, q.second); if (a <= c) nx.push_back({a, c}); } cur = nx; } for (auto &p : cur) { if (r.chance(.1)) continue; if (r.chance(.3) && p.first < p.second) p.first += r.chance(.5) ? 1 : 0; if (r.chance(.2) && p.first < p.second) p.second -= 1; l.push_back(p); } } copies += l.size(); }
  // only cells with a lifetime
  std::vector<SC> at; (void)at; SC y; std::vector<std::vector<std::vector<std::pair<double, double>>>> life, back; double end = 0; std::set<double> ts; for (size_t k = 0; k <= md; k++) for (size_t i = 0; i < x.ncells(k); i++) { sp::Sx s = x.get_simplex(k, i); if (L[s].empty()) continue; auto q = s; y.add(q); if (life.size() <= k) life.resize(k + 1), back.resize(k + 1); life[k].push_back(L[s]); std::vector<std::pair<double, double>> rv; for (auto it = L[s].rbegin(); it != L[s].rend(); ++it) rv.push_back({-it->second, -it->first}); back[k].push_back(rv); for (auto &p : L[s]) { end = std::max(end, p.second); ts.insert(p.first); ts.insert(p.second); } }
  md = y.maxdim(); C.desc << " copies=" << copies; C.count("copies", copies); bats::zigzag::ZigzagFiltration<SC, double> Z(y, life), W(y, back); auto P = zbars(bats::zigzag::barcode(Z, md, F(), bats::no_optimization_flag(), bats::standard_reduction_flag())); auto Q = zbars(bats::zigzag::barcode(W, md, F(), bats::no_optimization_flag(), bats::extra_reduction_flag())); C.count("bars", P.size());
  std::vector<ZB> rev; for (auto &p : Q) rev.push_back({p.dim, -p.d, -p.b, !p.de, !p.be}); std::sort(rev.begin(), rev.end()); // closed at an end where cells enter or leave, whichever way time runs
  REQUIRE(P.size() == rev.size() && P == rev, "reversal", P.size() << " bars, reversed " << rev.size()); C.count("reversals");
  std::vector<double> tv(ts.begin(), ts.end()); for (size_t i = 0; i < tv.size(); i++) for (bool mid : {false, true}) { if (mid && i + 1 == tv.size()) continue; if (r.chance(.5)) continue; double t = mid ? (tv[i] + tv[i + 1]) / 2 : tv[i]; SC s; size_t cnt = 0; for (size_t k = 0; k <= md; k++) for (size_t j = 0; j < y.ncells(k); j++) for (auto &p : life[k][j]) if (p.first <= t && t <= p.second) { auto q = y.get_simplex(k, j); s.add(q); cnt++; } auto H = cnt ? bats::Reduce(s, F()) : bats::Reduce(SC(), F()); for (size_t k = 0; k <= md; k++) { size_t n = 0; for (auto &p : P) if (p.dim == k && (p.be ? p.b <= t : p.b < t) && (p.de ? t < p.d : t <= p.d)) n++; size_t bt = cnt && k <= s.maxdim() ? H.hdim(k) : 0; REQUIRE(bt == n, "level-betti", "at " << t << " dimension " << k << ": " << bt << " classes, " << n << " bars"); } C.count("levels"); }
}
struct Grab { std::ostringstream o; std::streambuf *old; Grab() { old = std::cout.rdbuf(o.rdbuf()); } ~Grab() { std::cout.rdbuf(old); } };
// what a summary prints: cells and classes per dimension, and the number of stored entries
template <class Z, class Mt> void summary(const Z &z, const std::vector<Mt> &R, const std::vector<Mt> &U, const std::vector<size_t> &dims, const std::vector<size_t> &betti, const std::string &w) {
  for (bool nz : {false, true}) { Grab g; z.print_summary(nz); std::istringstream in(g.o.str()); std::string l; std::getline(in, l); for (size_t k = 0; k < betti.size(); k++) { std::getline(in, l); std::ostringstream want; want << "\tdim " << k << ": " << dims[k] << ", betti_" << k << ": " << betti[k]; if (nz) { want << " nnz(R): " << R[k].nnz(); if (U.size() > k) want << " nnz(U): " << U[k].nnz(); } REQUIRE(l == want.str(), "summary", w << " dimension " << k << " prints '" << l << "' expected '" << want.str() << "'"); } REQUIRE(!std::getline(in, l), "summary", w << " prints more: " << l); }
}
// ---- spaces of known homology, however large and however they are reduced
FAMILY(known, 60, 1200) {
  Rng &r = C.rng; std::string w; int kind = r.r(0, 6); sp::Cpx c; std::vector<size_t> b; bool two = K(2).zero();
  if (kind <= 4) { size_t g = r.r(8, 18), h = r.r(8, 18); c = sp::of(grid(r, kind, g, h, w)); if (kind == 0) b = {1, 2, 1}; else if (kind == 1) b = two ? std::vector<size_t>{1, 2, 1} : std::vector<size_t>{1, 1, 0}; else if (kind <= 3) b = {1, 1, 0}; else b = {1, 0, 0}; } else if (kind == 5) { size_t d = r.r(3, 7); c = sp::sphere(d); w = "sphere"; b.assign(d + 1, 0); b[0] = b[d] = 1; } else { size_t n = r.r(200, 500); c = sp::circle(n); w = "circle"; b = {1, 1}; }
  size_t holes = 0; if (kind <= 4 && r.chance(.5)) { auto m = c.maximal(); r.shuffle(m); std::set<size_t> used; size_t h = r.r(1, 8); for (auto &s : m) { if (holes == h) break; bool ok = true; for (auto v : s) ok = ok && !used.count(v); if (!ok) continue; c.all.erase(s); for (auto v : s) used.insert(v); holes++; } if (holes) { b[2] = 0; b[1] = holes + (kind == 4 ? 0 : 1); } }
  C.desc << w << " holes " << holes << " cells " << c.all.size(); C.nontrivial(); C.count("cells", c.all.size());
  std::vector<size_t> p = r.perm(c.nv()); auto X = make_sc(r, sp::relabel(c, p)); auto A = bats::Chain(X, F()); auto chk = [&](auto &&Z, const std::string &n) { for (size_t k = 0; k < b.size(); k++) REQUIRE(Z.hdim(k) == b[k], "known-homology", w << " " << n << " dimension " << k << ": " << Z.hdim(k) << " expected " << b[k]); C.count("reductions"); };
  using namespace bats; typedef standard_reduction_flag S; typedef extra_reduction_flag E2; typedef divide_conquer_flag V; typedef compute_basis_flag Bf; typedef clearing_flag Cl; typedef compression_flag Co; typedef ReducedChainComplex<CM> R; { R z(A), y(A, S()); std::vector<size_t> dims; for (size_t k = 0; k < b.size(); k++) dims.push_back(X.ncells(k)); summary(z, z.R, z.U, dims, b, "reduced"); summary(y, y.R, y.U, dims, b, "reduced without a basis"); Vals v; for (auto n : dims) v.push_back(std::vector<double>(n, 1)); Filtration<double, SC> Fl(X, v); auto Q = Reduce(Fl, F()); summary(Q, Q.RC.R, Q.RC.U, dims, b, "filtered"); auto nu = Q.get_nnz_U(), nr = Q.get_nnz_R(); REQUIRE(nu.size() == b.size() && nr.size() == b.size(), "nnz", w); for (size_t k = 0; k < b.size(); k++) { size_t u = 0, q = 0; for (auto &c : smx(Q.RC.U[k], w)) u += c.size(); for (auto &c : smx(Q.RC.R[k], w)) q += c.size(); REQUIRE(nu[k] == u && nr[k] == q, "nnz", w << " dimension " << k); } for (int deg : {-1, 1}) { bats::DGVectorSpace<CM> G(X, deg); auto mv = [&](const std::vector<CM> &m) { return deg == -1 || m.empty() ? m : std::vector<CM>(m.begin() + 1, m.end()); }; bats::ReducedDGVectorSpace<CM> zd(G), yd(G, S()); summary(zd, mv(zd.R), mv(zd.U), dims, b, "reduced graded"); summary(yd, mv(yd.R), mv(yd.U), dims, b, "reduced graded without a basis"); }
  Grab g; X.print_summary(); std::ostringstream want; want << "SimplicialComplex, maxdim = " << X.maxdim() << "\n"; for (size_t k = 0; k < b.size(); k++) want << "\tdim " << k << " : " << dims[k] << " cells\n"; want << X.ncells() << " total\n"; REQUIRE(g.o.str() == want.str(), "summary", g.o.str()); }
  chk(R(A), "default"); chk(R(A, S()), "standard"); chk(R(A, E2(), Cl()), "extra clearing"); chk(R(A, S(), Co()), "compression"); chk(R(A, V()), "divide-conquer"); chk(R(A, V(), Cl()), "divide-conquer clearing"); chk(R(A, S(), Cl(), Bf()), "clearing basis"); chk(R(A, E2(), Co(), Bf()), "extra compression basis");
  for (int deg : {-1, 1}) { DGVectorSpace<CM> G(X, deg); typedef ReducedDGVectorSpace<CM> RG; std::string d = " degree " + std::to_string(deg); chk(RG(G), "dg" + d); chk(RG(G, S(), Cl()), "dg clearing" + d); chk(RG(G, E2(), Co()), "dg extra compression" + d); chk(RG(G, V(), Bf()), "dg divide-conquer basis" + d); }
}
// ---- closed manifolds: the finite bars of f in dimension k are those of -f in dimension n-1-k, reversed
FAMILY(duality, 60, 1000) {
  Rng &r = C.rng; std::string w, w0, w1; sp::Cpx c; size_t n = 2; int kind = r.r(0, 3); if (kind == 1 && !K(2).zero()) kind = 0;
  if (kind <= 1) c = sp::of(grid(r, kind, r.r(3, 12), r.r(3, 12), w)); else if (kind == 2) { size_t a = r.r(3, 9), b = r.r(3, 9); n = 3; std::vector<sp::Sx> m; for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) m.push_back({i, (i + 1) % a, a + j, a + (j + 1) % b}); for (auto &s : m) std::sort(s.begin(), s.end()); c = sp::of(m); w = "join of circles " + std::to_string(a) + "," + std::to_string(b); } else { n = r.r(2, 5); c = sp::sphere(n); w = "sphere " + std::to_string(n); }
  c = sp::relabel(c, r.perm(c.nv())); auto f = field(r, c.nv()); auto g = f; for (auto &x : g) x = -x; C.desc << w << " " << (f.size() < 40 ? show(f) : ""); C.nontrivial(); Bars A = any(r, lower_star(c, f), w0), B = any(r, lower_star(c, g), w1), X, Y; for (auto &x : A) if (x.d != INF) X.push_back(x); for (auto &x : B) if (x.d != INF) Y.push_back({n - 1 - x.dim, -x.d, -x.b}); std::sort(Y.begin(), Y.end()); same(X, Y, "duality " + w0 + " of f and " + w1 + " of -f");
  // infinite bars: class k of f is born where class n-k of -f is
  std::vector<std::vector<double>> P1(n + 1), Q1(n + 1); for (auto &x : A) if (x.d == INF) P1[x.dim].push_back(x.b); for (auto &x : B) if (x.d == INF) Q1[n - x.dim].push_back(x.b); for (size_t k = 0; k <= n; k++) { for (auto &t : Q1[k]) t = -t; REQUIRE(P1[k].size() == Q1[k].size(), "duality", w << " dimension " << k << ": " << P1[k].size() << " and " << Q1[k].size() << " infinite bars"); } C.count("dualities"); C.count("bars", A.size());
}
// ---- barycentric subdivision: chains of faces, entering with their largest member
FAMILY(subdivision, 40, 700) {
  Rng &r = C.rng; auto b = big(C, .45); std::string w, w0; Bars ref = any(r, b.v, w0); std::map<sp::Sx, size_t> id; std::vector<double> val; for (auto &p : b.v) { id[p.first] = val.size(); val.push_back(p.second); } auto pm = r.perm(val.size()); Valued u; std::function<void(const sp::Sx &, sp::Sx, double)> go = [&](const sp::Sx &s, sp::Sx chain, double t) { chain.push_back(pm[id[s]]); auto q = chain; std::sort(q.begin(), q.end()); u[q] = t; for (size_t bits = 1; bits + 1 < (1u << s.size()); bits++) { sp::Sx f; for (size_t j = 0; j < s.size(); j++) if (bits >> j & 1) f.push_back(s[j]); go(f, chain, t); } }; if (b.v.size() > 260) throw Skip(); for (auto &p : b.v) go(p.first, {}, p.second);
  C.desc << " subdivided " << u.size(); same(any(r, u, w), ref, "subdivided " + w + " and " + w0); C.count("subdivisions"); C.count("cells", u.size());
}
