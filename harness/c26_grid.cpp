// C26: grids, lower-star values, lifetimes extended from vertices or pixels, levelsets and levelset zigzags.
#include "chains.hpp"
#include "spaces.hpp"
using namespace vh; using namespace bats;
typedef bats::zigzag::ZigzagFiltration<SimplicialComplex, double> ZS;
typedef LightSimplicialComplex<size_t> LC;
typedef std::vector<long> Pt;
template <class X> std::vector<std::vector<size_t>> cells_of(const X &x, size_t k) { std::vector<std::vector<size_t>> v; for (size_t i = 0; i < x.ncells(k); i++) v.push_back(x.get_cell(k, i)); return v; }
// the complex has exactly these cells, each once, with every face a cell listed once
template <class X> void same_cells(const X &x, const std::set<sp::Sx> &want, bool cubes, const std::string &w) {
  size_t tot = 0; std::set<sp::Sx> got; for (size_t k = 0; k < x.maxdim() + 1; k++) { REQUIRE(cells_of(x, k).size() == x.ncells(k), "cell-list", w); for (auto &s : cells_of(x, k)) { tot++; auto t = s; if (!cubes) std::sort(t.begin(), t.end()); REQUIRE((cubes ? sp::cube_dim(t) : t.size() - 1) == k, "cell-dim", w << " " << show(s) << " in dimension " << k); REQUIRE(got.insert(t).second, "cell-twice", w << " " << show(s)); REQUIRE(want.count(t), "extra-cell", w << " " << show(s)); REQUIRE(x.find_idx(s) < x.ncells(k) && x.get_cell(k, x.find_idx(s)) == s, "cell-index", w << " " << show(s)); } }
  for (auto &s : want) REQUIRE(got.count(s), "missing-cell", w << " " << show(s)); REQUIRE(x.ncells() == tot && tot == want.size(), "cell-count", w << " " << x.ncells());
}
static LC as_light(const LC *, size_t n, size_t d) { return LC(n, d); }
// box of vertex positions lo..hi-1 per axis: cubes and chains of the product order
struct Box { std::vector<size_t> lo, hi, dim; };
static void cubes_in(const Box &b, size_t ax, sp::Sx &c, std::set<sp::Sx> &out) { if (ax == b.lo.size()) { out.insert(c); return; } for (size_t a = b.lo[ax]; a < b.hi[ax]; a++) for (size_t e = 0; e < 2; e++) if (a + e < b.hi[ax]) { c.push_back(a); c.push_back(a + e); cubes_in(b, ax + 1, c, out); c.pop_back(); c.pop_back(); } }
static std::set<sp::Sx> box_cubes(const Box &b) { std::set<sp::Sx> s; sp::Sx c; cubes_in(b, 0, c, s); return s; }
static size_t label(const std::vector<size_t> &p, const std::vector<size_t> &dim) { size_t v = 0; for (size_t i = 0; i < p.size(); i++) v = v * dim[i] + p[i]; return v; }
// strictly increasing chains of vertices of one cube, running from its first to its last vertex, for every cube of the set
static std::set<sp::Sx> freudenthal(const std::set<sp::Sx> &cubes, const std::vector<size_t> &dim) {
  std::set<sp::Sx> out; size_t d = dim.size();
  for (auto &c : cubes) { std::vector<size_t> a, free; for (size_t i = 0; i < d; i++) { a.push_back(c[2 * i]); if (c[2 * i] != c[2 * i + 1]) free.push_back(i); }
    std::function<void(size_t, sp::Sx)> go = [&](size_t mask, sp::Sx s) { auto p = a; for (size_t i = 0; i < free.size(); i++) if (mask >> i & 1) p[free[i]]++; s.push_back(label(p, dim)); size_t full = (size_t(1) << free.size()) - 1; if (mask == full) { std::sort(s.begin(), s.end()); out.insert(s); return; } for (size_t m = mask + 1; m <= full; m++) if ((m & mask) == mask) go(m, s); };
    go(0, {}); }
  return out;
}
FAMILY(grids, 500, 12000) {
  Rng &r = C.rng; bool two = r.chance(.4); Box b; for (int i = 0; i < (two ? 2 : 3); i++) { size_t n = r.chance(.08) ? 0 : r.chance(.03) ? r.r(8, 20) : r.r(1, two ? 6 : 4); b.dim.push_back(n); b.lo.push_back(0); b.hi.push_back(n); } if (r.chance(.05)) { size_t a = r.r(0, b.dim.size() - 1); for (size_t i = 0; i < b.dim.size(); i++) b.dim[i] = b.hi[i] = i == a ? r.r(18, 40) : r.r(1, 2); } C.desc << "grid " << show(b.dim); auto cu = box_cubes(b); std::set<sp::Sx> si;
  if (two) { C.nontrivial(); size_t m = b.dim[0], n = b.dim[1]; si = freudenthal(cu, b.dim); same_cells(Cube(m, n), cu, true, "Cube(m,n)"); same_cells(Freudenthal<SimplicialComplex>(m, n), si, false, "Freudenthal(m,n)"); same_cells(Freudenthal<LC>(m, n), si, false, "Freudenthal(m,n) Light"); return; }
  size_t n1 = b.dim[0], n2 = b.dim[1], n3 = b.dim[2]; if (r.chance(.4)) { C.nontrivial(); si = freudenthal(cu, b.dim); same_cells(Cube(n1, n2, n3), cu, true, "Cube"); same_cells(Freudenthal<SimplicialComplex>(n1, n2, n3), si, false, "Freudenthal"); same_cells(Freudenthal<LC>(n1, n2, n3), si, false, "Freudenthal Light"); if (n1 == n2 && n2 == n3 && n1 > 1) same_cells(CubicalComplex::generate_cube(n1), cu, true, "generate_cube"); return; }
  for (int i = 0; i < 3; i++) { b.lo[i] = r.r(0, b.dim[i]); b.hi[i] = r.chance(.05) ? b.lo[i] : r.chance(.25) && b.lo[i] < b.dim[i] ? b.lo[i] + 1 : r.r(b.lo[i], b.dim[i]); } C.desc << " from " << show(b.lo) << " to " << show(b.hi); C.nontrivial(); cu = box_cubes(b); si = freudenthal(cu, b.dim);
  same_cells(Cube(n1, n2, n3, b.lo[0], b.hi[0], b.lo[1], b.hi[1], b.lo[2], b.hi[2]), cu, true, "Cube range"); same_cells(Freudenthal<SimplicialComplex>(n1, n2, n3, b.lo[0], b.hi[0], b.lo[1], b.hi[1], b.lo[2], b.hi[2]), si, false, "Freudenthal range"); same_cells(Freudenthal<LC>(n1, n2, n3, b.lo[0], b.hi[0], b.lo[1], b.hi[1], b.lo[2], b.hi[2]), si, false, "Freudenthal range Light");
}
static CubicalComplex cubical(Rng &r, const std::set<sp::Sx> &all, size_t d) { CubicalComplex X(d); std::vector<sp::Sx> v(all.begin(), all.end()); r.shuffle(v); for (auto &c : v) X.add_recursive(c); return X; }
static std::set<sp::Sx> some_cubes(Case &C, const std::vector<size_t> &dim, bool all = false) { Rng &r = C.rng; Box b{std::vector<size_t>(dim.size(), 0), dim, dim}; auto full = box_cubes(b); if (all || r.chance(.3)) { C.desc << " all cubes"; return full; } std::vector<sp::Sx> v(full.begin(), full.end()); sp::Cubes q; for (int t = r.r(1, 8); t--;) { auto c = r.pick(v); q.add(c); C.desc << show(c); } return q.all; }
FAMILY(triangulated, 300, 8000) {
  Rng &r = C.rng; std::vector<size_t> dim; for (int i = 0; i < 3; i++) dim.push_back(r.chance(.03) ? r.r(6, 14) : r.r(1, 4)); if (r.chance(.05)) { size_t a = r.r(0, 2); for (size_t i = 0; i < 3; i++) dim[i] = i == a ? r.r(18, 40) : r.r(1, 2); } C.desc << "grid " << show(dim); auto cu = some_cubes(C, dim); C.nontrivial(); auto X = cubical(r, cu, 3); auto si = freudenthal(cu, dim);
  same_cells(Freudenthal<SimplicialComplex>(X, dim[0], dim[1], dim[2]), si, false, "Freudenthal(cubes)"); same_cells(Freudenthal<LC>(X, dim[0], dim[1], dim[2]), si, false, "Freudenthal(cubes) Light");
  if (r.chance(.2)) { CubicalComplex Y(2); Y.add_recursive({0, 1, 0, 1}); MUST_THROW(Freudenthal<SimplicialComplex>(Y, 3, 3, 3), "accepted-2d", "Freudenthal of a 2-dimensional cubical complex"); }
}
template <class T> std::vector<T> values(Rng &r, size_t n) { std::vector<T> v(n); int m = r.r(0, 5); for (auto &x : v) { double d = m == 5 ? r.r(0, 12) : m == 0 ? r.r(-3, -1) : m == 1 ? r.r(-2, 2) : m == 2 ? r.u(-5, 5) * 1 : m == 3 ? -1e6 + r.r(0, 3) : r.r(0, 1); if (std::is_integral<T>::value) x = (T)(long)d; else x = (T)d; } if (std::is_integral<T>::value && std::is_signed<T>::value && r.chance(.1) && n) v[0] = -2000000000; return v; }
template <class X, class T> void lower(Case &C, const X &x, const std::vector<T> &f, const std::string &w) {
  auto p = lower_star_filtration(x, f); auto &vals = std::get<0>(p); auto &ind = std::get<1>(p); REQUIRE(vals.size() == x.maxdim() + 1 && ind.size() == vals.size(), "lower-star-dims", w);
  for (size_t k = 0; k < vals.size(); k++) { REQUIRE(vals[k].size() == x.ncells(k) && ind[k].size() == x.ncells(k), "lower-star-size", w); for (size_t i = 0; i < x.ncells(k); i++) { auto s = x.get_simplex(k, i); double m = -1e300; bool in = false; for (auto v : s) { m = std::max<double>(m, f[v]); in = in || v == ind[k][i]; } REQUIRE(vals[k][i] == m, "lower-star-value", w << " " << show(s) << ": " << vals[k][i] << " expected " << m); REQUIRE(in && (double)f[ind[k][i]] == m, "lower-star-vertex", w << " " << show(s) << " vertex " << ind[k][i]); } }
  if (!x.ncells()) return; std::vector<std::vector<double>> g; std::vector<std::vector<int>> bd; std::vector<double> want(f.size(), 0), mag(f.size(), 0); bool vx = ind[0].size() == f.size(); if (!vx) return;
  for (size_t k = 0; k < vals.size(); k++) { g.emplace_back(); bd.emplace_back(); if (!x.ncells(k)) continue; for (int t = C.rng.r(0, 4); t--;) for (int e = 0; e < 2; e++) { size_t d = k + e; bool no = d >= vals.size() || !x.ncells(d) || C.rng.chance(e ? .3 : .05); int i = no ? -1 : C.rng.r(0, x.ncells(d) - 1); double y = C.rng.r(-8, 8); bd[k].push_back(i); g[k].push_back(y); if (i >= 0) want[ind[d][i]] += y; } }
  auto df = lower_star_backwards(g, bd, ind); REQUIRE(df.size() == want.size(), "gradient-size", w); for (size_t i = 0; i < want.size(); i++) REQUIRE(df[i] == want[i], "gradient", w << " vertex " << i << ": " << df[i] << " expected " << want[i]);
}
template <class T> void stars(Case &C) {
  Rng &r = C.rng; auto x = sp::random_space(r); size_t n = x.nv(); for (size_t v = 0; v < n; v++) if (r.chance(.7)) x.add({v}); auto f = values<T>(r, n); C.desc << sp::show(x) << " f " << show(f); C.nontrivial();
  { SimplicialComplex X; for (auto &s : sp::random_order(r, x)) { auto t = s; X.add(t); } lower(C, X, f, "SimplicialComplex"); } LC L(n, std::max(0, x.dim())); for (auto &s : sp::random_order(r, x)) { auto t = s; L.add(t); } lower(C, L, f, "Light");
  std::function<std::tuple<double, size_t>(const std::vector<size_t> &)> fn = [](const std::vector<size_t> &s) { double a = 0; for (auto v : s) a += v; return std::make_tuple(a - 3, s.size()); }; auto e = extend_filtration(L, fn); for (size_t k = 0; k <= L.maxdim(); k++) for (size_t i = 0; i < L.ncells(k); i++) { auto q = fn(L.get_simplex(k, i)); REQUIRE(std::get<0>(e)[k].size() == L.ncells(k) && std::get<0>(e)[k][i] == std::get<0>(q) && std::get<1>(e)[k][i] == std::get<1>(q), "extend-filtration", k << " " << i); }
}
FAMILY(lower_star, 400, 10000) { switch (C.rng.r(0, 2)) { case 0: stars<double>(C); break; case 1: stars<float>(C); break; default: stars<int>(C); } }
template <class T> void star_cubes(Case &C) {
  Rng &r = C.rng; bool two = r.chance(.5); std::vector<size_t> dim; size_t N = 1; for (int i = 0; i < (two ? 2 : 3); i++) { dim.push_back(r.chance(.02) ? r.r(6, 12) : r.r(1, two ? 5 : 4)); N *= dim.back(); } C.desc << "grid " << show(dim); auto cu = some_cubes(C, dim); auto f = values<T>(r, N); C.desc << " f " << show(f); C.nontrivial(); auto X = cubical(r, cu, dim.size());
  auto at = [&](size_t i, size_t j, size_t k) { return two ? f[i * dim[1] + j] : f[(i * dim[1] + j) * dim[2] + k]; };
  auto judge = [&](const std::vector<std::vector<T>> &v) { REQUIRE(v.size() == X.maxdim() + 1, "lower-star-dims", v.size()); for (size_t k = 0; k < v.size(); k++) { REQUIRE(v[k].size() == X.ncells(k), "lower-star-size", k); for (size_t q = 0; q < v[k].size(); q++) { auto c = X.get_cube(k, q); if (two) { c.push_back(0); c.push_back(0); } T m = at(c[0], c[2], c[4]); for (int a = 0; a < 2; a++) for (int b = 2; b < 4; b++) for (int e = 4; e < 6; e++) m = std::max(m, at(c[a], c[b], c[e])); REQUIRE(v[k][q] == m, "lower-star-value", "cube " << show(c) << ": " << v[k][q] << " expected " << m); } } };
  if (two) { std::vector<std::vector<T>> g(dim[0], std::vector<T>(dim[1])); for (size_t i = 0; i < dim[0]; i++) for (size_t j = 0; j < dim[1]; j++) g[i][j] = at(i, j, 0); judge(lower_star_filtration(X, g)); }
  else { std::vector<std::vector<std::vector<T>>> g(dim[0], std::vector<std::vector<T>>(dim[1], std::vector<T>(dim[2]))); for (size_t i = 0; i < dim[0]; i++) for (size_t j = 0; j < dim[1]; j++) for (size_t k = 0; k < dim[2]; k++) g[i][j][k] = at(i, j, k); judge(lower_star_filtration(X, g)); }
}
FAMILY(lower_star_cubes, 300, 8000) { switch (C.rng.r(0, 2)) { case 0: star_cubes<double>(C); break; case 1: star_cubes<float>(C); break; default: star_cubes<int>(C); } }
// lifetimes of a zigzag filtration: every cell once, exactly the expected list
template <class Z, class T> void lifetimes(const Z &Fl, const std::map<sp::Sx, std::vector<std::pair<T, T>>> &want, bool cubes, const std::string &w) {
  auto &X = Fl.complex(); std::set<sp::Sx> S; for (auto &p : want) S.insert(p.first); same_cells(X, S, cubes, w);
  for (size_t k = 0; k < X.maxdim() + 1; k++) { if (!X.ncells(k)) continue; REQUIRE(Fl.vals(k).size() == X.ncells(k), "lifetime-count", w << " dimension " << k); for (size_t i = 0; i < X.ncells(k); i++) { auto s = X.get_cell(k, i); auto t = s; if (!cubes) std::sort(t.begin(), t.end()); auto &g = Fl.vals(k)[i]; auto &e = want.at(t); REQUIRE(g.size() == e.size(), "lifetimes", w << " cell " << show(s) << " has " << g.size() << " lifetimes"); for (size_t a = 0; a < e.size(); a++) REQUIRE(g[a].first == e[a].first && g[a].second == e[a].second, "lifetime", w << " cell " << show(s) << ": [" << g[a].first << "," << g[a].second << "] expected [" << e[a].first << "," << e[a].second << "]"); } }
}
template <class Z, class T> void slices(Case &C, const Z &Fl, const std::map<sp::Sx, std::vector<std::pair<T, T>>> &want, bool cubes) {
  Rng &r = C.rng; std::vector<T> vs; for (auto &p : want) for (auto &l : p.second) { vs.push_back(l.first); vs.push_back(l.second); } if (vs.empty()) return;
  for (int t = 0; t < 4; t++) { T a = r.pick(vs), b = r.pick(vs); if (r.chance(.4)) a -= 1; if (r.chance(.4)) b += 1; if (r.chance(.3)) b = a; if (b < a) std::swap(a, b); if (r.chance(.1)) { a -= 100000; } std::set<sp::Sx> in; for (auto &p : want) for (auto &l : p.second) if (l.first <= b && a <= l.second) in.insert(p.first); std::ostringstream w; w << "levelset(" << a << "," << b << ")"; same_cells(Fl.levelset(a, b), in, cubes, w.str()); }
}
// the levelset zigzag: windows, inclusions, and as many classes at every node as its window has
template <class Z, class T> void zigzag_of(Case &C, const Z &Fl, const std::map<sp::Sx, std::vector<std::pair<T, T>>> &want, bool cubes, T eps, T t0, T t1, bool exact) {
  auto D = zigzag_levelsets(Fl, eps, t0, t1); size_t n = D.nnode(); REQUIRE(n % 2 == 1 && D.nedge() == n - 1, "zigzag-shape", n << " nodes"); if (exact) { size_t h = 0; for (T s = t0; s < t1 - eps; s += eps) h++; REQUIRE(n == 2 * h + 1, "zigzag-nodes", n << " expected " << 2 * h + 1); }
  T s = t0; std::vector<std::set<sp::Sx>> in(n); for (size_t i = 0; i < n; i++) { T a = s, b = s + eps; if (i % 2) { b = b + eps; s = s + eps; } for (auto &p : want) for (auto &l : p.second) if (l.first <= b && a <= l.second) in[i].insert(p.first); same_cells(D.node_data(i), in[i], cubes, "zigzag node " + std::to_string(i)); }
  REQUIRE(t1 <= s + eps, "zigzag-end", "last window ends at " << s + eps);
  for (size_t i = 0; i + 1 < n; i++) { size_t a = i % 2 ? i + 1 : i, b = i % 2 ? i : i + 1; REQUIRE(D.elist[i].src == a && D.elist[i].targ == b, "zigzag-edge", "edge " << i); auto &X = D.node_data(a), &Y = D.node_data(b); auto &g = D.edge_data(i); for (size_t k = 0; k <= X.maxdim(); k++) { if (!X.ncells(k)) continue; auto &M = g[k]; REQUIRE(M.ncol() == X.ncells(k) && M.nrow() == Y.ncells(k), "inclusion-shape", "edge " << i << " dimension " << k << " " << M.nrow() << "x" << M.ncol()); for (size_t j = 0; j < X.ncells(k); j++) { size_t nz = 0, at = 0; int v = 0; for (auto it = M[j].nzbegin(); it != M[j].nzend(); ++it) { nz++; at = it->ind; v = it->val; } REQUIRE(nz == 1 && v == 1 && at < Y.ncells(k) && Y.get_cell(k, at) == X.get_cell(k, j), "inclusion", "edge " << i << " cell " << show(X.get_cell(k, j))); } } }
  C.count("zigzag-windows", n);
}
template <class X, class T> void extended(Case &C, const X &x, const sp::Cpx &m, const std::vector<T> &f, T eps, const std::string &w) {
  std::map<sp::Sx, std::vector<std::pair<T, T>>> want; bool bad = false; for (auto &s : m.all) { T mx = f[s[0]], mn = f[s[0]]; for (auto v : s) { mx = std::max(mx, f[v]); mn = std::min(mn, f[v]); } T b = mx - eps, d = mn + eps; bad = bad || b > d; want[s].push_back({b, d}); }
  if (bad) { MUST_THROW(bats::zigzag::extend_zigzag_filtration(f, x, eps), "accepted-negative-lifetime", w); C.count("refused"); return; }
  auto Fl = bats::zigzag::extend_zigzag_filtration(f, x, eps); lifetimes(Fl, want, false, w); slices(C, Fl, want, false);
  T lo = f[0], hi = f[0]; for (auto v : f) { lo = std::min(lo, v); hi = std::max(hi, v); } if (double(hi) - double(lo) < 20 && eps > 0) zigzag_of(C, Fl, want, false, std::max<T>(eps, 1), T(lo - 1), T(hi + 1), false);
}
template <class T> void extend(Case &C) {
  Rng &r = C.rng; auto x = sp::random(r, r.r(1, 8), r.r(0, 3), r.r(1, 8)); size_t n = x.nv(); auto f = values<T>(r, n); T mn = *std::min_element(f.begin(), f.end()), mx = *std::max_element(f.begin(), f.end()); T eps; if (r.chance(.75)) eps = T((double(mx) - double(mn)) / 2 + r.r(1, 2)); else eps = T(r.r(-1, 3)); if (double(mx) - mn > 1e9) { f[0] = -5; eps = 8; } C.desc << sp::show(x) << " f " << show(f) << " eps " << eps; C.nontrivial();
  SimplicialComplex X; for (auto &s : sp::random_order(r, x)) { auto t = s; X.add(t); } extended(C, X, x, f, eps, "SimplicialComplex"); LC L(n, std::max(0, x.dim())); for (auto &s : sp::random_order(r, x)) { auto t = s; L.add(t); } extended(C, L, x, f, eps, "Light");
}
FAMILY(vertex_levelsets, 300, 8000) { switch (C.rng.r(0, 2)) { case 0: extend<double>(C); break; case 1: extend<float>(C); break; default: extend<int>(C); } }
template <class T> void extend_cubes(Case &C) {
  Rng &r = C.rng; size_t n = r.chance(.03) ? r.r(5, 7) : r.r(1, 4); std::vector<size_t> dim(3, n); C.desc << "cube " << n; auto cu = some_cubes(C, dim); auto f = values<T>(r, n * n * n); if (std::is_integral<T>::value) f[0] = -4; T eps = T(r.r(-1, 5)); if (r.chance(.3)) eps = T(1e7); C.desc << " f " << show(f) << " eps " << eps; C.nontrivial(); auto X = cubical(r, cu, 3);
  std::map<sp::Sx, std::vector<std::pair<T, T>>> all, kept; bool bad = false; for (auto &c : cu) { T mx, mn; bool first = true; for (int a = 0; a < 2; a++) for (int b = 2; b < 4; b++) for (int e = 4; e < 6; e++) { T v = f[(c[a] * n + c[b]) * n + c[e]]; mx = first ? v : std::max(mx, v); mn = first ? v : std::min(mn, v); first = false; } T b = mx - eps, d = mn + eps; all[c].push_back({b, d}); if (b > d) bad = true; else kept[c].push_back({b, d}); }
  if (bad) { MUST_THROW(bats::zigzag::extend_levelset(f, X, eps, n), "accepted-negative-lifetime", "extend_levelset"); C.count("refused"); } else { auto v = bats::zigzag::extend_levelset(f, X, eps, n); bats::zigzag::ZigzagFiltration<CubicalComplex, T> G(X, v); lifetimes(G, all, true, "extend_levelset"); }
  auto Fl = bats::zigzag::extend_zigzag_filtration(f, X, eps, n); lifetimes(Fl, kept, true, "extend_zigzag_filtration"); slices(C, Fl, kept, true); if (eps > 0 && eps < 10 && f[0] > -100) zigzag_of(C, Fl, kept, true, T(std::max<double>(1, eps)), T(-4), T(4), true);
}
FAMILY(cube_levelsets, 300, 8000) { switch (C.rng.r(0, 2)) { case 0: extend_cubes<double>(C); break; case 1: extend_cubes<float>(C); break; default: extend_cubes<int>(C); } }
template <class T> void toplex(Case &C) {
  Rng &r = C.rng; size_t d[3]; for (auto &x : d) x = r.chance(.02) ? r.r(4, 9) : r.r(1, 3); if (r.chance(.04)) { size_t a = r.r(0, 2); for (size_t i = 0; i < 3; i++) d[i] = i == a ? r.r(18, 30) : r.r(1, 2); } auto f = values<T>(r, d[0] * d[1] * d[2]); C.desc << "image " << d[0] << "x" << d[1] << "x" << d[2] << " " << show(f); C.nontrivial(); std::vector<std::vector<std::vector<T>>> img(d[0], std::vector<std::vector<T>>(d[1], std::vector<T>(d[2]))); for (size_t i = 0; i < d[0]; i++) for (size_t j = 0; j < d[1]; j++) for (size_t k = 0; k < d[2]; k++) img[i][j][k] = f[(i * d[1] + j) * d[2] + k];
  std::map<sp::Sx, std::vector<std::pair<T, T>>> want; Box b{{0, 0, 0}, {d[0] + 1, d[1] + 1, d[2] + 1}, {}}; for (auto &c : box_cubes(b)) { bool first = true; T mn{}, mx{}; for (size_t i = 0; i < d[0]; i++) for (size_t j = 0; j < d[1]; j++) for (size_t k = 0; k < d[2]; k++) if (i <= c[0] && c[1] <= i + 1 && j <= c[2] && c[3] <= j + 1 && k <= c[4] && c[5] <= k + 1) { T v = img[i][j][k]; mn = first ? v : std::min(mn, v); mx = first ? v : std::max(mx, v); first = false; } want[c].push_back({mn, mx}); }
  auto Fl = zigzag_toplex(img); lifetimes(Fl, want, true, "zigzag_toplex"); slices(C, Fl, want, true); T lo = *std::min_element(f.begin(), f.end()), hi = *std::max_element(f.begin(), f.end()); if (double(hi) - double(lo) < 15) zigzag_of(C, Fl, want, true, T(1), T(lo - r.r(0, 1)), T(hi + r.r(0, 1)), std::is_integral<T>::value);
}
FAMILY(images, 300, 8000) { switch (C.rng.r(0, 2)) { case 0: toplex<double>(C); break; case 1: toplex<float>(C); break; default: toplex<int>(C); } }
// several lifetimes per cell, given explicitly or cell by cell; thin windows with inexact ends
FAMILY(lifetimes_, 300, 8000) {
  Rng &r = C.rng; auto x = sp::random(r, r.r(1, 6), r.r(0, 2), r.r(1, 7)); C.desc << sp::show(x); std::map<sp::Sx, std::vector<std::pair<double, double>>> want; int iv = r.r(1, 3); double w = r.pick(std::vector<double>{1, .1, .3, 1 / 3.}); auto cells = x.cells(); std::vector<std::map<sp::Sx, std::pair<double, double>>> per(iv);
  for (int t = 0; t < iv; t++) { double t0 = 20 * t - 10; for (auto &l : cells) for (auto &s : l) { std::pair<double, double> p; if (s.size() == 1) { p.first = t0 + r.r(0, 5) * w; p.second = t0 + r.r(5, 9) * w; if (p.second < p.first) p.second = p.first; } else { p = {-1e9, 1e9}; for (auto &f : sp::facets_of(s)) { auto it = per[t].find(f); if (it == per[t].end()) { p = {1, 0}; break; } p.first = std::max(p.first, it->second.first); p.second = std::min(p.second, it->second.second); } if (r.chance(.3) && p.first + w <= p.second) p.first += w; } if (p.first > p.second || (t && r.chance(.3) && s.size() > 1)) continue; per[t][s] = p; want[s].push_back(p); C.desc << " " << show(s) << "[" << p.first << "," << p.second << "]"; } }
  C.nontrivial(); std::set<sp::Sx> S; for (auto &p : want) S.insert(p.first); ZS A; if (r.chance(.5)) { for (int t = 0; t < iv; t++) for (auto &l : cells) for (auto &s : l) if (per[t].count(s)) { auto q = s; A.add(per[t][s].first, per[t][s].second, q); } }
  else { SimplicialComplex X; std::vector<std::vector<std::vector<std::pair<double, double>>>> v; for (auto &l : cells) { std::vector<std::vector<std::pair<double, double>>> u; for (auto &s : l) if (want.count(s)) { auto q = s; X.add(q); u.push_back(want[s]); } if (!u.empty()) v.push_back(u); } A = ZS(X, v); }
  REQUIRE(A.maxdim() == A.vals().size() - 1, "maxdim", A.maxdim()); lifetimes(A, want, false, "lifetimes"); slices(C, A, want, false); double t0 = -10 - w * r.r(0, 1); zigzag_of(C, A, want, false, w * r.r(1, 2), t0, t0 + w * r.r(1, 12), false);
}
