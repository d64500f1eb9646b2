// Model simplicial/cubical complexes, known spaces and random chain complexes.
#pragma once
#include "oracle.hpp"
namespace sp {
typedef std::vector<size_t> Sx;                        // sorted vertices
typedef std::vector<std::vector<Sx>> Cells;            // by dimension, sorted lists
inline std::vector<Sx> facets_of(const Sx &s) { std::vector<Sx> f; if (s.size() > 1) for (size_t j = 0; j < s.size(); j++) { Sx t = s; t.erase(t.begin() + j); f.push_back(t); } return f; }
struct Cpx {
  std::set<Sx> all;
  void add(Sx s) { std::sort(s.begin(), s.end()); if (all.insert(s).second) for (auto &f : facets_of(s)) add(f); }
  int dim() const { int d = -1; for (auto &s : all) d = std::max(d, (int)s.size() - 1); return d; }
  Cells cells() const { Cells c(std::max(0, dim() + 1)); for (auto &s : all) c[s.size() - 1].push_back(s); return c; }
  size_t n(size_t d) const { size_t k = 0; for (auto &s : all) k += s.size() == d + 1; return k; }
  size_t nv() const { size_t m = 0; for (auto &s : all) m = std::max(m, s.back() + 1); return m; }
  Cpx skeleton(size_t d) const { Cpx y; for (auto &s : all) if (s.size() <= d + 1) y.all.insert(s); return y; }
  std::vector<Sx> maximal() const { std::set<Sx> m = all; for (auto &s : all) for (auto &f : facets_of(s)) m.erase(f); return std::vector<Sx>(m.begin(), m.end()); }
};
inline Cpx unite(const Cpx &a, const Cpx &b) { Cpx c = a; c.all.insert(b.all.begin(), b.all.end()); return c; }
inline Cpx meet(const Cpx &a, const Cpx &b) { Cpx c; for (auto &s : a.all) if (b.all.count(s)) c.all.insert(s); return c; }
inline std::string show(const Cpx &x) { std::ostringstream o; for (auto &s : x.maximal()) { o << "{"; for (size_t i = 0; i < s.size(); i++) o << (i ? "," : "") << s[i]; o << "}"; } return o.str(); }
inline Cpx of(const std::vector<Sx> &m) { Cpx c; for (auto &s : m) c.add(s); return c; }
inline Cpx simplex(size_t d, size_t off = 0) { Sx s; for (size_t i = 0; i <= d; i++) s.push_back(off + i); return of({s}); }
inline Cpx sphere(size_t d) { Cpx c = simplex(d + 1); Sx s; for (size_t i = 0; i <= d + 1; i++) s.push_back(i); c.all.erase(s); return c; }
inline Cpx circle(size_t n) { Cpx c; for (size_t i = 0; i < n; i++) c.add({i, (i + 1) % n}); return c; }
inline Cpx torus7() { Cpx c; for (size_t i = 0; i < 7; i++) { c.add({i, (i + 1) % 7, (i + 3) % 7}); c.add({i, (i + 2) % 7, (i + 3) % 7}); } return c; }
inline Cpx rp2() { return of({{0,1,2},{0,2,3},{0,3,4},{0,4,5},{0,1,5},{1,2,4},{2,3,5},{1,3,4},{2,4,5},{1,3,5}}); }
inline Cpx klein() {  // 4x4 grid with a flipped identification
  Cpx c; auto id = [](size_t i, size_t j) { if (i == 4) { i = 0; j = (4 - j) % 4; } return (i % 4) * 4 + (j % 4); };
  for (size_t i = 0; i < 4; i++) for (size_t j = 0; j < 4; j++) { c.add({id(i, j), id(i + 1, j), id(i + 1, j + 1)}); c.add({id(i, j), id(i, j + 1), id(i + 1, j + 1)}); } return c; }
inline Cpx dunce() { return of({{0,1,3},{0,1,4},{0,1,5},{0,2,3},{0,2,4},{0,2,6},{1,2,3},{1,2,5},{1,2,7},{0,5,6},{0,6,7} ,{1,4,7},{2,4,7},{0,3,7},{1,6,5},{3,4,5},{4,5,6}}); }
inline Cpx shift(const Cpx &x, size_t k) { Cpx c; for (auto s : x.all) { for (auto &v : s) v += k; c.all.insert(s); } return c; }
inline Cpx cone(const Cpx &x, size_t apex) { Cpx c = x; c.add({apex}); for (auto s : x.all) { s.push_back(apex); c.add(s); } return c; }
inline Cpx relabel(const Cpx &x, const std::vector<size_t> &p) { Cpx c; for (auto s : x.all) { for (auto &v : s) v = p[v]; std::sort(s.begin(), s.end()); c.all.insert(s); } return c; }
inline Cpx random(vh::Rng &r, size_t nv, size_t maxd, int m) {
  Cpx c; for (int i = 0; i < m; i++) { size_t d = std::min<size_t>(r.r(0, maxd), nv - 1); c.add(r.subset(nv, d + 1)); } return c; }
// many cells, or a high dimension: large enough for a size threshold in the code to matter
inline Cpx big_space(vh::Rng &r) {
  switch (r.r(0, 4)) {
    case 0: return random(r, r.r(10, 16), 2, r.r(25, 45)); case 1: return circle(r.r(60, 140)); case 2: return random(r, r.r(7, 9), 5, 4);
    case 3: return sphere(r.r(4, 6)); default: return random(r, r.r(70, 140), 1, 130);
  }
}
static double big_chance = .05;
inline Cpx random_space(vh::Rng &r) {   // known or random, sometimes combined
  if (r.u01() < big_chance) return big_space(r);
  switch (r.r(0, 11)) {
    case 0: return circle(r.r(3, 7)); case 1: return torus7(); case 2: return rp2(); case 3: return klein();
    case 4: return sphere(r.r(0, 3)); case 5: { auto x = circle(r.r(3, 5)); return unite(x, shift(circle(3), x.nv() - r.r(0, 1))); }
    case 6: { auto x = sphere(r.r(0, 2)); return unite(cone(x, 20), cone(x, 21)); } case 7: return dunce();
    default: return random(r, r.r(1, 8), r.r(0, 3), r.r(1, 10));
  }
}
// an order of the cells in which faces come first (random linear extension)
inline std::vector<Sx> random_order(vh::Rng &r, const Cpx &x) {
  std::map<Sx, double> h; std::vector<std::pair<double, Sx>> v;
  auto c = x.cells(); for (auto &l : c) for (auto &s : l) { double t = r.u01() * 3; for (auto &f : facets_of(s)) t = std::max(t, h[f]); h[s] = t; v.push_back({t, s}); }
  std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first || (a.first == b.first && a.second.size() < b.second.size()); });
  std::vector<Sx> o; for (auto &p : v) o.push_back(p.second); return o;
}
// integer boundary in given cell order: coefficient (-1)^j for dropping vertex j
inline std::vector<std::vector<int>> bd(const std::vector<Sx> &lo, const std::vector<Sx> &hi) {
  std::map<Sx, size_t> ix; for (size_t i = 0; i < lo.size(); i++) ix[lo[i]] = i;
  std::vector<std::vector<int>> D(lo.size(), std::vector<int>(hi.size(), 0));
  for (size_t k = 0; k < hi.size(); k++) { auto f = facets_of(hi[k]); for (size_t j = 0; j < f.size(); j++) D[ix.at(f[j])][k] += j % 2 ? -1 : 1; }
  return D;
}

// cubes: vectors of 2n entries (a,b), b = a or a+1
inline size_t cube_dim(const Sx &c) { size_t d = 0; for (size_t i = 0; i < c.size(); i += 2) d += c[i + 1] - c[i]; return d; }
struct Cubes {
  std::set<Sx> all;
  static std::vector<Sx> faces(const Sx &c) { std::vector<Sx> f; for (size_t i = 0; i < c.size(); i += 2) if (c[i] != c[i + 1]) { Sx t = c; t[i] = c[i + 1]; f.push_back(t); t = c; t[i + 1] = c[i]; f.push_back(t); } return f; }
  void add(const Sx &c) { if (all.insert(c).second) for (auto &f : faces(c)) add(f); }
};
inline Sx random_cube(vh::Rng &r, size_t n, int lim) { Sx c; for (size_t i = 0; i < n; i++) { size_t a = r.r(0, lim); c.push_back(a); c.push_back(a + r.r(0, 1)); } return c; }

// random chain complex with prescribed dimensions; D[0] has no rows
template <class K> std::vector<orc::M<K>> random_chain(vh::Rng &r, const std::vector<size_t> &dims, double p, K (*rnd)(vh::Rng &)) {
  std::vector<orc::M<K>> D(dims.size()); D[0] = orc::M<K>(0, dims[0]);
  for (size_t k = 1; k < dims.size(); k++) {
    orc::M<K> Z = k == 1 ? orc::M<K>::I(dims[0]) : orc::kernel(D[k - 1]);
    D[k] = orc::M<K>(dims[k - 1], dims[k]);
    for (size_t j = 0; j < dims[k]; j++) { if (r.chance(.25) || Z.c == 0) continue;
      for (size_t t = 0; t < Z.c; t++) if (r.chance(p)) { K f = rnd(r); for (size_t i = 0; i < Z.r; i++) D[k](i, j) = D[k](i, j) + f * Z(i, t); } }
  }
  return D;
}
} // namespace sp
