// C08: cubical complexes against a closed-set model; cell complexes against their input.
#include "bridge.hpp"
#include "spaces.hpp"
#include <unistd.h>
using namespace vh; using sp::Sx;
typedef bats::CubicalComplex CC;
struct Model { size_t n; std::vector<std::vector<Sx>> order; std::map<Sx, size_t> ix; Model(size_t n) : n(n), order(n + 1) {}
  bool has(const Sx &s) const { return ix.count(s); }
  size_t put(const Sx &s) { size_t d = sp::cube_dim(s); ix[s] = order[d].size(); order[d].push_back(s); return ix[s]; }
  bool ready(const Sx &s) const { for (auto &f : sp::Cubes::faces(s)) if (!has(f)) return false; return true; }
  void closure(const Sx &s, std::set<Sx> &miss) const { if (has(s) || !miss.insert(s).second) return; for (auto &f : sp::Cubes::faces(s)) closure(f, miss); } };
// signed boundary: the j-th nondegenerate direction has sign (-1)^j on the upper face, opposite on the lower
static std::vector<std::vector<int>> cube_bd(const Model &m, size_t k) {
  std::vector<std::vector<int>> D(m.order[k - 1].size(), std::vector<int>(m.order[k].size(), 0));
  for (size_t j = 0; j < m.order[k].size(); j++) { int s = 1; const Sx &c = m.order[k][j]; for (size_t i = 0; i < c.size(); i += 2) if (c[i] != c[i + 1]) { Sx u = c, l = c; u[i] = c[i + 1]; l[i + 1] = c[i]; D[m.ix.at(u)][j] += s; D[m.ix.at(l)][j] -= s; s = -s; } }
  return D;
}
static void same(Case &C, const CC &x, const Model &m, const std::string &w) {
  REQUIRE(x.maxdim() == m.n, "maxdim", w << " " << x.maxdim()); size_t tot = 0; std::vector<Sx> flat;
  for (size_t k = 0; k <= m.n; k++) { tot += m.order[k].size(); REQUIRE(x.ncells(k) == m.order[k].size(), "ncells", w << " dimension " << k << ": " << x.ncells(k) << " vs " << m.order[k].size());
    REQUIRE(x.get_cubes(k) == m.order[k], "get_cubes", w << " dimension " << k);
    for (size_t i = 0; i < m.order[k].size(); i++) { const Sx &c = m.order[k][i]; flat.push_back(c); REQUIRE(x.get_cube(k, i) == c && x.get_cell(k, i) == c, "get_cube", w << " " << show(c)); Sx s{1, 2, 3}; x.get_cube(k, i, s); REQUIRE(s == c, "get_cube-into", w); s = {4}; x.get_cell(k, i, s); REQUIRE(s == c, "get_cell-into", w); REQUIRE(Sx(x.cell_begin(k, i), x.cell_end(k, i)) == c, "cell_begin", w); REQUIRE(x.find_idx(c) == i, "find", w << " " << show(c) << " at " << x.find_idx(c)); } }
  REQUIRE(x.ncells() == tot && x.get_cubes() == flat, "totals", w); for (size_t k = m.n + 1; k < m.n + 4; k++) REQUIRE(x.ncells(k) == 0, "ncells", w << " beyond the dimension: " << x.ncells(k) << " in " << k);
  std::vector<DM> D(1, DM(0, x.ncells(0)));
  for (size_t k = 1; k <= m.n; k++) { auto B = x.boundary_csc(k); REQUIRE(B.nrow() == x.ncells(k - 1) && B.ncol() == x.ncells(k), "boundary-shape", w << " dimension " << k); auto want = cube_bd(m, k); auto got = want; for (auto &r : got) std::fill(r.begin(), r.end(), 0);
    for (size_t j = 0; j < x.ncells(k); j++) for (size_t p = B.get_colptr()[j]; p < B.get_colptr()[j + 1]; p++) { size_t i = B.get_rowind()[p]; REQUIRE(i < got.size(), "boundary-index", w); REQUIRE(p == B.get_colptr()[j] || i > B.get_rowind()[p - 1], "boundary-order", w); got[i][j] += B.get_val()[p]; }
    auto neg = want; for (auto &r : neg) for (auto &v : r) v = -v; REQUIRE(got == want || got == neg, "boundary", w << " dimension " << k << ": " << show2(got) << " vs +-" << show2(want));
    for (size_t j = 0; j < x.ncells(k); j++) { std::set<size_t> fs(x.faces_begin(k, j), x.faces_end(k, j)), wf; for (auto &f : sp::Cubes::faces(m.order[k][j])) wf.insert(m.ix.at(f)); REQUIRE(fs == wf, "faces", w); }
    D.push_back(dense_csc(B)); if (k > 1) REQUIRE((D[k - 1] * D[k]).zero(), "bd-squared", w << " dimension " << k); }
  bats::ChainComplex<CM> cc(x); REQUIRE(cc.is_valid_complex(), "chain-valid", w); for (size_t k = 1; k <= m.n; k++) REQUIRE(dense(cc[k]) == D[k], "chain-matrix", w);
  C.count("complexes_checked");
}
FAMILY(cubes, 4000, 40000) {
  Rng &r = C.rng; bool high = r.chance(.01); size_t n = high ? r.r(5, 7) : r.r(1, 4); int lim = r.r(1, high ? 1 : n > 2 ? 2 : 4), steps = r.r(1, high ? 2 : n > 3 ? 6 : 20); size_t base = r.chance(.2) ? 1000000 : 0; Model m(n); C.desc << "n=" << n;
  CC x; switch (r.r(0, 2)) { case 0: x = CC(n); break; case 1: x = CC((size_t)r.r(0, 20), n); break; default: x.set_dimension(n); }
  for (int t = 0; t < steps; t++) {
    Sx s = sp::random_cube(r, n, lim); for (auto &v : s) v += base; size_t d = sp::cube_dim(s); int op = r.r(0, 4); C.desc << (op < 2 ? " R" : op == 4 ? " B" : " a") << show(s);
    if (op == 4) { Sx b = s; switch (r.r(0, 2)) { case 0: b.push_back(1); b.push_back(1); break; case 1: b[1] = b[0] + 2; break; default: b[0] = b[1] + 1; }
      MUST_THROW(x.add(b), "invalid-cube", show(b) << " accepted"); MUST_THROW(x.add_recursive(b), "invalid-cube", show(b) << " accepted"); C.count("invalid_refused"); }
    else if (op < 2) { auto ci = r.chance(.5) ? x.add_recursive(s) : x.add_recursive(Sx(s));
      if (m.has(s)) REQUIRE(ci.size() == 1 && ci[0].dim == d && ci[0].ind == m.ix[s], "recursive-existing", show(s));
      else { std::set<Sx> miss; m.closure(s, miss); REQUIRE(ci.size() == miss.size(), "recursive-cells", ci.size() << " new cells reported, " << miss.size() << " missing"); std::map<std::pair<size_t, size_t>, Sx> got; for (auto &c : ci) { auto u = x.get_cube(c.dim, c.ind); REQUIRE(miss.erase(u), "recursive-cells", show(u) << " reported"); got[{c.dim, c.ind}] = u; } REQUIRE(x.get_cube(ci.back().dim, ci.back().ind) == s, "recursive-last", ""); for (auto &g : got) { size_t i = m.put(g.second); REQUIRE(i == g.first.second, "numbering", show(g.second)); } } }
    else { cell_ind c = op == 2 ? x.add(s) : x.add(Sx(s)); REQUIRE(c.dim == d, "add-dim", c.dim); if (m.has(s)) REQUIRE(c.ind == m.ix[s], "add-existing", c.ind); else if (!m.ready(s)) { REQUIRE(c.ind == bats::NO_IND, "add-missing-face", show(s) << " accepted without its faces"); C.count("rejected_missing_face"); } else { size_t i = m.put(s); REQUIRE(c.ind == i, "add-index", c.ind << " vs " << i); } }
    if (t % 6 == 0) same(C, x, m, "after step " + std::to_string(t));
  }
  same(C, x, m, "cubical complex"); if (m.ix.size() > 4) C.nontrivial();
  for (int t = 0; t < 10; t++) { Sx s = sp::random_cube(r, n, lim + 1); for (auto &v : s) v += base; const CC &cx = x; if (!m.has(s)) REQUIRE(x.find_idx(s) == bats::NO_IND && cx.find_idx(s) == bats::NO_IND, "find-nonmember", show(s)); }
  for (size_t k = 0; k <= n; k++) { auto y = x.skeleton(k); Model mk(n); for (size_t d = 0; d <= k; d++) for (auto &c : m.order[d]) mk.put(c); same(C, y, mk, "skeleton " + std::to_string(k)); }
  MUST_THROW(x.skeleton(n + 1), "skeleton-range", "skeleton above the dimension accepted"); if (m.ix.size()) MUST_THROW(x.set_dimension(n + 1), "set_dimension", "dimension changed under existing cubes");
  { CC y = x; Sx s = sp::random_cube(r, n, lim + 2); for (auto &v : s) v += base; y.add_recursive(s); same(C, x, m, "original of a modified copy"); CC z(std::move(y)); Sx q; REQUIRE(z.find_idx(s) != bats::NO_IND, "moved", ""); }
  { // list of cubes in a file, faces first
    char fn[] = "/tmp/vhcubesXXXXXX"; int fd = mkstemp(fn); REQUIRE(fd >= 0, "scratch", "mkstemp"); { std::ofstream o(fn); for (size_t k = 0; k <= n; k++) for (auto &c : m.order[k]) { for (size_t i = 0; i < c.size(); i++) o << (i ? "," : "") << c[i]; o << "\n"; } } ::close(fd); CC y(n); std::string f = fn; y.load_cubes(f); ::unlink(fn); same(C, y, m, "load_cubes"); }
}
FAMILY(toplex, 300, 3000) {   // top cubes only, against the reference closure
  Rng &r = C.rng; size_t n = r.r(1, 3); sp::Cubes ref; CC x(n); int k = r.r(1, 8); C.desc << n; for (int t = 0; t < k; t++) { Sx c; for (size_t i = 0; i < n; i++) { size_t a = r.r(0, 2); c.push_back(a); c.push_back(a + 1); } ref.add(c); x.add_recursive(c); C.desc << show(c); }
  C.nontrivial(); std::set<Sx> got; for (auto &c : x.get_cubes()) got.insert(c); REQUIRE(got == ref.all && x.ncells() == ref.all.size(), "closure", "top cubes do not generate the complex");
  Model m(n); for (size_t d = 0; d <= n; d++) for (auto &c : x.get_cubes(d)) m.put(c); same(C, x, m, "toplex complex");
  size_t g = r.r(2, 3); auto y = CC::generate_cube(g); REQUIRE(y.ncells(0) == g * g * g && y.ncells(3) == (g - 1) * (g - 1) * (g - 1) && y.ncells(1) == 3 * g * g * (g - 1) && y.ncells(2) == 3 * g * (g - 1) * (g - 1), "generate_cube", g); MUST_THROW(CC::generate_cube(r.r(0, 1)), "generate_cube-range", "");
}
FAMILY(cell, 2000, 20000) {
  Rng &r = C.rng; size_t md = r.r(0, 4); std::vector<std::vector<std::map<size_t, int>>> cells(md + 1); bats::CellComplex x; if (r.chance(.5)) x = bats::CellComplex(r.r(0, 5)); size_t declared = x.maxdim();
  size_t nv = r.r(1, 6); C.desc << "cells:"; size_t have = 0;
  // boundaries drawn as integer cycles so that the result is a complex over every field
  while (have < nv) { if (r.chance(.5)) { size_t i = x.add_vertex(); REQUIRE(i == have, "vertex-index", i); have++; } else if (r.chance(.5)) { size_t t = x.add_vertices(nv - have); REQUIRE(t == nv, "add_vertices", t); have = nv; } else { size_t i = x.add({}, {}, 0); REQUIRE(i == have, "add-0", i); have++; } }
  cells[0].resize(nv); std::vector<std::vector<orc::Q>> Z; // integer cycles of the previous dimension
  std::vector<size_t> cnt{nv};
  for (size_t k = 1; k <= md; k++) { cells[k].clear(); }
  // random interleaving of dimensions; a k-cell is attached along a difference of parallel cells, a random vertex pair, or trivially
  int steps = r.r(0, 20);
  for (int t = 0; t < steps && md; t++) { size_t k = r.r(1, md); std::map<size_t, int> b; if (cells[k - 1].empty()) { if (k > 1 && r.chance(.7)) continue; }
    else if (k == 1) { b[r.r(0, nv - 1)] += 1; b[r.r(0, nv - 1)] -= 1; int f = r.r(1, 3); for (auto &q : b) q.second *= f; }
    else { // combine pairs of cells with equal boundary
      for (int u = 0; u < 3; u++) { size_t i = r.r(0, cells[k - 1].size() - 1), j = r.r(0, cells[k - 1].size() - 1); if (cells[k - 1][i] == cells[k - 1][j]) { int f = r.r(1, 2); b[i] += f; b[j] -= f; } if (cells[k - 1][i].empty()) b[i] += r.r(1, 2); } }
    for (auto it = b.begin(); it != b.end();) it = it->second == 0 ? b.erase(it) : std::next(it);
    std::vector<std::pair<size_t, int>> l(b.begin(), b.end()); r.shuffle(l); std::vector<size_t> bi; std::vector<int> bc; for (auto &q : l) { bi.push_back(q.first); bc.push_back(q.second); }
    C.desc << " " << k << ":" << show(bi) << show(bc); size_t i = x.add(bi, bc, k); REQUIRE(i == cells[k].size(), "cell-index", i); cells[k].push_back(b); }
  size_t top = declared; for (size_t k = 0; k <= md; k++) if (!cells[k].empty()) top = std::max(top, k); if (steps > 2) C.nontrivial();
  REQUIRE(x.maxdim() == top, "maxdim", x.maxdim() << " vs " << top); size_t tot = 0; for (size_t k = 0; k <= top + 2; k++) { size_t w = k <= md ? cells[k].size() : 0; tot += w; REQUIRE(x.ncells(k) == w, "ncells", k); } REQUIRE(x.ncells() == tot, "ncells-total", "");
  for (size_t k = 1; k <= top; k++) { auto B = x.boundary_csc(k); REQUIRE(B.nrow() == x.ncells(k - 1) && B.ncol() == x.ncells(k), "boundary-shape", k); auto cm = x.boundary(k); REQUIRE(cm.nrow() == B.nrow() && cm.ncol() == B.ncol(), "boundary-shape", k);
    for (size_t j = 0; j < B.ncol(); j++) { std::map<size_t, int> g, h; for (size_t p = B.get_colptr()[j]; p < B.get_colptr()[j + 1]; p++) { REQUIRE(p == B.get_colptr()[j] || B.get_rowind()[p] > B.get_rowind()[p - 1], "boundary-order", k); g[B.get_rowind()[p]] = B.get_val()[p]; } REQUIRE(g == cells[k][j], "cell-boundary", k << "," << j); for (auto it = cm[j].nzbegin(); it != cm[j].nzend(); ++it) h[it->ind] = it->val; REQUIRE(h == cells[k][j], "cell-boundary-matrix", k << "," << j); } }
  bats::ChainComplex<CM> cc(x); REQUIRE(cc.is_valid_complex(), "chain-valid", ""); for (size_t k = 0; k <= top; k++) REQUIRE(cc.dim(k) == x.ncells(k), "chain-dim", k);
}
