// Sources of chain complexes and the reference view of reductions.
#pragma once
#include "bridge.hpp"
#include "spaces.hpp"
typedef std::map<size_t, K> SCol;                       // sparse column
typedef std::vector<SCol> SMx;
typedef bats::ChainComplex<CM> CC;
template <class V> SCol scol(const V &v, size_t n, const std::string &w) { canonical(v, n, w); SCol c; for (auto it = v.nzbegin(); it != v.nzend(); ++it) c[it->ind] = toK(it->val); return c; }
template <class M> SMx smx(const M &A, const std::string &w) { REQUIRE(A.cols().size() == A.ncol(), "shape", w << ": column count"); SMx m; for (size_t j = 0; j < A.ncol(); j++) m.push_back(scol(A[j], A.nrow(), w + " column " + std::to_string(j))); return m; }
inline void saxpy(SCol &y, const K &a, const SCol &x) { for (auto &p : x) { auto it = y.emplace(p.first, K(0)).first; it->second = it->second + a * p.second; if (it->second.zero()) y.erase(it); } }
inline SCol sapply(const SMx &A, const SCol &x) { SCol y; for (auto &p : x) saxpy(y, p.second, A[p.first]); return y; }
inline std::string show(const SCol &c) { std::ostringstream o; for (auto &p : c) o << p.first << ":" << p.second << " "; return o.str(); }
// textbook reduction: row -> column of the pivot, for the given column order; reduced columns in place
inline std::vector<size_t> textbook(SMx &A, size_t nrow) {
  std::vector<size_t> p2c(nrow, bats::NO_IND);
  for (size_t j = 0; j < A.size(); j++) while (!A[j].empty()) {
    auto pv = *A[j].rbegin(); size_t k = p2c[pv.first]; if (k == bats::NO_IND) { p2c[pv.first] = j; break; }
    saxpy(A[j], -(pv.second / A[k].rbegin()->second), A[k]); }
  return p2c;
}
struct Src {
  std::vector<DM> D;      // D[0] without rows
  std::string desc; CC C;
  void from_lib(const std::string &d) { desc = d; D.clear(); D.push_back(DM(0, C.dim(0))); for (size_t k = 1; k <= C.maxdim(); k++) D.push_back(dense(C[k], "boundary " + std::to_string(k))); }
  void from_dense() { C = CC(D.size() - 1); C[0] = CM(1, D[0].c); for (size_t k = 1; k < D.size(); k++) C[k] = sparse(D[k]); }
  std::string show() const { std::ostringstream o; o << desc; size_t t = 0; for (auto &d : D) t += d.c; if (t <= 40) for (size_t k = 1; k < D.size(); k++) o << " D" << k << "=" << D[k].str(); return o.str(); }
  size_t cells() const { size_t t = 0; for (auto &d : D) t += d.c; return t; }
};
inline K rk_(vh::Rng &r) { return randK_nz(r); }
inline K r1_(vh::Rng &r) { return K(r.chance(.5) ? 1 : -1); }
inline bats::SimplicialComplex make_sc(vh::Rng &r, const sp::Cpx &x) { bats::SimplicialComplex z; for (auto &s : sp::random_order(r, x)) z.add_directed(s); return z; }
inline bats::LightSimplicialComplex<size_t> make_lc(vh::Rng &r, const sp::Cpx &x) { bats::LightSimplicialComplex<size_t> z(x.nv(), x.dim()); for (auto &s : sp::random_order(r, x)) z.add(s); return z; }
inline bats::CubicalComplex make_cc(vh::Rng &r, std::string &d) { size_t n = r.r(1, 3); bats::CubicalComplex q(n); d = "cubes"; for (int i = r.r(1, 6); i--;) { auto c = sp::random_cube(r, n, 2); q.add_recursive(c); d += " " + vh::show(c); } return q; }
// random cell complex in which every boundary is a cycle with integer degrees (torsion possible)
inline bats::CellComplex make_cell(vh::Rng &r, std::string &d) {
  bats::CellComplex c; size_t n0 = r.r(1, 4); c.add_vertices(n0); std::ostringstream o; o << "cells v" << n0; std::vector<std::pair<size_t, size_t>> e;
  for (int i = r.r(0, 6); i--;) { size_t a = r.r(0, n0 - 1), b = r.r(0, n0 - 1); if (a == b) c.add({}, {}, 1); else if (a < b) c.add({a, b}, {-1, 1}, 1); else c.add({b, a}, {1, -1}, 1); e.push_back({a, b}); o << " " << a << "-" << b; }
  if (!e.empty()) for (int i = r.r(0, 4); i--;) { std::map<size_t, int> w; for (int t = r.r(0, 2); t--;) { size_t q = r.r(0, e.size() - 1); if (e[q].first == e[q].second) w[q] += r.r(-3, 3); else for (size_t q2 = 0; q2 < e.size(); q2++) if (q2 != q && e[q2].first == e[q].first && e[q2].second == e[q].second) { int g = r.r(1, 2); w[q] += g; w[q2] -= g; break; } }
    std::vector<size_t> ii; std::vector<int> vv; o << " f("; for (auto &p : w) if (p.second) { ii.push_back(p.first); vv.push_back(p.second); o << p.first << ":" << p.second << " "; } o << ")"; c.add(ii, vv, 2); }
  d = o.str(); return c;
}
// kind < 0: any
inline Src rand_src(vh::Rng &r, int kind = -1) {
  Src s; if (kind < 0) kind = r.r(0, 8);
  switch (kind) {
    case 0: case 1: { auto x = sp::random_space(r); s.C = CC(make_sc(r, x)); s.from_lib("trie " + sp::show(x)); break; }
    case 2: { auto x = sp::random_space(r); s.C = CC(make_lc(r, x)); s.from_lib("light " + sp::show(x)); break; }
    case 3: { std::string d; auto q = make_cc(r, d); s.C = CC(q); s.from_lib(d); break; }
    case 4: { std::string d; auto q = make_cell(r, d); s.C = CC(q); s.from_lib(d); break; }
    case 5: { auto x = sp::random(r, r.r(2, 7), r.r(1, 3), r.r(2, 9)); sp::Cpx a; for (auto &t : x.all) if (r.chance(.2)) a.add(t); if (a.all.empty()) a.add({x.all.begin()->at(0)}); s.C = CC(make_sc(r, x), make_sc(r, a)); s.from_lib("relative " + sp::show(x) + " / " + sp::show(a)); break; }
    default: { std::vector<size_t> dims; int top = r.chance(.04) ? r.r(5, 9) : r.r(0, 4); bool big = r.chance(.03); for (int k = 0; k <= top; k++) dims.push_back(FIELD == 0 ? r.r(0, 4) : r.r(0, big ? 45 : r.chance(.3) ? 9 : 5)); if (dims[0] == 0) dims[0] = 1;
      s.D = sp::random_chain<K>(r, dims, r.chance(.5) ? .3 : .7, FIELD == 0 ? r1_ : rk_); s.desc = "random chain"; s.from_dense(); }
  }
  // change the order of the basis in each dimension: any order is a legitimate chain complex
  if (r.chance(.4)) { for (size_t k = 0; k < s.D.size(); k++) { auto p = r.perm(s.D[k].c); s.D[k] = s.D[k].cols(p); if (k + 1 < s.D.size()) s.D[k + 1] = s.D[k + 1].rows(p); } s.from_dense(); s.desc += " reordered"; }
  return s;
}
// random chain map between complexes given densely (F[k]: C_k -> D_k), by solving the commutation equations
inline std::vector<DM> rand_chain_map(vh::Rng &r, const std::vector<DM> &C, const std::vector<DM> &D, size_t top) {
  std::vector<size_t> off(top + 2, 0); for (size_t k = 0; k <= top; k++) off[k + 1] = off[k] + C[k].c * D[k].c; size_t n = off[top + 1];
  std::vector<DV> rows; auto var = [&](size_t k, size_t i, size_t j) { return off[k] + i * C[k].c + j; };
  for (size_t k = 1; k <= top; k++) for (size_t i = 0; i < D[k].r; i++) for (size_t j = 0; j < C[k].c; j++) { DV e(n, K(0)); for (size_t t = 0; t < D[k].c; t++) e[var(k, t, j)] = e[var(k, t, j)] + D[k](i, t); for (size_t t = 0; t < C[k].r; t++) e[var(k - 1, i, t)] = e[var(k - 1, i, t)] - C[k](t, j); rows.push_back(e); }
  DM E(rows.size(), n); for (size_t i = 0; i < rows.size(); i++) for (size_t j = 0; j < n; j++) E(i, j) = rows[i][j];
  DM N = orc::kernel(E); DV x(n, K(0)); double p = N.c > 6 ? 3.0 / N.c : .6; for (size_t t = 0; t < N.c; t++) if (r.chance(p)) { K f = FIELD == 0 ? r1_(r) : randK_nz(r); for (size_t i = 0; i < n; i++) x[i] = x[i] + f * N(i, t); }
  std::vector<DM> F; for (size_t k = 0; k <= top; k++) { DM m(D[k].c, C[k].c); for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) m(i, j) = x[var(k, i, j)]; F.push_back(m); } return F;
}
