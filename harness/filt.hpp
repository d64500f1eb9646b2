// Filtered complexes: values, the library's filtration over each kind of complex, reference pairings.
#pragma once
#include "chains.hpp"
typedef std::vector<std::vector<double>> Vals;
typedef std::vector<std::vector<size_t>> Perms;
typedef std::tuple<size_t, size_t, size_t> Pr;           // dimension, birth cell, death cell (original indices)
static const double INF = std::numeric_limits<double>::infinity();
inline std::vector<SMx> sparse_bd(const std::vector<DM> &D) { std::vector<SMx> B; for (auto &d : D) { SMx m(d.c); for (size_t j = 0; j < d.c; j++) for (size_t i = 0; i < d.r; i++) if (!d(i, j).zero()) m[j][i] = d(i, j); B.push_back(m); } return B; }
// how values are drawn
struct Draw {
  int mode; double lo, hi;
  Draw(vh::Rng &r) : mode(r.r(0, 6)) { lo = r.chance(.4) ? -3 : 0; hi = lo + 4; }
  double operator()(vh::Rng &r) const { switch (mode) { case 0: return lo + r.r(0, 2); case 1: return lo + r.r(0, 12) / 4.0; case 2: return lo; case 3: return r.chance(.1) ? INF : lo + r.r(0, 5); case 4: return r.chance(.1) ? -INF : r.r(-2, 5); default: return lo + (hi - lo) * r.u01(); } }
};
// random monotone values for boundary matrices D: a draw per cell, raised to the faces' values
inline Vals rand_vals(vh::Rng &r, const std::vector<SMx> &B) {
  Draw d(r); bool low = r.chance(.3); Vals v(B.size());
  for (size_t k = 0; k < B.size(); k++) for (auto &c : B[k]) { double t = low && k && r.chance(.8) ? -INF : d(r); if (k) for (auto &p : c) t = std::max(t, v[k - 1][p.first]); v[k].push_back(t); }
  if (low) for (size_t k = 1; k < B.size(); k++) for (auto &t : v[k]) if (t == -INF && d.mode != 4) t = 0 > d.lo ? 0 : d.lo; // cells without faces
  for (size_t k = 1; k < B.size(); k++) for (size_t j = 0; j < B[k].size(); j++) for (auto &p : B[k][j]) v[k][j] = std::max(v[k][j], v[k - 1][p.first]);
  return v;
}
inline std::string show_vals(const Vals &v) { std::ostringstream o; size_t t = 0; for (auto &x : v) t += x.size(); if (t > 60) return " (values omitted)"; for (auto &x : v) { o << " ["; for (auto y : x) o << y << " "; o << "]"; } return o.str(); }
inline void check_perm(const Perms &p, const Vals &v, const std::string &w, bool rev = false) {
  REQUIRE(p.size() == v.size(), "perm-dimensions", w << " " << p.size() << " for " << v.size());
  for (size_t k = 0; k < p.size(); k++) { std::vector<char> s(v[k].size(), 0); REQUIRE(p[k].size() == s.size(), "perm-size", w << " dimension " << k); for (size_t i = 0; i < p[k].size(); i++) { REQUIRE(p[k][i] < s.size() && !s[p[k][i]], "perm-not-permutation", w << " dimension " << k << " " << vh::show(p[k])); s[p[k][i]] = 1; if (i) REQUIRE(rev ? v[k][p[k][i - 1]] >= v[k][p[k][i]] : v[k][p[k][i - 1]] <= v[k][p[k][i]], "perm-not-sorted", w << " dimension " << k << " position " << i); } }
}
inline SMx in_order(const SMx &B, const std::vector<size_t> &cols, const std::vector<size_t> &rows) { std::map<size_t, size_t> pos; for (size_t i = 0; i < rows.size(); i++) pos[rows[i]] = i; SMx m; for (auto j : cols) { SCol c; for (auto &p : B[j]) c[pos.at(p.first)] = p.second; m.push_back(c); } return m; }
// pairing of the textbook reduction in the order p (B[0] must be empty columns, or one row for augmented)
inline std::set<Pr> pairing(const std::vector<SMx> &B, const Perms &p, bool aug = false) {
  std::set<Pr> out; std::vector<std::vector<char>> neg, kil; for (auto &b : B) { neg.push_back(std::vector<char>(b.size(), 0)); kil.push_back(neg.back()); }
  for (size_t k = 1; k < B.size(); k++) { SMx m = in_order(B[k], p[k], p[k - 1]); auto q = textbook(m, p[k - 1].size()); for (size_t i = 0; i < q.size(); i++) if (q[i] != bats::NO_IND) { size_t b = p[k - 1][i], d = p[k][q[i]]; out.insert(Pr(k - 1, b, d)); neg[k][d] = 1; kil[k - 1][b] = 1; } }
  if (aug && !p[0].empty()) neg[0][p[0][0]] = 1;
  for (size_t k = 0; k < B.size(); k++) for (size_t i = 0; i < B[k].size(); i++) if (!neg[k][i] && !kil[k][i]) out.insert(Pr(k, i, bats::NO_IND));
  return out;
}
inline std::vector<orc::Bar> bars_of(const std::set<Pr> &s, const Vals &v) { std::vector<orc::Bar> o; for (auto &p : s) { size_t k = std::get<0>(p), d = std::get<2>(p); o.push_back({k, v[k][std::get<1>(p)], d == bats::NO_IND ? INF : v[k + 1][d]}); } std::sort(o.begin(), o.end()); return o; }
inline std::vector<orc::Bar> alive(std::vector<orc::Bar> b) { b.erase(std::remove_if(b.begin(), b.end(), [](auto &x) { return x.b == x.d; }), b.end()); std::sort(b.begin(), b.end()); return b; }
inline Perms stable(const Vals &v) { Perms p; for (auto &x : v) { std::vector<size_t> q(x.size()); for (size_t i = 0; i < q.size(); i++) q[i] = i; std::stable_sort(q.begin(), q.end(), [&](size_t a, size_t b) { return x[a] < x[b]; }); p.push_back(q); } return p; }
// all pairs of a reduced filtered object, checked one by one, against the pairing in the order it reports
template <class R> std::set<Pr> pairs_of(const R &Z, const Vals &v, const std::string &w) {
  std::set<Pr> s; std::vector<std::vector<int>> used; for (auto &x : v) used.push_back(std::vector<int>(x.size(), 0));
  for (size_t k = 0; k < v.size(); k++) for (auto &p : Z.persistence_pairs(k)) {
    std::string z = w + " dimension " + std::to_string(k); REQUIRE(p.dim == k, "pair-dim", z); REQUIRE(p.birth_ind < v[k].size(), "birth-index", z << " " << p.birth_ind); used[k][p.birth_ind]++; REQUIRE(p.birth == v[k][p.birth_ind], "birth-value", z << " cell " << p.birth_ind << ": " << p.birth << " expected " << v[k][p.birth_ind]);
    if (p.death_ind == bats::NO_IND) REQUIRE(p.death == INF, "death-value", z << " infinite bar dies at " << p.death); else { REQUIRE(k + 1 < v.size() && p.death_ind < v[k + 1].size(), "death-index", z << " " << p.death_ind); used[k + 1][p.death_ind]++; REQUIRE(p.death == v[k + 1][p.death_ind], "death-value", z << " cell " << p.death_ind << ": " << p.death << " expected " << v[k + 1][p.death_ind]); }
    REQUIRE(p.birth <= p.death, "birth-after-death", z << " " << p.birth << " > " << p.death); s.insert(Pr(k, p.birth_ind, p.death_ind)); }
  for (size_t k = 0; k < v.size(); k++) for (size_t i = 0; i < used[k].size(); i++) REQUIRE(used[k][i] <= 1, "cell-used-twice", w << " cell " << i << " of dimension " << k << " used " << used[k][i] << " times"); return s;
}
inline std::string show_pairs(const std::set<Pr> &s) { std::ostringstream o; for (auto &p : s) { o << std::get<0>(p) << ":" << std::get<1>(p) << "-"; if (std::get<2>(p) == bats::NO_IND) o << "inf "; else o << std::get<2>(p) << " "; } return o.str(); }
template <class R> void same_barcode(const R &Z, const std::vector<SMx> &B, const Vals &v, const std::string &w, bool rev = false, bool aug = false) {
  REQUIRE(Z.maxdim() + 1 == v.size(), "maxdim", w); for (size_t k = 0; k < v.size(); k++) REQUIRE(Z.dim(k) == v[k].size(), "dim", w << " dimension " << k << ": " << Z.dim(k)); REQUIRE(Z.val == v, "values", w << " stored values differ"); check_perm(Z.perm, v, w, rev);
  Perms p = Z.perm; if (rev) for (auto &x : p) std::reverse(x.begin(), x.end()); auto want = pairing(B, p, aug), got = pairs_of(Z, v, w);
  REQUIRE(bars_of(got, v) == bars_of(want, v), "barcode", w << " pairs " << show_pairs(got) << "expected " << show_pairs(want)); REQUIRE(got == want, "pairing", w << " pairs " << show_pairs(got) << "expected " << show_pairs(want));
}
// reduction invariants of stored matrices against the boundary in the stored order; L[j] are the maps in the order of RC.R
template <class RCT> void invariants(const RCT &RC, const std::vector<SMx> &L, const std::vector<size_t> &rows, const std::string &w, int deg = -1) {
  REQUIRE(RC.R.size() >= L.size() && RC.U.size() >= L.size(), "stored-dimensions", w);
  for (size_t j = 0; j < L.size(); j++) { std::string z = w + " map " + std::to_string(j); SMx U = smx(RC.U[j], z + " U"), R = smx(RC.R[j], z + " R"); REQUIRE(U.size() == L[j].size() && RC.U[j].nrow() == L[j].size(), "U-shape", z << " " << RC.U[j].nrow() << "x" << U.size() << " expected " << L[j].size()); REQUIRE(R.size() == L[j].size() && RC.R[j].nrow() == rows[j], "R-shape", z << " " << RC.R[j].nrow() << "x" << R.size() << " expected " << rows[j] << "x" << L[j].size());
    std::map<size_t, size_t> piv; for (size_t c = 0; c < U.size(); c++) { REQUIRE(!U[c].empty() && U[c].rbegin()->first == c, "U-not-upper-triangular", z << " column " << c << ": " << show(U[c])); SCol y = sapply(L[j], U[c]); REQUIRE(y == R[c], "BU!=R", z << " column " << c << ": B U = " << show(y) << " R = " << show(R[c])); if (!R[c].empty()) REQUIRE(piv.emplace(R[c].rbegin()->first, c).second, "not-reduced", z << " column " << c); }
    REQUIRE(RC.p2c[j].size() == rows[j], "p2c-size", z << " " << RC.p2c[j].size() << " expected " << rows[j]); for (size_t i = 0; i < rows[j]; i++) REQUIRE(RC.p2c[j][i] == (piv.count(i) ? piv[i] : bats::NO_IND), "p2c", z << " row " << i); }
  // classes: the columns that are cycles and not pivots of the map into them
  for (size_t j = deg == 1 ? 1 : 0; j < L.size(); j++) { std::vector<size_t> want; size_t in = deg == 1 ? j - 1 : j + 1; std::set<size_t> pv; if (in < L.size()) for (auto &q : smx(RC.R[in], w)) if (!q.empty()) pv.insert(q.rbegin()->first); for (size_t c = 0; c < L[j].size(); c++) if (RC.R[j][c].nnz() == 0 && !pv.count(c)) want.push_back(c); REQUIRE(RC.I[j] == want, "class-indices", w << " map " << j << " " << vh::show(RC.I[j]) << " expected " << vh::show(want)); }
}
inline SMx transpose(const SMx &m, size_t rows) { SMx t(rows); for (size_t j = 0; j < m.size(); j++) for (auto &p : m[j]) t[p.first][j] = p.second; return t; }
// maps of a filtered complex in the order p: homology has a 1-row zero map at the bottom
inline void chain_maps(const std::vector<SMx> &B, const Perms &p, std::vector<SMx> &L, std::vector<size_t> &rows) { L.clear(); rows.clear(); for (size_t k = 0; k < B.size(); k++) { L.push_back(k ? in_order(B[k], p[k], p[k - 1]) : SMx(B[0].size())); rows.push_back(k ? p[k - 1].size() : 1); } }
inline void dg_maps(const std::vector<SMx> &B, const Perms &p, int deg, bool aug, std::vector<SMx> &L, std::vector<size_t> &rows) {
  L.clear(); rows.clear(); size_t md = B.size() - 1, n0 = p[0].size(); SMx one(n0); for (auto &c : one) c[0] = K(1);
  if (deg == -1) { L.push_back(aug ? one : SMx(n0)); rows.push_back(aug ? 1 : 0); for (size_t k = 1; k <= md; k++) { L.push_back(in_order(B[k], p[k], p[k - 1])); rows.push_back(p[k - 1].size()); } }
  else { L.push_back(aug ? transpose(one, 1) : SMx()); rows.push_back(n0); for (size_t k = 1; k <= md; k++) { L.push_back(transpose(in_order(B[k], p[k], p[k - 1]), p[k - 1].size())); rows.push_back(p[k].size()); } L.push_back(SMx(p[md].size())); rows.push_back(0); }
}
