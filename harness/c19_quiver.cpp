// C19: barcodes of type-A quiver representations against ranks of composed linear relations.
#include "bridge.hpp"
#include <omp.h>
using namespace vh;
typedef std::map<std::pair<size_t, size_t>, size_t> Ivl;
struct Rep { std::vector<size_t> d; std::vector<char> left; std::vector<DM> A; };   // left: the arrow goes from node i+1 to node i
static std::vector<orc::Rel<K>> steps(const std::vector<char> &left, const std::vector<DM> &A) { std::vector<orc::Rel<K>> s; for (size_t i = 0; i < A.size(); i++) s.push_back(left[i] ? orc::rel_inv(A[i]) : orc::rel_map(A[i])); return s; }
static Ivl decomposition(const std::vector<size_t> &d, const std::vector<orc::Rel<K>> &step) {
  size_t n = d.size(); std::vector<std::vector<long>> rk(n, std::vector<long>(n, 0)); for (size_t a = 0; a < n; a++) { rk[a][a] = d[a]; if (!d[a]) continue; auto R = orc::rel_map(DM::I(d[a])); for (size_t b = a + 1; b < n; b++) { R = orc::compose(R, step[b - 1]); rk[a][b] = orc::rel_rank(R); if (!rk[a][b]) break; } }
  Ivl out; auto at = [&](long a, long b) { return a < 0 || b >= (long)n ? 0L : rk[a][b]; }; for (long a = 0; a < (long)n; a++) for (long b = a; b < (long)n; b++) { long m = at(a, b) - at(a - 1, b) - at(a, b + 1) + at(a - 1, b + 1); REQUIRE(m >= 0, "oracle", "negative multiplicity"); if (m) out[{a, b}] = m; } return out;
}
static std::string shi(const Ivl &v) { std::ostringstream o; for (auto &p : v) o << " " << p.second << "x[" << p.first.first << "," << p.first.second << "]"; return o.str(); }
static DM rnd_map(Rng &r, size_t rows, size_t cols) {
  switch (r.r(0, 5)) { case 0: { DM m(rows, cols); return m; } case 1: { DM m(rows, cols); auto p = r.perm(std::max(rows, cols)); for (size_t j = 0; j < cols; j++) if (p[j] < rows) m(p[j], j) = randK_nz(r); return m; } case 2: return randM_rank(r, rows, cols, r.r(0, std::min(rows, cols))); default: return randM(r, rows, cols, r.u(.2, 1)); }
}
static Rep rnd_rep(Case &C, size_t m, size_t lim) {
  Rng &r = C.rng; Rep q; int dir = r.r(0, 4), dm = r.r(0, 4); size_t fix = r.r(0, lim); for (size_t i = 0; i <= m; i++) q.d.push_back(dm == 0 ? fix : dm == 1 && r.chance(.2) ? 0 : r.r(dm == 2 ? 1 : 0, lim)); for (size_t i = 0; i < m; i++) { q.left.push_back(dir == 0 ? 0 : dir == 1 ? 1 : dir == 2 ? i % 2 : r.chance(.5)); size_t s = q.left[i] ? q.d[i + 1] : q.d[i], t = q.left[i] ? q.d[i] : q.d[i + 1]; q.A.push_back(rnd_map(r, t, s)); }
  C.desc << "dims " << vh::show(q.d); if (m <= 8) for (size_t i = 0; i < m; i++) C.desc << (q.left[i] ? " <-" : " ->") << q.A[i].str(); else { C.desc << " arrows "; size_t h = 0; for (size_t i = 0; i < m; i++) { C.desc << (q.left[i] ? "<" : ">"); h = hash_str(q.A[i].str() + std::to_string(h)); } C.desc << " " << h; } return q;
}
// conjugated interval module: every bar known by construction
static Rep known(Case &C, size_t m, Ivl &want) {
  Rng &r = C.rng; Rep q; q.d.assign(m + 1, 0); std::vector<std::pair<size_t, size_t>> bars; for (int i = FIELD && r.chance(.03) ? r.r(15, 40) : r.r(0, 6); i--;) { size_t a = r.r(0, m), b = r.r(a, std::min<size_t>(m, a + r.r(0, m))); bars.push_back({a, b}); want[{a, b}]++; } std::vector<std::vector<size_t>> at(m + 1); for (size_t i = 0; i < bars.size(); i++) for (size_t t = bars[i].first; t <= bars[i].second; t++) at[t].push_back(i); for (auto &a : at) r.shuffle(a); std::vector<DM> Bs, Bi; for (size_t t = 0; t <= m; t++) { size_t n = q.d[t] = at[t].size(); DM X = DM::I(n); for (int s = r.r(0, 2 * n); s-- && n > 1;) { size_t i = r.r(0, n - 1), j = r.r(0, n - 1); if (i == j) continue; K f = FIELD == 0 ? K(1) : randK_nz(r); for (size_t c = 0; c < n; c++) X(i, c) = X(i, c) + f * X(j, c); } Bs.push_back(X); Bi.push_back(orc::solve(X, DM::I(n))); }
  for (size_t t = 0; t < m; t++) { bool l = r.chance(.5); q.left.push_back(l); size_t s = l ? t + 1 : t, e = l ? t : t + 1; DM m0(q.d[e], q.d[s]); for (size_t i = 0; i < at[e].size(); i++) for (size_t j = 0; j < at[s].size(); j++) if (at[e][i] == at[s][j]) m0(i, j) = randK_nz(r); q.A.push_back(Bs[e] * m0 * Bi[s]); }
  C.desc << "bars" << shi(want) << " arrows "; size_t h = 0; for (size_t i = 0; i < m; i++) { C.desc << (q.left[i] ? "<" : ">"); h = hash_str(q.A[i].str() + std::to_string(h)); } C.desc << " " << h; return q;
}
typedef bats::Diagram<void *, CM> Dg;
static Dg diagram(Rng &r, const Rep &q) { Dg D; if (r.chance(.5)) { D = Dg(q.d.size(), q.A.size()); for (size_t i = 0; i < q.A.size(); i++) D.set_edge(i, q.left[i] ? i + 1 : i, q.left[i] ? i : i + 1, sparse(q.A[i])); } else { for (size_t i = 0; i < q.d.size(); i++) D.add_node(nullptr); for (size_t i = 0; i < q.A.size(); i++) { auto m = sparse(q.A[i]); if (r.chance(.5)) D.add_edge(q.left[i] ? i + 1 : i, q.left[i] ? i : i + 1, m); else D.add_edge(q.left[i] ? i + 1 : i, q.left[i] ? i : i + 1, std::move(m)); } } REQUIRE(D.nnode() == q.d.size() && D.nedge() == q.A.size(), "diagram-size", D.nnode()); return D; }
static void bars_ok(Case &C, const std::vector<bats::PersistencePair<size_t>> &bars, const Ivl &want, const std::vector<size_t> &d, size_t hd, const std::string &w) {
  Ivl got; std::set<std::pair<size_t, size_t>> st, en; for (auto &b : bars) { REQUIRE(b.dim == hd, "bar-dimension", w << " " << b.dim); REQUIRE(b.birth <= b.death && b.death < d.size(), "bar-range", w << " " << b.birth << ".." << b.death); REQUIRE(b.birth_ind < d[b.birth] && b.death_ind < d[b.death], "bar-index", w << " " << b.birth_ind << " " << b.death_ind); REQUIRE(st.insert({b.birth, b.birth_ind}).second, "bar-start-used-twice", w); REQUIRE(en.insert({b.death, b.death_ind}).second, "bar-end-used-twice", w); got[{b.birth, b.death}]++; C.count("bars"); }
  REQUIRE(got == want, "barcode", w << ":" << shi(got) << " expected" << shi(want));
}
static void form_ok(Case &C, const std::vector<CM> &E, const Rep &q, const Ivl &want, const std::string &w) {
  REQUIRE(E.size() == q.A.size(), "form-size", w << " " << E.size()); std::vector<DM> M; for (size_t i = 0; i < E.size(); i++) { DM m = dense(E[i], w); REQUIRE(m.r == q.A[i].r && m.c == q.A[i].c, "form-shape", w << " map " << i << " " << m.str()); REQUIRE(orc::rank(m) == orc::rank(q.A[i]), "form-rank", w << " map " << i << " " << m.str() << " of " << q.A[i].str()); std::vector<int> rs(m.r, 0), cs(m.c, 0); for (size_t a = 0; a < m.r; a++) for (size_t b = 0; b < m.c; b++) if (!m(a, b).zero()) { rs[a]++; cs[b]++; } for (int x : rs) REQUIRE(x <= 1, "form-not-pivot", w << " map " << i << " " << m.str()); for (int x : cs) REQUIRE(x <= 1, "form-not-pivot", w << " map " << i << " " << m.str()); M.push_back(m); }
  auto got = decomposition(q.d, steps(q.left, M)); REQUIRE(got == want, "form-not-isomorphic", w << ":" << shi(got) << " expected" << shi(want)); C.count("forms");
}
static void run(Case &C, const Rep &q, const Ivl &want) {
  using namespace bats; C.nontrivial(); Dg D = diagram(C.rng, q); size_t hd = C.rng.r(0, 5); std::vector<int> th = {1, 2, 3, 4, (int)C.rng.r(5, 9)}; C.rng.shuffle(th); th.resize(3); C.count("maps", q.A.size());
  form_ok(C, barcode_form_leftright(D), q, want, "rightward form"); form_ok(C, barcode_form_rightleft(D), q, want, "leftward form"); bars_ok(C, barcode(D, hd, flags::rightward()), want, q.d, hd, "rightward"); bars_ok(C, barcode(D, hd, flags::leftward()), want, q.d, hd, "leftward");
  for (int t : th) { omp_set_num_threads(t); std::string w = "divide and conquer, " + std::to_string(t) + " threads"; bars_ok(C, barcode(D, hd, flags::divide_conquer()), want, q.d, hd, w); bars_ok(C, barcode(D, hd), want, q.d, hd, "default " + w); form_ok(C, barcode_form_divide_conquer(D), q, want, w); if (q.A.size() >= 5 && t >= 4) C.count("divided"); } omp_set_num_threads(1);
  for (size_t i = 0; i < q.A.size(); i++) { REQUIRE(dense(D.edata[i]) == q.A[i] && D.edge_source(i) == (q.left[i] ? i + 1 : i) && D.edge_target(i) == (q.left[i] ? i : i + 1), "diagram-changed", "edge " << i); if (q.left[i]) C.count("left_arrows"); }
}
static void any(Case &C, size_t m, size_t lim) { auto q = rnd_rep(C, m, lim); run(C, q, decomposition(q.d, steps(q.left, q.A))); }
static const size_t LIMIT = FIELD == 0 ? 3 : 5;
FAMILY(tiny, 600, 9000) { any(C, C.rng.r(1, 3), LIMIT); }
FAMILY(small, 400, 6000) { any(C, C.rng.r(4, FIELD == 0 ? 6 : 9), FIELD == 0 ? 2 : 4); }
FAMILY(chain, 120, 2000) { any(C, FIELD && C.rng.chance(.025) ? C.rng.r(50, 90) : C.rng.r(10, FIELD == 0 ? 12 : 40), FIELD == 0 ? 2 : 3); }
FAMILY(wide, 60, 1000) { if (FIELD == 0) throw Skip(); if (C.rng.chance(.1)) any(C, C.rng.r(1, 8), 25); else any(C, C.rng.r(1, 6), 9); }
FAMILY(conjugated, 400, 6000) { Ivl w; size_t m = C.rng.r(1, FIELD == 0 ? 8 : C.rng.chance(.3) ? 30 : 10); auto q = known(C, m, w); REQUIRE(decomposition(q.d, steps(q.left, q.A)) == w, "oracle", "constructed bars not recovered"); run(C, q, w); }
// several homology dimensions on one edge
FAMILY(stacked, 150, 2000) {
  using namespace bats; Rng &r = C.rng; size_t m = r.r(1, 8), kd = r.r(1, 3); std::vector<Rep> R; Rep a = rnd_rep(C, m, 3); R.push_back(a); for (size_t k = 1; k < kd; k++) { Rep b; b.left = a.left; for (size_t i = 0; i <= m; i++) b.d.push_back(r.r(0, 3)); for (size_t i = 0; i < m; i++) b.A.push_back(rnd_map(r, b.left[i] ? b.d[i] : b.d[i + 1], b.left[i] ? b.d[i + 1] : b.d[i])); R.push_back(b); } C.nontrivial();
  Diagram<void *, std::vector<CM>> D(m + 1, m); for (size_t i = 0; i < m; i++) { std::vector<CM> v; for (auto &q : R) v.push_back(sparse(q.A[i])); D.set_edge(i, a.left[i] ? i + 1 : i, a.left[i] ? i : i + 1, v); }
  omp_set_num_threads(r.r(1, 8)); for (size_t k = 0; k < kd; k++) { auto E = extract_dimension(D, k); REQUIRE(E.nnode() == m + 1 && E.nedge() == m, "extract-size", k); for (size_t i = 0; i < m; i++) REQUIRE(dense(E.edata[i]) == R[k].A[i] && E.elist[i].src == (a.left[i] ? i + 1 : i) && E.elist[i].targ == (a.left[i] ? i : i + 1), "extract-edge", k); }
  auto chk = [&](const std::vector<bats::PersistencePair<size_t>> &ps, const std::string &w) { size_t n = 0; for (size_t k = 0; k < kd; k++) { std::vector<bats::PersistencePair<size_t>> mine; for (auto &p : ps) if (p.dim == k) mine.push_back(p); n += mine.size(); bars_ok(C, mine, decomposition(R[k].d, steps(R[k].left, R[k].A)), R[k].d, k, w + " dimension " + std::to_string(k)); } REQUIRE(n == ps.size(), "bar-dimension", w); };
  chk(barcode(D), "stacked default"); chk(barcode(D, flags::divide_conquer()), "stacked divide and conquer"); chk(barcode(D, flags::rightward()), "stacked rightward"); chk(barcode(D, flags::leftward()), "stacked leftward"); omp_set_num_threads(1);
}
