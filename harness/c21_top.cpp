// C21: metrics, neighbourhoods, landmarks, covers, nerves, Dowker and witness constructions, data.
#include "bridge.hpp"
#include "spaces.hpp"
#include <topology/rips_cover.hpp>
#include <topology/dowker_cover.hpp>
#include <topology/extras.hpp>
#include <topology/spherical.hpp>
#include <topology/density.hpp>
#include <omp.h>
using namespace vh;
typedef bats::SimplicialComplex SC;
typedef bats::LightSimplicialComplex<size_t> LC;
typedef std::vector<std::vector<double>> Pts;
typedef std::map<sp::Sx, double> Valued;
static const double INFV = std::numeric_limits<double>::infinity();
static const char *MN[] = {"euclidean", "L1", "Linf", "cosine", "rp-cosine", "angle", "rp-angle"};
#define METRIC(K, CALL) switch (K) { case 0: { bats::Euclidean m; CALL; break; } case 1: { bats::L1Dist m; CALL; break; } case 2: { bats::LInfDist m; CALL; break; } \
  case 3: { bats::CosineDist m; CALL; break; } case 4: { bats::RPCosineDist m; CALL; break; } case 5: { bats::AngleDist m; CALL; break; } default: { bats::RPAngleDist m; CALL; } }
static double ref_dist(int m, const std::vector<double> &x, const std::vector<double> &y) {
  long double s = 0, p = 0, a = 0, b = 0;
  for (size_t i = 0; i < x.size(); i++) { long double d = (long double)x[i] - y[i]; if (m == 0) s += d * d; else if (m == 1) s += std::fabs(d); else s = std::max(s, std::fabs(d)); p += (long double)x[i] * y[i]; a += (long double)x[i] * x[i]; b += (long double)y[i] * y[i]; }
  if (m == 0) return std::sqrt(s); if (m < 3) return s;
  long double c = p / std::sqrt(a * b); if (c > 1) c = 1; if (c < -1) c = -1;
  switch (m) { case 3: return 1 - c; case 4: return 1 - std::fabs(c); case 5: return std::acos(c); default: return std::acos(std::fabs(c)); }
}
template <class T> bats::DataSet<T> data(const Pts &p, size_t d) { bats::Matrix<T> m(p.size(), d); for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < d; j++) m(i, j) = (T)p[i][j]; return bats::DataSet<T>(m); }
template <class T> bats::Matrix<T> mat(const Pts &p, size_t c) { bats::Matrix<T> m(p.size(), c); for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < c; j++) m(i, j) = (T)p[i][j]; return m; }
static Pts points(Rng &r, size_t n, size_t d, int kind) {
  Pts p; for (size_t i = 0; i < n; i++) { std::vector<double> x; for (size_t j = 0; j < d; j++) x.push_back(kind == 0 ? r.r(0, 2) : kind == 1 ? r.r(-6, 6) : kind == 2 ? r.u(-1, 1) : r.r(0, 8) / 4.0);
    if (kind != 2 && i && r.chance(.15)) x = p[r.r(0, i - 1)]; if (kind == 3 && i && r.chance(.3)) { double f = r.pick(std::vector<double>{-1, -.3, .1, 3, -7}); x = p[r.r(0, i - 1)]; for (auto &v : x) v *= f; }
    bool z = true; for (auto v : x) z = z && v == 0; if (z) x[r.r(0, d - 1)] = r.pick(std::vector<double>{1, -2, .1}); p.push_back(x); }
  return p;
}
static void threads(Rng &r) { omp_set_num_threads(r.pick(std::vector<int>{1, 1, 2, 4, 8})); }
static void log(Case &C, const Pts &p) { for (auto &x : p) C.desc << " " << show(x); }
// ---- metrics
template <class T, class M> void metric(const M &m, int k, const Pts &p, const Pts &q, size_t d, bool single) {
  auto X = data<T>(p, d), Y = data<T>(q, d); double tol = single ? (k < 5 ? 1e-5 : 2e-3) : (k < 5 ? 1e-12 : 1e-7); Pts px, qx;
  for (auto &x : p) { px.push_back({}); for (auto v : x) px.back().push_back((T)v); } for (auto &x : q) { qx.push_back({}); for (auto v : x) qx.back().push_back((T)v); }
  auto ok = [&](double got, const std::vector<double> &x, const std::vector<double> &y, const char *w) { double want = ref_dist(k, x, y); REQUIRE(std::isfinite(got) && got >= 0 && std::fabs(got - want) <= tol * (1 + std::fabs(want)), "distance", MN[k] << " " << w << " of " << show(x) << " and " << show(y) << " is " << got << " expected " << want); };
  auto D = m(X, Y); REQUIRE(D.nrow() == p.size() && D.ncol() == q.size(), "shape", MN[k] << " " << D.nrow() << "x" << D.ncol());
  for (size_t i = 0; i < p.size(); i++) { auto row = m(X[i], Y); REQUIRE(row.size() == q.size(), "shape", MN[k] << " batch " << row.size()); for (size_t j = 0; j < q.size(); j++) { T s = m(X[i], Y[j]), t = m.dist(X[i], Y[j]); ok(s, px[i], qx[j], "distance"); REQUIRE(s == t && s == row[j] && s == D(i, j), "forms-differ", MN[k] << " " << s << " " << t << " " << row[j] << " " << D(i, j)); } }
  auto S = m(X); REQUIRE(S.nrow() == p.size() && S.ncol() == p.size(), "shape", MN[k] << " pairwise"); T enc = std::numeric_limits<T>::max();
  for (size_t i = 0; i < p.size(); i++) { T big = 0; for (size_t j = 0; j < p.size(); j++) { ok(S(i, j), px[i], px[j], "pairwise"); REQUIRE(S(i, j) == m(X[i], X[j]), "forms-differ", MN[k] << " pairwise"); big = std::max(big, S(i, j)); } enc = std::min(enc, big); }
  REQUIRE(bats::enclosing_radius(S) == enc, "enclosing-radius", MN[k] << " " << bats::enclosing_radius(S) << " expected " << enc);
}
FAMILY(metrics, 600, 12000) { Rng &r = C.rng; size_t d = r.r(1, 4); int k = r.r(0, 6), kind = r.r(0, 3); size_t np = r.chance(.03) ? 60 : 7; if (r.chance(.03)) d = r.r(8, 50); auto p = points(r, r.r(0, np), d, kind), q = points(r, r.r(0, np - 2), d, kind); if (p.size() && r.chance(.5)) { auto x = p[0]; double f = r.pick(std::vector<double>{-1, -2.7, .33, 1}); for (auto &v : x) v *= f; q.push_back(x); } bool f = r.chance(.3); C.desc << MN[k] << (f ? " float" : ""); log(C, p); C.desc << " |"; log(C, q); C.nontrivial(); C.count("distances", p.size() * (p.size() + q.size())); if (f) METRIC(k, (metric<float>(m, k, p, q, d, true))) else METRIC(k, (metric<double>(m, k, p, q, d, false))) }
// ---- neighbourhoods
template <class T> void nearest(const std::vector<size_t> &got, const std::vector<T> &d, size_t k, const std::string &w) {
  size_t want = std::min(k, d.size()); REQUIRE(got.size() == want, "nearest-count", w << " " << got.size() << " of " << want); std::set<size_t> s; T last = 0; for (size_t i = 0; i < got.size(); i++) { REQUIRE(got[i] < d.size() && s.insert(got[i]).second, "nearest-index", w << " " << show(got)); REQUIRE(i == 0 || d[got[i]] >= last, "nearest-order", w << " " << show(got)); last = d[got[i]]; }
  if (want) for (size_t i = 0; i < d.size(); i++) REQUIRE(s.count(i) || d[i] >= last, "nearest-missed", w << " index " << i);
}
template <class T> void within(const std::vector<size_t> &got, const std::vector<T> &d, T rad, const std::string &w, bool closed = false) {
  REQUIRE(std::is_sorted(got.begin(), got.end()) && std::set<size_t>(got.begin(), got.end()).size() == got.size(), "radius-order", w << " " << show(got)); std::set<size_t> s(got.begin(), got.end());
  for (size_t i = 0; i < d.size(); i++) REQUIRE(s.count(i) == (closed ? d[i] <= rad : d[i] < rad), "radius", w << " index " << i << " at " << d[i] << " radius " << rad); REQUIRE(got.empty() || got.back() < d.size(), "radius-index", w);
}
template <class M> void neighbours(Case &C, const M &m, const Pts &p, const Pts &q, size_t d, size_t k, double rad) {
  auto X = data<double>(p, d), Y = data<double>(q, d); threads(C.rng); auto nk = bats::neighborhoods(X, Y, m, k); auto nr = bats::neighborhoods(X, Y, m, rad); omp_set_num_threads(1);
  REQUIRE(nk.size() == p.size() && nr.size() == p.size(), "lists", "nearest " << nk.size() << " radius " << nr.size() << " for " << p.size() << " points");
  for (size_t i = 0; i < p.size(); i++) { auto di = m(X[i], Y); nearest(nk[i], di, k, "lists"); within(nr[i], di, rad, "lists"); nearest(bats::neighborhood(X[i], Y, m, k), di, k, "single"); within(bats::neighborhood(X[i], Y, m, rad), di, rad, "single"); }
  auto D = m(X, Y); auto nb = bats::neighborhoods(D, rad); REQUIRE(nb.size() == p.size(), "lists", "matrix"); for (size_t i = 0; i < p.size(); i++) { std::vector<double> di; for (size_t j = 0; j < q.size(); j++) di.push_back(D(i, j)); within(std::vector<size_t>(nb[i].begin(), nb[i].end()), di, rad, "matrix", true); }
  auto n0 = bats::neighborhoods(D); for (size_t i = 0; i < p.size(); i++) { std::vector<double> di; for (size_t j = 0; j < q.size(); j++) di.push_back(D(i, j)); within(std::vector<size_t>(n0[i].begin(), n0[i].end()), di, 0.0, "matrix at zero", true); }
  if (p.size() > k) { auto kd = bats::kdist(X, m, k); REQUIRE(kd.size() == p.size(), "kdist", kd.size()); auto S = m(X); for (size_t i = 0; i < p.size(); i++) { std::vector<double> v; for (size_t j = 0; j < p.size(); j++) v.push_back(S(j, i)); std::sort(v.begin(), v.end()); REQUIRE(kd[i] == v[k], "kdist", "point " << i << " " << kd[i] << " expected " << v[k]); } }
  // covers by landmarks: X points, Y landmarks
  auto lc = bats::landmark_cover(X, Y, m, k); REQUIRE(lc.size() == q.size(), "cover-size", lc.size()); for (size_t i = 0; i < p.size(); i++) { auto di = m(X[i], Y); std::vector<size_t> in, out; for (size_t j = 0; j < q.size(); j++) (lc[j].count(i) ? in : out).push_back(j); REQUIRE(in.size() == std::min(k, q.size()), "landmark-cover", "point " << i << " in " << in.size() << " sets of " << k); for (auto a : in) for (auto b : out) REQUIRE(di[a] <= di[b], "landmark-cover", "point " << i << " is in " << a << " not in nearer " << b); }
  for (auto &s : lc) REQUIRE(s.empty() || *s.rbegin() < p.size(), "cover-index", "");
  if (q.size()) { double eps = C.rng.chance(.3) ? 0 : C.rng.r(0, 8) / 4.0 + .001; auto ec = bats::landmark_eps_cover(X, Y, m, eps); REQUIRE(ec.size() == q.size(), "cover-size", ec.size()); for (size_t i = 0; i < p.size(); i++) { auto di = m(X[i], Y); double mn = *std::min_element(di.begin(), di.end()); for (size_t j = 0; j < q.size(); j++) { if (di[j] != mn && std::fabs(di[j] - mn - eps) < 1e-9) continue; REQUIRE(ec[j].count(i) == (di[j] <= mn + eps), "eps-cover", "point " << i << " landmark " << j << " at " << di[j] << " nearest " << mn << " eps " << eps); } } }
  C.count("queries", 4 * p.size());
}
FAMILY(neighbourhoods, 500, 10000) { Rng &r = C.rng; size_t d = r.chance(.04) ? r.r(4, 20) : r.r(1, 3); int k = r.r(0, 6), kind = r.r(0, 3); size_t np = r.chance(.03) ? 90 : 9; auto p = points(r, r.r(0, np), d, kind), q = r.chance(.3) ? p : points(r, r.r(0, np), d, kind); size_t kk = r.chance(.15) ? r.r(0, 12) : std::min<size_t>(q.size(), r.r(0, 5)); double rad = r.chance(.2) ? r.pick(std::vector<double>{0, 1, 2, INFV, -1}) : r.u(0, k < 3 ? 5 : 2); C.desc << MN[k] << " k=" << kk << " r=" << rad; log(C, p); C.desc << " |"; log(C, q); C.nontrivial(); METRIC(k, (neighbours(C, m, p, q, d, kk, rad))) }
// ---- landmarks
template <class M> void landmarks(Case &C, const M &m, const Pts &p, size_t d, bool generic) {
  auto X = data<double>(p, d); size_t n = p.size(), i0 = C.rng.r(0, n - 1), k = C.rng.r(1, n); auto S = m(X); C.desc << " seed " << i0 << " k=" << k;
  auto seq = [&](const std::vector<size_t> &in, const std::vector<double> &hd, size_t want, const std::string &w) {
    REQUIRE(in.size() == want && hd.size() == want, "landmark-count", w << " " << in.size() << " with " << hd.size() << " radii of " << want); REQUIRE(in[0] == i0, "landmark-seed", w << " " << in[0]); std::set<size_t> s; std::vector<double> dd(n, INFV);
    for (size_t j = 0; j < want; j++) { REQUIRE(in[j] < n && s.insert(in[j]).second, "landmark-repeated", w << " " << show(in)); double far = *std::max_element(dd.begin(), dd.end()); if (j) REQUIRE(dd[in[j]] == far, "not-farthest", w << " step " << j << " of " << show(in) << ": " << dd[in[j]] << " farthest " << far); for (size_t i = 0; i < n; i++) dd[i] = std::min(dd[i], S(in[j], i)); double h = *std::max_element(dd.begin(), dd.end()); if (j + 1 == n) h = hd[j] <= 1e-7 ? hd[j] : 0; REQUIRE(hd[j] == h, "radius-of-sequence", w << " step " << j << ": " << hd[j] << " covering radius " << h); } };
  auto [a, ha] = bats::greedy_landmarks_hausdorff(X, m, i0); seq(a, ha, n, "full"); auto [b, hb] = bats::greedy_landmarks_hausdorff(X, m, i0, k); seq(b, hb, k, "first k"); auto [c, hc] = bats::greedy_landmarks_hausdorff(S, i0); seq(c, hc, n, "distances");
  auto rows = [&](const bats::DataSet<double> &L, std::set<size_t> in, const std::string &w) { REQUIRE(L.size() == in.size() && L.dim() == d, "landmark-set-size", w << " " << L.size() << " of " << in.size()); size_t j = 0; for (auto i : in) { for (size_t t = 0; t < d; t++) REQUIRE(L(j, t) == p[i][t], "landmark-rows", w << " row " << j); j++; } };
  auto G = bats::greedy_landmarks(X, k, m, i0); REQUIRE(G.size() == k && G.dim() == d, "landmark-set-size", "greedy " << G.size()); rows(G, std::set<size_t>(b.begin(), b.end()), "greedy");
  double rad = C.rng.chance(.2) ? 0 : C.rng.chance(.3) ? ha[C.rng.r(0, n - 1)] : C.rng.u(0, ha[0] * 1.2); auto H = bats::hausdorff_landmarks(X, rad, m, i0); auto D = m(H, X), E = m(H); for (size_t i = 0; i < n; i++) { double mn = INFV; for (size_t j = 0; j < H.size(); j++) mn = std::min(mn, D(j, i)); REQUIRE(mn <= rad, "hausdorff-radius", "point " << i << " at " << mn << " radius " << rad); } if (n > 1) for (size_t i = 0; i < H.size(); i++) for (size_t j = 0; j < i; j++) REQUIRE(E(i, j) > rad, "hausdorff-too-many", E(i, j) << " within " << rad);
  if (generic) { size_t j = 0; while (ha[j] > rad) j++; rows(H, std::set<size_t>(a.begin(), a.begin() + j + 1), "hausdorff"); size_t kc = C.rng.r(0, n - 1), steps = kc ? kc : d + 1; if (steps < n) { size_t ce = bats::approx_center(X, m, kc, i0); auto val = [&](size_t i) { double t = 0; for (size_t s = 0; s <= steps; s++) t = std::max(t, S(a[s], i)); return t; }; REQUIRE(ce < n, "centre", ce); for (size_t i = 0; i < n; i++) REQUIRE(val(ce) <= val(i), "centre", "point " << ce << " at " << val(ce) << " but " << i << " at " << val(i) << " steps " << steps); } }
  auto R = bats::random_landmarks(X, k); REQUIRE(R.size() == k, "random-landmarks", R.size()); for (size_t i = 0, j = 0; i < k; i++) { while (j < n) { bool eq = true; for (size_t t = 0; t < d; t++) eq = eq && R(i, t) == p[j][t]; j++; if (eq) goto found; } REQUIRE(false, "random-landmarks", "row " << i << " is no further point of the data"); found:; }
  C.count("sequences", 3);
}
FAMILY(landmark_sequences, 500, 10000) { Rng &r = C.rng; size_t d = r.chance(.04) ? r.r(4, 20) : r.r(1, 3), n = r.r(1, r.chance(.03) ? 70 : 10); int k = r.r(0, 2), kind = r.r(0, 3); auto p = points(r, n, d, kind); if (kind != 2) { /* lattice points: exact distances, ties and duplicates */ } C.desc << MN[k]; log(C, p); C.nontrivial(); METRIC(k, (landmarks(C, m, p, d, kind == 2))) }
// ---- covers
FAMILY(interval_covers, 600, 12000) {
  Rng &r = C.rng; bool big = r.chance(.03); size_t n = r.r(1, big ? 300 : 14), ns = r.r(1, big ? 70 : 8); std::vector<double> x; double base = r.chance(.3) ? -7 : 0; for (size_t i = 0; i < n; i++) x.push_back(base + (r.chance(.5) ? r.r(0, 12) : r.u(0, 12))); if (r.chance(.1)) for (auto &v : x) v = x[0]; C.desc << "sets " << ns << " of " << show(x); C.nontrivial();
  double lo = *std::min_element(x.begin(), x.end()), hi = *std::max_element(x.begin(), x.end()), L = hi - lo;
  auto chk = [&](const bats::Cover &cv, const std::string &w) { REQUIRE(cv.size() == ns, "cover-size", w << " " << cv.size()); std::vector<int> times(n, 0); for (size_t j = 0; j < ns; j++) for (auto i : cv[j]) { REQUIRE(i < n, "cover-index", w); times[i]++; }
    for (size_t i = 0; i < n; i++) { REQUIRE(times[i] >= 1, "not-covered", w << " point " << i << " of value " << x[i]); if (L == 0) continue; for (size_t j = 0; j < ns; j++) { double a = lo + j * L / ns, b = lo + (j + 2) * L / ns; if (std::fabs(x[i] - a) < 1e-9 || std::fabs(x[i] - b) < 1e-9) continue; REQUIRE(cv[j].count(i) == (x[i] > a && x[i] < b), "interval", w << " point " << x[i] << " set " << j << " over " << a << "," << b); } } };
  chk(bats::uniform_interval_cover(x, ns), "double"); std::vector<int> xi; for (auto v : x) xi.push_back((int)std::floor(v)); for (size_t i = 0; i < n; i++) x[i] = xi[i]; lo = *std::min_element(x.begin(), x.end()); L = *std::max_element(x.begin(), x.end()) - lo; chk(bats::uniform_interval_cover(xi, ns), "integer"); C.count("covers", 2);
}
static bats::Cover random_cover(Rng &r, size_t sets, size_t pts) { bats::Cover c(sets); double p = r.pick(std::vector<double>{.1, .3, .6}); for (auto &s : c) for (size_t i = 0; i < pts; i++) if (r.chance(p)) s.insert(i); if (sets > 1 && r.chance(.2)) c[0] = c[1]; return c; }
static void log(Case &C, const bats::Cover &c) { for (auto &s : c) C.desc << " " << show(s); }
FAMILY(covers, 500, 10000) {
  Rng &r = C.rng; bool big = r.chance(.03); size_t n = r.r(1, big ? 100 : 10), ns = big ? 40 : 6; auto a = random_cover(r, r.r(0, ns), n), b = random_cover(r, r.r(0, ns), n); log(C, a); C.desc << " |"; log(C, b); C.nontrivial();
  auto [c, f, g] = bats::bivariate_cover(a, b); REQUIRE(c.size() == f.size() && c.size() == g.size(), "bivariate-size", c.size()); size_t k = 0; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) { std::set<size_t> s; for (auto x : a[i]) if (b[j].count(x)) s.insert(x); if (s.empty()) continue; REQUIRE(k < c.size() && c[k] == s && f[k] == i && g[k] == j, "bivariate", "pair " << i << "," << j); k++; } REQUIRE(k == c.size(), "bivariate", "extra sets");
  // data subsets
  size_t d = r.chance(.04) ? r.r(4, 20) : r.r(1, 3); auto p = points(r, n, d, 2); auto X = data<double>(p, d); std::set<size_t> in; for (size_t i = 0; i < n; i++) if (r.chance(.5)) in.insert(i); auto Y = bats::get_subset(X, in); auto Y2 = X[in]; std::vector<size_t> ord(in.begin(), in.end()); r.shuffle(ord); auto Y3 = X[ord]; REQUIRE(Y.size() == in.size() && Y2.size() == in.size() && Y3.size() == in.size() && Y.dim() == d, "subset-size", Y.size()); size_t t = 0; for (auto i : in) { for (size_t j = 0; j < d; j++) REQUIRE(Y(t, j) == p[i][j] && Y2(t, j) == p[i][j] && Y3(t, j) == p[ord[t]][j], "subset", "row " << t); t++; }
  size_t co = r.r(0, d - 1); auto pr = bats::coordinate_projection(X, co); REQUIRE(pr.size() == n, "projection", pr.size()); for (size_t i = 0; i < n; i++) REQUIRE(pr[i] == p[i][co], "projection", i);
  auto pos = [&](const std::set<size_t> &s, const std::set<size_t> &u) { std::vector<size_t> m; for (auto x : s) m.push_back(std::distance(u.begin(), u.find(x))); return m; };
  if (in.size()) { std::set<size_t> sub; for (auto x : in) if (r.chance(.5)) sub.insert(x); REQUIRE(bats::vertex_inclusion_map(sub, in) == pos(sub, in), "inclusion-map", show(sub)); }
  for (int un = 0; un < 2; un++) { auto D = un ? bats::linear_subset_union_diagram(a) : bats::linear_cover_intersection_diagram(a); std::string w = un ? "union" : "intersection"; size_t s = a.size(); REQUIRE(D.nnode() == (s ? 2 * s - 1 : 0) && D.nedge() == (s ? 2 * s - 2 : 0), "diagram-shape", w << " " << D.nnode() << " " << D.nedge()); std::set<std::pair<size_t, size_t>> seen;
    for (size_t i = 0; i < D.nnode(); i++) { std::set<size_t> want; if (i % 2 == 0) want = a[i / 2]; else if (un) { want = a[i / 2]; want.insert(a[i / 2 + 1].begin(), a[i / 2 + 1].end()); } else for (auto x : a[i / 2]) if (a[i / 2 + 1].count(x)) want.insert(x); REQUIRE(D.node[i] == want, "diagram-node", w << " " << i); }
    for (size_t e = 0; e < D.nedge(); e++) { size_t u = D.elist[e].src, v = D.elist[e].targ; size_t odd = u % 2 ? u : v, ev = u % 2 ? v : u; REQUIRE(u < D.nnode() && v < D.nnode() && odd % 2 == 1 && ev % 2 == 0 && (odd + 1 == ev || ev + 1 == odd) && (un ? v == odd : u == odd), "diagram-edge", w << " edge " << e << " from " << u << " to " << v); REQUIRE(seen.insert({u, v}).second, "diagram-edge", w << " repeated"); REQUIRE(D.edata[e] == pos(D.node[u], D.node[v]), "diagram-map", w << " edge " << e << " " << show(D.edata[e])); } }
  C.count("diagrams", 2);
}
// ---- complexes
template <class X> void cells_are(const X &x, const std::set<sp::Sx> &want, const std::string &w) {
  std::set<sp::Sx> got; for (size_t k = 0; k <= x.maxdim() && x.maxdim() != (size_t)-1; k++) for (size_t i = 0; i < x.ncells(k); i++) { auto s = x.get_cell(k, i); REQUIRE(s.size() == k + 1 && std::is_sorted(s.begin(), s.end()), "cell-shape", w << " " << show(s)); REQUIRE(want.count(s), "extra-simplex", w << " " << show(s)); REQUIRE(got.insert(s).second, "cell-twice", w << " " << show(s)); }
  for (auto &s : want) REQUIRE(got.count(s), "missing-simplex", w << " " << show(s));
}
static std::set<sp::Sx> keys(const Valued &v) { std::set<sp::Sx> s; for (auto &p : v) s.insert(p.first); return s; }
static std::set<sp::Sx> nerve(const bats::Cover &c, size_t dmax) {
  std::set<sp::Sx> s; std::function<void(sp::Sx, const std::set<size_t> &)> go = [&](sp::Sx q, const std::set<size_t> &common) { s.insert(q); if (q.size() == dmax + 1) return; for (size_t i = q.back() + 1; i < c.size(); i++) { std::set<size_t> both; for (auto x : common) if (c[i].count(x)) both.insert(x); if (both.empty()) continue; q.push_back(i); go(q, both); q.pop_back(); } };
  for (size_t i = 0; i < c.size(); i++) go({i}, c[i]); return s;
}
FAMILY(nerves, 500, 10000) { Rng &r = C.rng; bool big = r.chance(.03); auto c = random_cover(r, r.r(0, big ? 30 : 8), r.r(1, big ? 120 : 9)); size_t dm = r.r(0, c.size() > 12 ? 2 : 5); C.desc << "dmax " << dm; log(C, c); C.nontrivial(); auto N = bats::Nerve(c, dm); cells_are(N, nerve(c, dm), "nerve"); C.count("nerve-cells", N.ncells()); }
typedef std::map<std::pair<size_t, size_t>, double> Edges;
static Valued cliques(size_t n, size_t dmax, const Edges &e) {
  Valued v; std::vector<sp::Sx> cur; for (size_t i = 0; i < n; i++) { v[{i}] = 0; cur.push_back({i}); }
  for (size_t d = 1; d <= dmax; d++) { std::vector<sp::Sx> nx; for (auto &s : cur) for (size_t k = s.back() + 1; k < n; k++) { double t = v[s]; bool ok = true; for (auto u : s) { auto it = e.find({u, k}); if (it == e.end()) { ok = false; break; } t = std::max(t, it->second); } if (ok) { auto q = s; q.push_back(k); v[q] = t; nx.push_back(q); } } cur = nx; }
  return v;
}
template <class T, class X> void filtration_is(Case &C, const bats::Filtration<T, X> &F, const Valued &want, const std::string &w) {
  const X &x = F.complex(); cells_are(x, keys(want), w); for (size_t k = 0; k <= x.maxdim() && x.maxdim() != (size_t)-1; k++) for (size_t i = 0; i < x.ncells(k); i++) { REQUIRE(k < F.vals().size() && i < F.vals(k).size(), "values-size", w); REQUIRE(F.vals(k)[i] == want.at(x.get_cell(k, i)), "value", w << " " << show(x.get_cell(k, i)) << " has " << F.vals(k)[i] << " expected " << want.at(x.get_cell(k, i))); } C.count("filtrations");
}
template <class M> void dowker(Case &C, const M &m, const Pts &px, const Pts &pl, size_t d) {
  Rng &r = C.rng; auto X = data<double>(px, d), L = data<double>(pl, d); size_t nx = px.size(), nl = pl.size(), dm = r.r(0, 4); threads(r); auto D = m(L, X);
  auto param = [&](auto f) { Edges e; for (size_t i = 0; i < nl; i++) for (size_t j = i + 1; j < nl; j++) { double t = std::numeric_limits<double>::max(); for (size_t k = 0; k < nx; k++) t = std::min(t, std::max(f(i, k), f(j, k))); e[{i, j}] = t; } return e; };
  auto Rd = param([&](size_t i, size_t k) { return (double)D(i, k); }); auto R = bats::dowker_edge_param(D); REQUIRE(R.nrow() == nl && R.ncol() == nl, "shape", "parameters"); for (auto &p : Rd) { REQUIRE(R(p.first.first, p.first.second) == p.second && R(p.first.second, p.first.first) == p.second, "dowker-parameter", p.first.first << "," << p.first.second << ": " << R(p.first.first, p.first.second) << " expected " << p.second); REQUIRE(bats::dowker_edge_param(D, p.first.first, p.first.second) == p.second, "dowker-parameter", "single"); }
  // m_nu: the nu-th smallest distance of each point to a landmark
  size_t nu = r.r(0, std::min<size_t>(3, nl)); C.desc << " nu " << nu << " dmax " << dm; std::vector<double> mm(nx, 0); for (size_t k = 0; k < nx && nu; k++) { std::vector<double> v; for (size_t i = 0; i < nl; i++) v.push_back(D(i, k)); std::sort(v.begin(), v.end()); mm[k] = v[nu - 1]; } auto gm = bats::get_m(D, nu); REQUIRE(gm.size() == nx, "m-size", gm.size()); for (size_t k = 0; k < nx; k++) REQUIRE(gm[k] == mm[k], "m", "nu " << nu << " point " << k << ": " << gm[k] << " expected " << mm[k]);
  auto sh = [&](size_t i, size_t k) { return std::max(0.0, (double)D(i, k) - mm[k]); }; auto Rw = param(sh); auto W = bats::witness_edge_param(X, L, m, nu); REQUIRE(W.nrow() == nl && W.ncol() == nl, "shape", "witness parameters"); for (auto &p : Rw) REQUIRE(W(p.first.first, p.first.second) == p.second && W(p.first.second, p.first.first) == p.second, "witness-parameter", p.first.first << "," << p.first.second << ": " << W(p.first.first, p.first.second) << " expected " << p.second);
  // a threshold away from every value it is compared with, or infinite
  double rm = INFV; if (r.chance(.8)) { std::set<double> bad; for (auto &p : Rd) bad.insert(p.second); for (auto &p : Rw) bad.insert(p.second); for (size_t i = 0; i < nl; i++) for (size_t k = 0; k < nx; k++) { bad.insert(D(i, k)); bad.insert(sh(i, k)); } auto near = [&](double t) { auto it = bad.lower_bound(t - 1e-9); return it != bad.end() && *it <= t + 1e-9; }; bool at = r.chance(.3) && bad.size(); do { rm = r.u(0, r.chance(.5) ? 2 : 8); if (r.chance(.1)) rm = -1; } while (near(rm)); if (at) rm = r.pick(std::vector<double>(bad.begin(), bad.end())); } C.desc << " rmax " << rm;
  auto below = [&](const Edges &e) { Edges g; for (auto &p : e) if (p.second < rm) g.insert(p); return g; }; double rmf = rm; auto upto = [&](const Edges &e) { Edges g; for (auto &p : e) if (p.second <= rm) g.insert(p); return g; };  // complexes are closed, filtrations open at the threshold
  filtration_is(C, bats::DowkerFiltration(D, rmf, dm), cliques(nl, dm, below(Rd)), "Dowker filtration of distances"); filtration_is(C, bats::DowkerFiltration(L, X, m, rmf, dm), cliques(nl, dm, below(Rd)), "Dowker filtration"); filtration_is(C, bats::WitnessFiltration(L, X, m, rmf, dm), cliques(nl, dm, below(Rd)), "witness filtration");
  cells_are(bats::WitnessComplex(X, L, m, nu, rmf, dm), keys(cliques(nl, dm, upto(Rw))), "lazy witness complex");
  bats::Cover cw(nl); for (size_t i = 0; i < nl; i++) for (size_t k = 0; k < nx; k++) if (sh(i, k) <= rm) cw[i].insert(k); REQUIRE(bats::witness_neighborhoods(X, L, m, nu, rmf).size() == nl, "witness-neighbourhoods", "");
  { auto wn = bats::witness_neighborhoods(X, L, m, nu, rmf); for (size_t i = 0; i < nl; i++) REQUIRE(wn[i] == cw[i], "witness-neighbourhoods", "landmark " << i << " " << show(wn[i]) << " expected " << show(cw[i])); }
  // edges witnessed within a radius
  { auto ed = bats::witness_edges(X, L, m, rmf); std::set<std::pair<size_t, size_t>> got, want; REQUIRE(ed.size() % 2 == 0, "witness-edges", ed.size()); for (size_t k = 0; k < ed.size(); k += 2) got.insert({std::min(ed[k], ed[k + 1]), std::max(ed[k], ed[k + 1])}); REQUIRE(got.size() == ed.size() / 2, "witness-edges", "repeated"); for (size_t i = 0; i < nl; i++) for (size_t j = i + 1; j < nl; j++) for (size_t k = 0; k < nx; k++) if (D(i, k) < rm && D(j, k) < rm) want.insert({i, j}); REQUIRE(got == want, "witness-edges", got.size() << " of " << want.size()); }
  // covers of the landmarks, of the points
  auto cv = random_cover(r, r.r(0, 4), nl); C.desc << " cover"; log(C, cv); auto shared = [&](const bats::Cover &c, size_t i, size_t j) { for (auto &s : c) if (s.count(i) && s.count(j)) return true; return false; }; Edges ec; for (auto &p : below(Rd)) if (shared(cv, p.first.first, p.first.second)) ec.insert(p); filtration_is(C, bats::DowkerFiltration(L, X, m, cv, rmf, dm), cliques(nl, dm, ec), "Dowker cover filtration"); filtration_is(C, bats::DowkerFiltration(D, cv, rmf, dm), cliques(nl, dm, ec), "Dowker cover filtration of distances");
  auto S = m(L); Edges er; bool tie = false; for (size_t i = 0; i < nl; i++) for (size_t j = i + 1; j < nl; j++) { tie = tie || S(j, i) != S(i, j); if (shared(cv, i, j) && S(i, j) < rm) er[{i, j}] = S(i, j); }
  if (!tie) { auto V = cliques(nl, dm, er); filtration_is(C, bats::RipsFiltration(L, cv, m, rmf, dm), V, "Rips cover filtration"); Valued V2; for (auto &p : V) { bool in = p.first.size() == 1; for (auto &s : cv) { bool all = true; for (auto v : p.first) all = all && s.count(v); in = in || all; } if (in) V2.insert(p); } if (cv.empty()) V2.clear(); filtration_is(C, bats::StrictRipsCoverFiltration<double, SC>(L, cv, m, rmf, dm), V2, "strict Rips cover filtration"); }
  omp_set_num_threads(1);
}
FAMILY(dowker_witness, 500, 10000) { Rng &r = C.rng; size_t d = r.chance(.04) ? r.r(4, 20) : r.r(1, 3); int k = r.r(0, 2), kind = r.r(0, 3); bool big = r.chance(.02); auto px = points(r, r.r(1, big ? 80 : 12), d, kind); Pts pl; size_t nl = r.r(1, big ? 11 : 7); if (r.chance(.5)) { for (auto i : r.subset(px.size(), std::min(nl, px.size()))) pl.push_back(px[i]); } else pl = points(r, nl, d, kind); C.desc << MN[k]; log(C, px); C.desc << " landmarks"; log(C, pl); C.nontrivial(); METRIC(k, (dowker(C, m, px, pl, d))) }
FAMILY(strong_witness, 400, 8000) {
  Rng &r = C.rng; size_t d = r.chance(.04) ? r.r(4, 20) : r.r(1, 3); auto px = points(r, r.r(0, 14), d, 2), pl = points(r, r.r(1, 7), d, 2); size_t dm = r.r(0, 4); C.desc << "dmax " << dm; log(C, px); C.desc << " landmarks"; log(C, pl); C.nontrivial(); auto X = data<double>(px, d), L = data<double>(pl, d); threads(r); bats::Euclidean m;
  std::set<sp::Sx> wit, want; for (auto &x : px) { std::vector<std::pair<double, size_t>> o; for (size_t j = 0; j < pl.size(); j++) o.push_back({ref_dist(0, x, pl[j]), j}); std::sort(o.begin(), o.end()); sp::Sx s; for (auto &q : o) { s.push_back(q.second); auto t = s; std::sort(t.begin(), t.end()); wit.insert(t); } }
  for (size_t j = 0; j < pl.size(); j++) want.insert({j}); for (size_t k = 2; k <= dm + 1; k++) for (auto &s : wit) if (s.size() == k) { bool ok = true; for (auto &f : sp::facets_of(s)) ok = ok && want.count(f); if (ok) want.insert(s); }
  auto W = bats::WitnessComplex(X, L, m, dm); cells_are(W, want, "witness complex"); C.count("witness-cells", want.size()); omp_set_num_threads(1);
}
FAMILY(strict_witness, 300, 6000) {  // the nerve of the balls of growing radius around the landmarks
  Rng &r = C.rng; size_t d = r.chance(.04) ? r.r(4, 20) : r.r(1, 3), dm = r.r(0, 3), nx = r.r(1, 9), nl = r.r(1, 6); auto px = points(r, nx, d, 2), pl = points(r, nl, d, 2); size_t nu = r.r(0, nl); double rm = r.u(0, 2); C.desc << "nu " << nu << " rmax " << rm << " dmax " << dm; log(C, px); C.desc << " landmarks"; log(C, pl); C.nontrivial(); auto X = data<double>(px, d), L = data<double>(pl, d); bats::Euclidean m;
  bats::Cover c(nl); for (size_t k = 0; k < nx; k++) { std::vector<double> v; for (size_t i = 0; i < nl; i++) v.push_back(ref_dist(0, pl[i], px[k])); auto s = v; std::sort(s.begin(), s.end()); double mk = nu ? s[nu - 1] : 0; for (size_t i = 0; i < nl; i++) { double t = std::max(0.0, v[i] - mk); if (std::fabs(t - rm) < 1e-9) throw Skip(); if (t <= rm) c[i].insert(k); } }
  auto g = bats::witness_neighborhoods(X, L, m, nu, rm); REQUIRE(g.size() == nl, "witness-neighbourhoods", g.size()); for (size_t i = 0; i < nl; i++) REQUIRE(g[i] == c[i], "witness-neighbourhoods", "landmark " << i << " " << show(g[i]) << " expected " << show(c[i])); cells_are(bats::StrictWitnessComplex(X, L, m, nu, rm, dm), nerve(c, dm), "strict witness complex");
}
// ---- data
template <class T> void gen(Case &C) {
  Rng &r = C.rng; size_t d = r.r(1, 4), n = r.r(0, 12); unsigned sd = r.r(0, 1000); double tol = sizeof(T) == 4 ? 1e-5 : 1e-12; C.desc << "d " << d << " n " << n << " seed " << sd; C.nontrivial();
  auto norm2 = [&](const bats::DataSet<T> &X, size_t i) { double s = 0; for (size_t j = 0; j < X.dim(); j++) s += (double)X(i, j) * X(i, j); return std::sqrt(s); };
  auto same = [&](const bats::DataSet<T> &A, const bats::DataSet<T> &B) { if (A.size() != B.size() || A.dim() != B.dim()) return false; for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A.dim(); j++) if (A(i, j) != B(i, j)) return false; return true; };
  auto S = bats::sample_sphere<T>(d, n, sd), S2 = bats::sample_sphere<T>(d, n); for (auto *p : {&S, &S2}) { REQUIRE(p->size() == n && p->dim() == d, "sphere-shape", p->size()); for (size_t i = 0; i < n; i++) REQUIRE(std::fabs(norm2(*p, i) - 1) < tol, "off-sphere", norm2(*p, i)); } REQUIRE(same(S, bats::sample_sphere<T>(d, n, sd)), "seeded-data-differ", "sphere");
  auto Q = bats::sample_cube<T>(d, n, sd), Q2 = bats::sample_cube<T>(d, n); for (auto *p : {&Q, &Q2}) { REQUIRE(p->size() == n && p->dim() == d, "cube-shape", p->size()); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) REQUIRE((*p)(i, j) >= 0 && (*p)(i, j) <= 1, "off-cube", (*p)(i, j)); } REQUIRE(same(Q, bats::sample_cube<T>(d, n, sd)), "seeded-data-differ", "cube");
  T a = r.r(-3, 3), b = a + r.r(0, 5); auto I = bats::interval<T>(a, b, n); REQUIRE(I.size() == n && I.dim() == 1, "interval-shape", I.size()); for (size_t i = 0; i < n; i++) { double w = n == 1 ? a : a + (double)(b - a) * i / (n - 1); REQUIRE(std::fabs(I(i, 0) - w) < 20 * tol, "interval", "point " << i << " is " << I(i, 0) << " expected " << w); }
  T rad = r.r(1, 3); auto K = bats::circle<T>(rad, n); REQUIRE(K.size() == n && K.dim() == 2, "circle-shape", K.size()); for (size_t i = 0; i < n; i++) { double t = 2 * M_PI * i / n; REQUIRE(std::fabs(K(i, 0) - rad * std::cos(t)) < 50 * tol && std::fabs(K(i, 1) - rad * std::sin(t)) < 50 * tol, "circle", "point " << i); }
  size_t m = r.r(0, 5); auto Y = bats::sample_cube<T>(r.r(1, 3), m, sd + 1); auto P = bats::product_space(Q, Y); REQUIRE(P.size() == n * m && P.dim() == d + Y.dim(), "product-shape", P.size()); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) for (size_t k = 0; k < P.dim(); k++) REQUIRE(P(i * m + j, k) == (k < d ? Q(i, k) : Y(j, k - d)), "product", i << "," << j);
  auto Z = data<T>(points(r, n, d, 2), d); auto before = bats::DataSet<T>(Z.data.copy()); T mu = r.r(-2, 2); bats::add_normal_noise(Z, sd, mu, T(1e-14)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) REQUIRE(std::fabs(Z(i, j) - before(i, j) - mu) < 20 * tol, "noise-of-zero-width", Z(i, j)); auto z2 = bats::DataSet<T>(Z.data.copy()); bats::add_uniform_noise(Z.data, sd, T(-.5), T(.25)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) { double e = Z(i, j) - z2(i, j); REQUIRE(e >= -.5 - 20 * tol && e <= .25 + 20 * tol, "noise-bounds", e); } bats::add_uniform_noise(Z, T(-.5), T(.25)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) { double e = Z(i, j) - z2(i, j); REQUIRE(e >= -1 - 20 * tol && e <= .5 + 20 * tol, "noise-bounds", "unseeded " << e); }
  auto N = data<T>(points(r, n, d, 3), d); auto N0 = bats::DataSet<T>(N.data.copy()); bats::normalize_entries(N); for (size_t i = 0; i < n; i++) { REQUIRE(std::fabs(norm2(N, i) - 1) < tol, "not-normal", norm2(N, i)); double s = norm2(N0, i); for (size_t j = 0; j < d; j++) REQUIRE(std::fabs(N(i, j) * s - N0(i, j)) < 20 * tol * (1 + s), "normalised-direction", "row " << i); }
  if (d > 1) { auto V = bats::sample_sphere<T>(d, n, sd); auto V0 = bats::DataSet<T>(V.data.copy()); double st = r.pick(std::vector<double>{.01, .1, 1}); bats::force_repel_rp(V, T(st)); for (size_t i = 0; i < n; i++) { double dd = 0; for (size_t j = 0; j < d; j++) { double e = V(i, j) - V0(i, j); dd += e * e; } REQUIRE(std::fabs(norm2(V, i) - 1) < tol, "repelled-off-sphere", norm2(V, i)); REQUIRE(std::sqrt(dd) <= st * 1.001 + tol, "repelled-too-far", std::sqrt(dd) << " step " << st); } 
    for (size_t i = 0; i < n && d == 2 && sizeof(T) == 8; i++) {  // on the circle: inverse square forces between lines, along the tangent, at most one step
      double tx = -V0(i, 1), ty = V0(i, 0), along = 0, size = 0; for (size_t j = 0; j < n; j++) if (j != i) { double a = V0(i, 0) - V0(j, 0), b = V0(i, 1) - V0(j, 1); if (a * a + b * b > 2) { a = V0(i, 0) + V0(j, 0); b = V0(i, 1) + V0(j, 1); } double q = std::hypot(a, b); along += (a * tx + b * ty) / (q * q * q); size = std::max(size, 1 / (q * q)); } if (size > 1e6) continue;
      double step = std::max(-st, std::min(st, along)), x = V0(i, 0) + step * tx, y = V0(i, 1) + step * ty, q = std::hypot(x, y); REQUIRE(std::fabs(V(i, 0) - x / q) < 1e-7 && std::fabs(V(i, 1) - y / q) < 1e-7, "repulsion", "point " << i << " at " << V(i, 0) << "," << V(i, 1) << " expected " << x / q << "," << y / q); } }
  C.count("data-sets", 10);
}
FAMILY(generated_data, 400, 8000) { if (C.rng.chance(.3)) gen<float>(C); else gen<double>(C); }
// random samples are spread over what they are drawn from: bounds eight and more standard deviations wide
FAMILY(random_data, 60, 1200) {
  Rng &r = C.rng; size_t d = r.r(1, 4), n = r.r(900, 1500); unsigned sd = r.r(0, 100000); bool seeded = r.chance(.7); C.desc << "d " << d << " n " << n << " seed " << sd << (seeded ? "" : " unused"); C.nontrivial(); typedef double T;
  auto moments = [&](const bats::DataSet<T> &X, double mean, double sdev, const std::string &w) { REQUIRE(X.size() == n && X.dim() == d, "random-shape", w); std::set<std::vector<double>> s; for (size_t j = 0; j < d; j++) { double m = 0, v = 0; for (size_t i = 0; i < n; i++) m += X(i, j); m /= n; for (size_t i = 0; i < n; i++) v += (X(i, j) - m) * (X(i, j) - m); v = std::sqrt(v / n); REQUIRE(std::fabs(m - mean) < .35 * sdev, "random-mean", w << " coordinate " << j << " has mean " << m << " expected " << mean); REQUIRE(v > .7 * sdev && v < 1.3 * sdev, "random-spread", w << " coordinate " << j << " has deviation " << v << " expected " << sdev);
      for (size_t k = 0; k < j; k++) { double c = 0; for (size_t i = 0; i < n; i++) c += (X(i, j) - mean) * (X(i, k) - mean); REQUIRE(std::fabs(c / n) < .35 * sdev * sdev, "random-dependent", w << " coordinates " << j << "," << k << " covary by " << c / n); } }
    for (size_t i = 0; i < n; i++) { std::vector<double> p; for (size_t j = 0; j < d; j++) p.push_back(X(i, j)); s.insert(p); } if (!(w == "sphere" && d == 1)) REQUIRE(s.size() > n * .98, "random-repeats", w << ": " << s.size() << " distinct of " << n); };
  double cube = std::sqrt(1. / 12); moments(seeded ? bats::sample_cube<T>(d, n, sd) : bats::sample_cube<T>(d, n), .5, cube, "cube"); moments(seeded ? bats::sample_sphere<T>(d, n, sd) : bats::sample_sphere<T>(d, n), 0, std::sqrt(1. / d), "sphere");
  double mu = r.r(-3, 3), sg = r.r(1, 4); auto Z = data<T>(std::vector<std::vector<double>>(n, std::vector<double>(d, 1)), d); auto Z2 = bats::DataSet<T>(Z.data.copy()), Z3 = bats::DataSet<T>(Z.data.copy());
  if (seeded) bats::add_normal_noise(Z, sd, mu, sg); else bats::add_normal_noise(Z, mu, sg); moments(Z, mu + 1, sg, "normal noise"); if (seeded) bats::add_uniform_noise(Z2.data, sd, mu, mu + sg); else bats::add_uniform_noise(Z2.data, mu, mu + sg); moments(Z2, mu + sg / 2 + 1, sg * cube, "uniform noise"); bats::add_uniform_noise(Z3); moments(Z3, 1, 2 * cube, "noise of the default width");
  C.count("random-points", 5 * n);
}
FAMILY(cylinders, 40, 400) { size_t a = C.rng.r(1, 6), b = C.rng.r(1, 7); double rad = C.rng.r(1, 3); C.desc << a << "x" << b << " radius " << rad; C.nontrivial(); auto X = bats::gen_cylinder(a, b, rad); REQUIRE(X.size() == a * b && X.dim() == 3, "cylinder-shape", X.size()); for (size_t i = 0; i < X.size(); i++) REQUIRE(X(i, 0) >= 0 && X(i, 0) <= 1 + 1e-12 && std::fabs(std::hypot(X(i, 1), X(i, 2)) - rad) < 1e-12, "off-cylinder", i); }
// every stage is a complex with 3^i holes, every map a chain map, injective on homology in dimension one
FAMILY(sierpinski, 5, 6) {
  size_t k = C.idx % 5 + 1; C.desc << "stages " << k; C.nontrivial(); auto Dg = bats::serpinski_diagram(k); REQUIRE(Dg.nnode() == k && Dg.nedge() == k - 1, "diagram-shape", Dg.nnode()); typedef bats::ChainComplex<CM> CC; std::vector<std::vector<DM>> B; size_t p3 = 1;
  for (size_t i = 0; i < k; i++) { auto &X = Dg.node[i]; CC Y(X); std::vector<DM> b; for (size_t d = 0; d <= 2; d++) b.push_back(d <= Y.maxdim() ? dense(Y[d]) : DM(X.ncells(d - 1), 0)); REQUIRE((b[1] * b[2]).zero(), "boundary-squared", "stage " << i); size_t r1 = orc::rank(b[1]), r2 = orc::rank(b[2]); REQUIRE(X.ncells(0) - r1 == 1 && X.ncells(1) - r1 - r2 == p3 && X.ncells(2) - r2 == 0, "homology", "stage " << i << ": " << X.ncells(0) - r1 << "," << X.ncells(1) - r1 - r2 << "," << X.ncells(2) - r2); B.push_back(b); p3 *= 3; }
  for (size_t i = 0; i + 1 < k; i++) { bats::ChainMap<CM> G(Dg.edata[i]); std::vector<DM> g; for (size_t d = 0; d <= 2; d++) g.push_back(dense(G[d])); for (size_t d = 1; d <= 2; d++) REQUIRE(B[i + 1][d] * g[d] == g[d - 1] * B[i][d], "chain-map", "stage " << i << " dimension " << d); REQUIRE(Dg.elist[i].src == i && Dg.elist[i].targ == i + 1, "diagram-edge", i); DM Zk = orc::kernel(B[i][1]); DM M = g[1] * Zk; size_t rb = orc::rank(B[i + 1][2]); size_t ri = orc::rank(orc::hcat(M, B[i + 1][2])) - rb, h1 = Zk.c - orc::rank(B[i][2]); REQUIRE(ri == h1, "map-on-homology", "stage " << i << " rank " << ri << " of " << h1); }
  C.count("stages", k);
}
// Every construction of float data at quarter-integer points, where both precisions compute the distances exactly, is that of the same data in double.
template <class M> void float_same(Case &C, const M &m, const Pts &px, const Pts &pl, size_t d) {
  Rng &r = C.rng; size_t nx = px.size(), nl = pl.size(), k = r.r(0, nl), nu = r.r(0, nl), dm = r.r(0, 3), i0 = r.r(0, nx - 1), kk = r.r(1, nx); double rm = r.chance(.15) ? INFV : r.r(0, 20) / 4.0, eps = r.r(0, 8) / 4.0; C.desc << " k=" << k << " nu=" << nu << " dmax " << dm << " rmax " << rm << " seed " << i0; float rf = rm, ef = eps;
  auto X = data<double>(px, d), L = data<double>(pl, d); auto Xf = data<float>(px, d), Lf = data<float>(pl, d);
  auto vec = [](const auto &v) { return std::vector<double>(v.begin(), v.end()); };
  auto eqd = [&](const auto &A, const auto &B, const std::string &w) { REQUIRE(A.nrow() == B.nrow() && A.ncol() == B.ncol(), "float-shape", w); for (size_t i = 0; i < A.nrow(); i++) for (size_t j = 0; j < A.ncol(); j++) REQUIRE((double)A(i, j) == (double)B(i, j) || (B(i, j) == std::numeric_limits<double>::max() && A(i, j) == std::numeric_limits<float>::max()), "float-values", w << " (" << i << "," << j << ") " << A(i, j) << " expected " << B(i, j)); };
  auto D = m(L, X); auto Df = m(Lf, Xf); eqd(Df, D, "distances"); eqd(m(Xf), m(X), "pairwise");
  auto eq = [&](const auto &a, const auto &b, const std::string &w) { REQUIRE(a == b, "float-differs", w); };
  threads(r); eq(bats::neighborhoods(Xf, Lf, m, k), bats::neighborhoods(X, L, m, k), "nearest"); eq(bats::neighborhoods(Xf, Lf, m, rf), bats::neighborhoods(X, L, m, rm), "radius"); eq(bats::neighborhoods(Df, rf), bats::neighborhoods(D, rm), "of distances"); eq(bats::neighborhoods(Df), bats::neighborhoods(D), "at distance zero"); eq(bats::neighborhood(Xf[0], Lf, m, k), bats::neighborhood(X[0], L, m, k), "nearest of one"); eq(bats::neighborhood(Xf[0], Lf, m, rf), bats::neighborhood(X[0], L, m, rm), "radius of one");
  if (kk < nx) eq(vec(bats::kdist(Xf, m, kk)), bats::kdist(X, m, kk), "kdist"); eq(bats::landmark_cover(Xf, Lf, m, k), bats::landmark_cover(X, L, m, k), "landmark cover"); eq(bats::landmark_eps_cover(Xf, Lf, m, ef), bats::landmark_eps_cover(X, L, m, eps), "eps cover");
  auto [a, ha] = bats::greedy_landmarks_hausdorff(X, m, i0); auto [af, haf] = bats::greedy_landmarks_hausdorff(Xf, m, i0); eq(af, a, "landmarks"); eq(vec(haf), ha, "radii"); auto [b, hb] = bats::greedy_landmarks_hausdorff(X, m, i0, kk); auto [bf, hbf] = bats::greedy_landmarks_hausdorff(Xf, m, i0, kk); eq(bf, b, "first landmarks"); eq(vec(hbf), hb, "first radii"); auto S = m(X); auto Sf = m(Xf); auto [c, hc] = bats::greedy_landmarks_hausdorff(S, i0); auto [cf, hcf] = bats::greedy_landmarks_hausdorff(Sf, i0); eq(cf, c, "landmarks of distances"); eq(vec(hcf), hc, "radii of distances");
  eqd(bats::greedy_landmarks(Xf, kk, m, i0).data, bats::greedy_landmarks(X, kk, m, i0).data, "greedy landmarks"); eqd(bats::hausdorff_landmarks(Xf, rf, m, i0).data, bats::hausdorff_landmarks(X, rm, m, i0).data, "hausdorff landmarks"); eq(bats::approx_center(Xf, m, kk, i0), bats::approx_center(X, m, kk, i0), "centre"); { auto R = bats::random_landmarks(Xf, kk); REQUIRE(R.size() == kk && R.dim() == d, "float-shape", "random landmarks"); }
  eq((double)bats::enclosing_radius(Sf), bats::enclosing_radius(S), "enclosing radius");
  auto cpx = [&](const SC &x, const SC &y, const std::string &w) { REQUIRE(x.maxdim() == y.maxdim(), "float-differs", w << " dimension"); for (size_t q = 0; q <= x.maxdim() && x.maxdim() != (size_t)-1; q++) REQUIRE(x.get_simplices(q) == y.get_simplices(q), "float-differs", w << " cells of dimension " << q); };
  auto fil = [&](const auto &x, const auto &y, const std::string &w) { REQUIRE(x.vals().size() == y.vals().size(), "float-differs", w); for (size_t q = 0; q < x.vals().size(); q++) { std::map<std::vector<size_t>, double> u, v; REQUIRE(x.complex().ncells(q) == y.complex().ncells(q), "float-differs", w << " cells of dimension " << q); for (size_t i = 0; i < x.vals(q).size(); i++) { u[x.complex().get_cell(q, i)] = x.vals(q)[i]; v[y.complex().get_cell(q, i)] = y.vals(q)[i]; } REQUIRE(u == v, "float-differs", w << " values of dimension " << q); } };
  eqd(bats::dowker_edge_param(Df), bats::dowker_edge_param(D), "Dowker edges"); eqd(bats::witness_param(Xf, Lf, m, nu), bats::witness_param(X, L, m, nu), "witness parameters"); eqd(bats::witness_edge_param(Xf, Lf, m, nu), bats::witness_edge_param(X, L, m, nu), "witness edges"); eq(bats::witness_edges(Xf, Lf, m, rf), bats::witness_edges(X, L, m, rm), "witnessed edges");
  cpx(bats::WitnessComplex(Xf, Lf, m, dm), bats::WitnessComplex(X, L, m, dm), "witness complex"); cpx(bats::WitnessComplex(Xf, Lf, m, nu, rf, dm), bats::WitnessComplex(X, L, m, nu, rm, dm), "lazy witness complex"); cpx(bats::StrictWitnessComplex(Xf, Lf, m, nu, rf, dm), bats::StrictWitnessComplex(X, L, m, nu, rm, dm), "strict witness complex"); eq(bats::witness_neighborhoods(Xf, Lf, m, nu, rf), bats::witness_neighborhoods(X, L, m, nu, rm), "witness neighbourhoods");
  fil(bats::WitnessFiltration(Lf, Xf, m, rf, dm), bats::WitnessFiltration(L, X, m, rm, dm), "witness filtration"); fil(bats::DowkerFiltration(Df, rf, dm), bats::DowkerFiltration(D, rm, dm), "Dowker filtration of distances"); fil(bats::DowkerFiltration(Lf, Xf, m, rf, dm), bats::DowkerFiltration(L, X, m, rm, dm), "Dowker filtration");
  auto cv = random_cover(r, r.r(0, 4), nl), cw = random_cover(r, r.r(0, 4), nx); log(C, cv); fil(bats::DowkerFiltration(Df, cv, rf, dm), bats::DowkerFiltration(D, cv, rm, dm), "covered Dowker filtration of distances"); fil(bats::DowkerFiltration(Lf, Xf, m, cv, rf, dm), bats::DowkerFiltration(L, X, m, cv, rm, dm), "covered Dowker filtration");
  size_t dx = std::min<size_t>(dm, 2); fil(bats::RipsFiltration(Lf, cv, m, rf, dm), bats::RipsFiltration(L, cv, m, rm, dm), "covered Rips filtration"); fil(bats::StrictRipsCoverFiltration<float, SC>(Lf, cv, m, rf, dm), bats::StrictRipsCoverFiltration<double, SC>(L, cv, m, rm, dm), "strict covered Rips filtration"); fil(bats::RipsFiltration<SC>(Xf, m, rf, dx), bats::RipsFiltration<SC>(X, m, rm, dx), "Rips filtration"); fil(bats::RipsFiltration<SC>(Sf, rf, dx), bats::RipsFiltration<SC>(S, rm, dx), "Rips filtration of distances"); cpx(bats::RipsComplex<SC>(Xf, m, rf, dx), bats::RipsComplex<SC>(X, m, rm, dx), "Rips complex"); cpx(bats::RipsComplex<SC>(Sf, rf, dx), bats::RipsComplex<SC>(S, rm, dx), "Rips complex of distances");
  // diagrams of growing sets
  auto dia = [&](const auto &x, const auto &y, const std::string &w) { REQUIRE(x.nnode() == y.nnode() && x.nedge() == y.nedge(), "float-differs", w << " shape"); for (size_t e = 0; e < x.nedge(); e++) REQUIRE(x.elist[e].src == y.elist[e].src && x.elist[e].targ == y.elist[e].targ, "float-differs", w << " edge " << e); };
  if (nx > 1) { float rho = 2.5f, eta = 1.25f; auto [O, ro] = bats::OscillatingRipsZigzagSets(X, m, (double)rho, (double)eta); auto [Of, rof] = bats::OscillatingRipsZigzagSets(Xf, m, rho, eta); dia(Of, O, "oscillating sets"); eq(Of.node, O.node, "oscillating sets"); eq(Of.edata, O.edata, "oscillating maps"); eq(vec(rof), ro, "oscillating radii");
    auto R = bats::Rips(O, X, m, ro, 1); auto Rf = bats::Rips(Of, Xf, m, rof, 1); dia(Rf, R, "oscillating complexes"); for (size_t i = 0; i < R.nnode(); i++) cpx(Rf.node[i], R.node[i], "oscillating complex"); auto P = bats::Rips(O, X, m, rm, 1); auto Pf = bats::Rips(Of, Xf, m, rf, 1); for (size_t i = 0; i < P.nnode(); i++) cpx(Pf.node[i], P.node[i], "complex of a set");
    auto [Mz, rz] = bats::DiscreteMorozovZigzagSets(X, m, (double)rho); auto [Mf, rzf] = bats::DiscreteMorozovZigzagSets(Xf, m, rho); dia(Mf, Mz, "Morozov sets"); eq(Mf.node, Mz.node, "Morozov sets"); eq(Mf.edata, Mz.edata, "Morozov maps"); eq(vec(rzf), rz, "Morozov radii"); auto [Z, q] = bats::DiscreteMorozovZigzag(X, m, (double)rho, 1); auto [Zf, qf] = bats::DiscreteMorozovZigzag(Xf, m, rho, 1); dia(Zf, Z, "Morozov complexes"); for (size_t i = 0; i < Z.nnode(); i++) cpx(Zf.node[i], Z.node[i], "Morozov complex"); eq(vec(qf), q, "Morozov radii"); }
  // data
  std::set<size_t> in; for (size_t i = 0; i < nx; i++) if (r.chance(.5)) in.insert(i); eqd(bats::get_subset(Xf, in).data, bats::get_subset(X, in).data, "subset"); eqd(Xf[in].data, X[in].data, "indexed subset"); size_t co = r.r(0, d - 1); auto pf = bats::coordinate_projection(Xf, co); auto pd = bats::coordinate_projection(X, co); eq(vec(pf), pd, "projection"); eq(bats::uniform_interval_cover(pf, 4), bats::uniform_interval_cover(pd, 4), "interval cover"); eqd(bats::product_space(Xf, Lf).data, bats::product_space(X, L).data, "product");
  omp_set_num_threads(1); C.count("float-constructions", 48);
}
FAMILY(float_data, 250, 5000) { Rng &r = C.rng; size_t d = r.r(1, 3); int k = r.r(1, 2), kind = r.r(0, 1); auto q = [&](size_t n) { auto p = points(r, n, d, kind); for (auto &x : p) for (auto &v : x) v = std::round(v * 4) / 4; return p; }; auto px = q(r.r(1, 9)), pl = q(r.r(1, 6)); C.desc << MN[k]; log(C, px); C.desc << " landmarks"; log(C, pl); C.nontrivial(); if (k == 1) float_same(C, bats::L1Dist(), px, pl, d); else float_same(C, bats::LInfDist(), px, pl, d); }
