// C24: parallel regions under a race detector; every result equals the one of a single thread.
#if PART == 3
#include "chains.hpp"
#else
#include "bridge.hpp"
#include "spaces.hpp"
#endif
#include <homology/parallel.hpp>
#include <topology/extras.hpp>
#include <omp.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
using namespace vh; using namespace bats;
extern "C" { uint64_t omp_shim_regions(); uint64_t omp_shim_parallel_regions(); uint64_t omp_shim_tasks(); uint64_t omp_shim_threads(); void omp_shim_seed(uint64_t); }
typedef std::vector<std::pair<size_t, size_t>> Edges;
struct Out { std::ostringstream o; template <class T> Out &operator<<(const T &x) { o << x << ' '; return *this; } };
static void put(Out &o, const CM &m) { m.write(o.o); }
static void put(Out &o, const std::vector<CM> &v) { o << v.size(); for (auto &m : v) put(o, m); }
template <class T> void put(Out &o, const std::vector<T> &v) { o << v.size(); for (auto &x : v) o << x; }
static void put(Out &o, const std::vector<std::vector<size_t>> &v) { o << v.size(); for (auto &x : v) put(o, x); }
static void put(Out &o, const SimplicialComplex &x) { for (size_t k = 0; k <= x.maxdim(); k++) { o << x.ncells(k); for (size_t i = 0; i < x.ncells(k); i++) { put(o, x.get_simplex(k, i)); if (k) { auto [a, b] = x.boundary(k, i); put(o, a); put(o, b); } } } }
static void put(Out &o, const CellularMap &f) { o << f.maxdim(); for (size_t k = 0; k <= f.maxdim(); k++) f[k].write(o.o); }
static void bars(Out &o, std::vector<PersistencePair<size_t>> b) { std::vector<std::array<size_t, 3>> v; for (auto &p : b) v.push_back({p.dim, p.birth, p.death}); std::sort(v.begin(), v.end()); for (auto &x : v) o << x[0] << x[1] << x[2]; }
template <class D> void graph_of(Out &o, const D &d) { o << d.nnode() << d.nedge(); for (auto &e : d.elist) o << e.src << e.targ; }
// one thread against several teams
template <class Fn> void same(Case &C, const char *what, Fn f) {
  Rng &r = C.rng; omp_set_num_threads(1); Out a; f(a); int reps = C.thorough ? 6 : 2; for (int i = 0; i < reps; i++) { int k = r.r(2, 8); omp_set_num_threads(k); omp_shim_seed(r.next()); uint64_t p = omp_shim_parallel_regions(), t = omp_shim_tasks(), s = omp_shim_threads(); Out b; f(b); C.count("parallel-regions", omp_shim_parallel_regions() - p); C.count("tasks", omp_shim_tasks() - t); C.count("threads-started", omp_shim_threads() - s); C.count(std::string("runs:") + what); if (a.o.str() != b.o.str()) { omp_set_num_threads(1); REQUIRE(false, "depends-on-threads", what << " with " << k << " threads: " << b.o.str().substr(0, 300) << " instead of " << a.o.str().substr(0, 300)); } } omp_set_num_threads(1);
}
static Edges graph(Rng &r, size_t &n, bool zig) { Edges e; if (zig) { n = r.r(2, 8); int dir = r.r(0, 3); for (size_t i = 0; i + 1 < n; i++) { bool l = dir == 0 ? 0 : dir == 1 ? 1 : dir == 2 ? i % 2 : r.chance(.5); e.push_back(l ? std::make_pair(i + 1, i) : std::make_pair(i, i + 1)); } } else { n = r.r(1, 6); for (int m = r.r(1, 8); m--;) e.push_back({(size_t)r.r(0, n - 1), (size_t)r.r(0, n - 1)}); } return e; }
#if PART == 1
static DataSet<double> cloud(Case &C, size_t n, size_t d) { Rng &r = C.rng; bats::Matrix<double> m(n, d); bool lat = r.chance(.4); for (size_t i = 0; i < n; i++) { C.desc << "("; for (size_t j = 0; j < d; j++) { m(i, j) = lat ? r.r(-2, 2) : r.u(-1, 1); C.desc << m(i, j) << " "; } C.desc << ")"; } return DataSet<double>(m); }
template <class M> void near(Case &C, const M &dist) {
  Rng &r = C.rng; size_t d = r.r(1, 3), n = r.r(1, 40), l = r.r(1, 12); auto X = cloud(C, n, d), L = cloud(C, l, d); size_t k = r.r(1, l); double rad = r.u(0, 2); C.desc << " k " << k << " radius " << rad; C.nontrivial();
  same(C, "nearest", [&](Out &o) { put(o, neighborhoods(X, L, dist, k)); put(o, neighborhoods(L, X, dist, std::min(n, k))); }); same(C, "radius", [&](Out &o) { put(o, neighborhoods(X, L, dist, rad)); });
  same(C, "cover", [&](Out &o) { auto c = landmark_cover(X, L, dist, k); for (auto &s : c) put(o, std::vector<size_t>(s.begin(), s.end())); }); same(C, "witness", [&](Out &o) { put(o, WitnessComplex(X, L, dist, (size_t)r.r(0, 0) + 2)); put(o, witness_edges(X, L, dist, rad)); });
  same(C, "landmarks", [&](Out &o) { put(o, RipsComplex<SimplicialComplex>(X, dist, std::min(rad, .5), 1)); auto g = greedy_landmarks(X, l, dist, 0); for (size_t i = 0; i < g.size(); i++) for (size_t j = 0; j < g.dim(); j++) o << g(i, j); });
}
FAMILY(neighborhoods_, 120, 2000) { switch (C.idx % 3) { case 0: near(C, Euclidean()); break; case 1: near(C, L1Dist()); break; default: near(C, LInfDist()); } }
// wide matrices: the recursion starts at 256 columns
static CM wide(Case &C, size_t &m, size_t &n) { Rng &r = C.rng; m = r.r(20, 120); n = r.pick(std::vector<size_t>{100, 256, 257, 300, 520, 700, 1030}); size_t z = r.r(1, 4); std::vector<SparseVector<F, size_t>> c(n); uint64_t h = 0; for (size_t j = 0; j < n; j++) { std::map<size_t, int> e; for (size_t t = r.r(0, z); t--;) e[r.r(0, m - 1)] = 1 + r.r(0, FIELD - 2); std::vector<size_t> i; std::vector<F> v; for (auto &p : e) { i.push_back(p.first); v.push_back(F(p.second)); h = mix(h + p.first * 7 + p.second + j); } c[j] = SparseVector<F, size_t>(i, v); } C.desc << m << "x" << n << " " << h; return CM(m, n, c); }
FAMILY(reductions, 24, 400) {
  size_t m, n; CM M = wide(C, m, n); C.nontrivial(); std::vector<p2c_type> piv; std::vector<size_t> rank;
  same(C, "divide-and-conquer", [&](Out &o) { CM A = M; auto p = reduce_matrix(A, divide_conquer_flag()); piv.push_back(p); put(o, p); put(o, A); size_t k = 0; for (size_t j = 0; j < n; j++) if (A[j].nnz()) { REQUIRE(p[A[j].lastnz().ind] == j, "pivot", "column " << j); k++; } rank.push_back(k); });
  size_t bs = C.rng.r(1, 300); same(C, "partial", [&](Out &o) { CM A = M; partial_reduce_parallel(A, bs); put(o, A); auto p = reduce_matrix_standard(A); put(o, p); REQUIRE(p == piv[0], "pivots-differ", "partial reduction with blocks of " << bs); });
  same(C, "partial-with-basis", [&](Out &o) { CM A = M, U = CM::identity(n); partial_reduce_parallel(A, U, bs); put(o, A); put(o, U); REQUIRE(A == M * U, "basis", "the basis does not give the reduced matrix"); });
  CM A = M; auto p = reduce_matrix_standard(A); REQUIRE(p == piv[0], "pivots-differ", "divide and conquer"); C.count("reduced-columns", n);
}
FAMILY(saved_diagrams, 40, 600) {
  Rng &r = C.rng; size_t n = r.r(1, 12), m = r.r(0, 12); Diagram<CM, CM> D(n, m); for (size_t i = 0; i < n; i++) D.set_node(i, sparse(randM(r, r.r(0, 4), r.r(0, 4), .5))); for (size_t i = 0; i < m; i++) D.set_edge(i, r.r(0, n - 1), r.r(0, n - 1), sparse(randM(r, r.r(0, 4), r.r(0, 4), .5))); for (auto &x : D.node) C.desc << x.nrow() << "x" << x.ncol() << " "; C.desc << m << " edges " << r.next(); C.nontrivial(); char t[] = "/tmp/vpar_XXXXXX"; if (!mkdtemp(t)) throw std::logic_error("mkdtemp"); std::string d = std::string(t) + "/d";
  auto clean = [&] { for (size_t i = 0; i < n; i++) ::unlink((d + "/node" + std::to_string(i)).c_str()); for (size_t i = 0; i < m; i++) ::unlink((d + "/edge" + std::to_string(i)).c_str()); ::unlink((d + "/metadata").c_str()); ::rmdir(d.c_str()); };
  try { same(C, "save", [&](Out &o) { clean(); D.save(d); auto cat = [&](const std::string &f) { std::ifstream s(d + f); REQUIRE(s.good(), "file-missing", f); o.o << s.rdbuf(); }; cat("/metadata"); for (size_t i = 0; i < n; i++) cat("/node" + std::to_string(i)); for (size_t i = 0; i < m; i++) cat("/edge" + std::to_string(i)); }); } catch (...) { clean(); ::rmdir(t); throw; } clean(); ::rmdir(t);
}
FAMILY(levelsets, 60, 1000) {
  Rng &r = C.rng; auto x = sp::random(r, r.r(2, 6), r.r(1, 2), r.r(2, 7)); zigzag::ZigzagFiltration<SimplicialComplex, double> Z; std::map<sp::Sx, std::pair<double, double>> life; double T0 = 8; for (auto &lv : x.cells()) for (auto &s : lv) { std::pair<double, double> l{0, T0}; if (s.size() == 1) { l.first = r.r(0, 3) + .25; l.second = r.r(5, 8) + .25; } else { for (auto v : s) { auto q = life[{v}]; l.first = std::max(l.first, q.first); l.second = std::min(l.second, q.second); } } life[s] = l; }
  for (auto &l : x.cells()) for (auto s : l) { auto &p = *life.find(s); Z.add(p.second.first, p.second.second, s); C.desc << vh::show(s) << "@" << p.second.first << "-" << p.second.second << " "; } C.nontrivial(); double eps = r.pick(std::vector<double>{.5, 1, 1.5});
  same(C, "levelsets", [&](Out &o) { auto D = zigzag_levelsets(Z, eps, 0., 8.); graph_of(o, D); for (auto &y : D.node) put(o, y); for (auto &f : D.edata) put(o, f); });
}
#elif PART == 2
static CM rnd(Rng &r, size_t a, size_t b) { return sparse(r.chance(.5) ? randM(r, a, b, r.u(.2, 1)) : randM_rank(r, a, b, r.r(0, std::min(a, b)))); }
FAMILY(quivers, 150, 3000) {
  Rng &r = C.rng; size_t m = r.r(1, 40), lim = r.r(1, 5); std::vector<size_t> d(m + 1); for (auto &x : d) x = r.r(0, lim); Diagram<void *, CM> D(m + 1, m); size_t h = 0; int dir = r.r(0, 3); for (size_t i = 0; i < m; i++) { bool l = dir == 0 ? 0 : dir == 1 ? 1 : dir == 2 ? i % 2 : r.chance(.5); size_t s = l ? i + 1 : i, t = l ? i : i + 1; CM M = rnd(r, d[t], d[s]); std::ostringstream q; M.write(q); h = hash_str(q.str() + std::to_string(h)); D.set_edge(i, s, t, M); C.desc << (l ? "<" : ">"); } C.desc << vh::show(d) << " " << h; C.nontrivial();
  same(C, "quiver", [&](Out &o) { bars(o, barcode(D, 1, flags::divide_conquer())); bars(o, barcode(D, 0)); for (auto &M : D.edata) put(o, M); });
}
FAMILY(stacked, 60, 1000) {
  Rng &r = C.rng; size_t m = r.r(1, 24), kd = r.r(1, 3); Diagram<void *, std::vector<CM>> D(m + 1, m); std::vector<std::vector<size_t>> d(kd, std::vector<size_t>(m + 1)); for (auto &v : d) for (auto &x : v) x = r.r(0, 4); for (size_t i = 0; i < m; i++) { bool l = r.chance(.5); size_t s = l ? i + 1 : i, t = l ? i : i + 1; std::vector<CM> v; for (size_t k = 0; k < kd; k++) v.push_back(rnd(r, d[k][t], d[k][s])); D.set_edge(i, s, t, v); } C.desc << m << " edges, " << kd << " dimensions " << r.next(); C.nontrivial();
  same(C, "stacked-quiver", [&](Out &o) { for (size_t k = 0; k < kd; k++) { auto E = extract_dimension(D, k); graph_of(o, E); for (auto &M : E.edata) put(o, M); } bars(o, barcode(D)); bars(o, barcode(D, flags::divide_conquer())); });
}
#else
static sp::Sx img(const sp::Sx &s, const std::vector<size_t> &f) { std::set<size_t> t; for (auto v : s) t.insert(f[v]); return sp::Sx(t.begin(), t.end()); }
template <class R> void put_red(Out &o, const R &Z) { put(o, Z.U); put(o, Z.R); put(o, Z.I); o << Z.p2c.size(); for (auto &p : Z.p2c) put(o, p); }
static void put(Out &o, const ChainComplex<CM> &X) { put(o, X.boundary); }
template <class D> void homs(Out &o, const D &G, size_t md) { for (size_t k = 0; k <= md; k++) { auto H = Hom(G, k); graph_of(o, H); for (auto &Z : H.node) put_red(o, Z); for (auto &M : H.edata) put(o, M); } for (bool top : {false, true}) { if (md + top == 0) continue; auto H = Hom(G, top); graph_of(o, H); for (auto &Z : H.node) put_red(o, Z); for (auto &v : H.edata) put(o, v); } }
FAMILY(functors, 50, 900) {
  Rng &r = C.rng; size_t n; bool zig = r.chance(.7); Edges e = graph(r, n, zig); size_t nv = r.r(2, 6), off; std::vector<sp::Cpx> node; std::vector<std::vector<size_t>> f; for (size_t i = 0; i < n; i++) node.push_back(sp::random(r, nv, r.r(0, 2), r.r(1, 5))); off = nv = std::max<size_t>(nv, 3); for (size_t j = 0; j < e.size(); j++) { std::vector<size_t> g(nv); if (r.chance(.4)) for (size_t i = 0; i < nv; i++) g[i] = i; else for (auto &v : g) v = r.r(0, nv - 1); f.push_back(g); }
  bool more = true; while (more) { more = false; for (size_t j = 0; j < e.size(); j++) { auto src = node[e[j].first]; for (auto &s : src.all) { auto t = img(s, f[j]); if (!node[e[j].second].all.count(t)) { node[e[j].second].add(t); more = true; } } } } { size_t top = 0; for (auto &x : node) top = std::max<size_t>(top, x.dim()); sp::Sx s; for (size_t i = 0; i <= top; i++) s.push_back(off + i); for (auto &x : node) x.add(s); for (auto &g : f) for (size_t i = 0; i <= top; i++) g.push_back(off + i); }
  for (size_t i = 0; i < n; i++) C.desc << " " << sp::show(node[i]); for (size_t j = 0; j < e.size(); j++) C.desc << " " << e[j].first << "->" << e[j].second << " by " << vh::show(f[j]); C.nontrivial(); size_t md = node[0].dim();
  Diagram<SimplicialComplex, CellularMap> D(n, e.size()); for (size_t i = 0; i < n; i++) D.set_node(i, make_sc(r, node[i])); for (size_t j = 0; j < e.size(); j++) D.set_edge(j, e[j].first, e[j].second, SimplicialMap(D.node[e[j].first], D.node[e[j].second], f[j]));
  same(C, "chain", [&](Out &o) { auto G = ChainFunctor<CM>(D); graph_of(o, G); for (auto &X : G.node) put(o, X); for (auto &g : G.edata) for (size_t k = 0; k <= g.maxdim(); k++) put(o, g[k]); auto G2 = Chain(D, F()); for (auto &X : G2.node) put(o, X); }); auto G = ChainFunctor<CM>(D); same(C, "hom", [&](Out &o) { homs(o, G, md); });
  for (int deg : {-1, 1}) { same(C, "dg", [&](Out &o) { auto Q = DGLinearFunctor<CM>(D, deg); graph_of(o, Q); for (auto &X : Q.node) put(o, X.differential); homs(o, Q, md); }); }
}
FAMILY(nerves, 60, 1000) {
  Rng &r = C.rng; size_t n, N = r.r(1, 7), dmax = r.r(1, 3); Edges e = graph(r, n, r.chance(.7)); std::vector<Cover> U(n); size_t K0 = r.r(1, 5); for (auto &u : U) { u.resize(K0); for (auto &s : u) { s.insert(r.r(0, N - 1)); for (int t = r.r(0, 3); t--;) s.insert(r.r(0, N - 1)); } } std::vector<std::vector<size_t>> f(e.size()); for (auto &g : f) for (size_t i = 0; i < K0; i++) g.push_back(r.chance(.6) ? i : r.r(0, K0 - 1)); bool more = true; while (more) { more = false; for (size_t j = 0; j < e.size(); j++) for (size_t i = 0; i < K0; i++) for (auto v : std::set<size_t>(U[e[j].first][i])) more = U[e[j].second][f[j][i]].insert(v).second || more; }
  for (auto &u : U) { for (auto &s : u) C.desc << vh::show(s); C.desc << " "; } for (size_t j = 0; j < e.size(); j++) C.desc << e[j].first << ">" << e[j].second << vh::show(f[j]); C.desc << dmax; C.nontrivial(); Diagram<Cover, std::vector<size_t>> D(n, e.size()); for (size_t i = 0; i < n; i++) D.set_node(i, U[i]); for (size_t j = 0; j < e.size(); j++) D.set_edge(j, e[j].first, e[j].second, f[j]);
  same(C, "nerve", [&](Out &o) { auto T = Nerve(D, dmax); graph_of(o, T); for (auto &x : T.node) put(o, x); for (auto &g : T.edata) put(o, g); });
}
FAMILY(rips, 60, 1000) {
  Rng &r = C.rng; size_t n, N = r.r(2, 9), d = r.r(1, 2); Edges e = graph(r, n, r.chance(.7)); bats::Matrix<double> P0(N, d); for (size_t i = 0; i < N; i++) { C.desc << "("; for (size_t j = 0; j < d; j++) { P0(i, j) = r.u(-1, 1); C.desc << P0(i, j) << " "; } C.desc << ")"; } DataSet<double> X(P0); std::vector<std::set<size_t>> S(n); for (auto &s : S) { s.insert(r.r(0, N - 1)); for (size_t v = 0; v < N; v++) if (r.chance(.4)) s.insert(v); } std::vector<double> rm(n); double r0 = r.u(0, 1.5); for (auto &x : rm) x = r.chance(.5) ? r0 : r.u(0, 1.5);
  bool more = true; while (more) { more = false; for (auto &p : e) { for (auto v : std::set<size_t>(S[p.first])) more = S[p.second].insert(v).second || more; if (rm[p.second] < rm[p.first]) { rm[p.second] = rm[p.first]; more = true; } } } Diagram<std::set<size_t>, std::vector<size_t>> D(n, e.size()); for (size_t i = 0; i < n; i++) { D.set_node(i, S[i]); C.desc << vh::show(S[i]) << "@" << rm[i]; } for (size_t j = 0; j < e.size(); j++) { std::vector<size_t> g; for (auto v : S[e[j].first]) g.push_back(std::distance(S[e[j].second].begin(), S[e[j].second].find(v))); D.set_edge(j, e[j].first, e[j].second, g); C.desc << e[j].first << ">" << e[j].second << " "; } C.nontrivial();
  Euclidean dist; same(C, "rips", [&](Out &o) { auto T = Rips(D, X, dist, rm, 2); graph_of(o, T); for (auto &x : T.node) put(o, x); for (auto &g : T.edata) put(o, g); auto T1 = Rips(D, X, dist, *std::max_element(rm.begin(), rm.end()), 2); for (auto &x : T1.node) put(o, x); for (auto &g : T1.edata) put(o, g); });
  same(C, "rips-hom", [&](Out &o) { for (size_t k = 0; k < 2; k++) { auto H = RipsHom(D, X, dist, rm, k, F()); graph_of(o, H); for (auto &M : H.edata) put(o, M); for (auto x : H.node) o << x; } });
}
#endif
