// C29: a program of several translation units behaves as one of a single unit.
// This file is compiled twice (UNIT=0, UNIT=1) and the objects are linked; the
// jobs below exist in both units and only touch the library.
#include <bats.hpp>
#include <future.hpp>
#include <util/io.hpp>
#include <cstdint>
typedef std::vector<double> Nums;
typedef std::vector<std::vector<size_t>> Sets;
struct Job { int what; uint64_t seed; std::string path; };
Nums other_unit(const Job &j);
bats::SimplicialComplex other_complex(const Sets &s);
void other_grow(bats::SimplicialComplex &X, const Sets &s);
Nums other_betti(const bats::SimplicialComplex &X);
Nums other_reduce(const bats::Filtration<double, bats::SimplicialComplex> &Fl);
bats::CellularMap other_map(const bats::SimplicialComplex &X, const bats::SimplicialComplex &Y, const std::vector<size_t> &f);
bats::Diagram<std::set<size_t>, std::vector<size_t>> other_diagram(std::vector<std::set<size_t>> s);
static const int JOBS = 14;
namespace {
typedef ModP<int, 3> Fd;
typedef bats::SimplicialComplex SCx;
typedef ColumnMatrix<SparseVector<Fd>> Mx;
struct Src { uint64_t s; uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); } size_t r(size_t a, size_t b) { return a + next() % (b - a + 1); } };
template <class Ps> void put_pairs(Nums &o, const Ps &P) { std::vector<Nums> v; for (auto &p : P) v.push_back({double(p.dim), double(p.birth), double(p.death)}); std::sort(v.begin(), v.end()); for (auto &x : v) o.insert(o.end(), x.begin(), x.end()); }
void put(Nums &o, const std::vector<size_t> &v) { o.push_back(double(v.size())); for (auto x : v) o.push_back(double(x)); }
void put(Nums &o, const SCx &X) { for (size_t k = 0; k <= X.maxdim(); k++) { o.push_back(double(X.ncells(k))); for (size_t i = 0; i < X.ncells(k); i++) put(o, X.get_simplex(k, i)); } }
template <class B> void put_betti(Nums &o, const B &X) { auto H = bats::Reduce(X, Fd()); for (size_t k = 0; k <= H.maxdim(); k++) o.push_back(double(H.hdim(k))); }
std::vector<std::set<size_t>> cover_of(Src &r, size_t n) { std::vector<std::set<size_t>> c(r.r(1, 5)); for (auto &s : c) { s.insert(r.r(0, n - 1)); for (size_t k = r.r(0, 6); k--;) s.insert(r.r(0, n - 1)); } return c; }
SCx cx(Src &r) { SCx X; for (size_t k = r.r(1, 6); k--;) { std::set<size_t> s; for (size_t q = r.r(1, 4); q--;) s.insert(r.r(0, 7)); std::vector<size_t> v(s.begin(), s.end()); X.add_recursive(v); } return X; }
Nums work(const Job &j) {
  using namespace bats; Src r{j.seed}; Nums o;
  switch (j.what) {
  case 0: { Matrix<double> M(r.r(1, 8), 2); for (size_t i = 0; i < M.nrow(); i++) for (size_t k = 0; k < 2; k++) M(i, k) = double(r.r(0, 12)); DataSet<double> X(M); auto Fl = RipsFiltration<SCx>(X, Euclidean(), 9., 2); auto C = Chain(Fl, Fd()); { ReducedFilteredChainComplex Z(C); for (size_t k = 0; k <= Z.maxdim(); k++) put_pairs(o, Z.persistence_pairs(k)); } { ReducedFilteredChainComplex Z(C, extra_reduction_flag(), clearing_flag()); for (size_t k = 0; k <= Z.maxdim(); k++) put_pairs(o, Z.persistence_pairs(k)); } break; }
  case 1: { auto a = cover_of(r, 9), b = cover_of(r, 9); put(o, Nerve(a, r.r(0, 3))); auto [c, f, g] = bivariate_cover(a, b); put(o, f); put(o, g); put(o, Nerve(c, 2)); break; }
  case 2: { auto a = Cube(r.r(1, 3), r.r(1, 3)); put_betti(o, a); auto b = Cube(r.r(1, 3), r.r(1, 3), r.r(1, 2)); for (size_t k = 0; k <= b.maxdim(); k++) o.push_back(double(b.ncells(k))); auto c = Cube(4, 4, 4, 0, r.r(1, 3), 1, r.r(2, 3), 0, r.r(1, 3)); put_betti(o, c); break; }
  case 3: { SCx X = cx(r); zigzag::ZigzagFiltration<SCx, double> Z; for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { double b = 10, d = 0; if (k) { b = 10 + double(k); d = 30 - double(k) * 2 - double(r.r(0, 1)) ; } else { b = double(r.r(0, 3)); d = double(r.r(31, 33)); } Z.add(b, d, X.get_simplex(k, i)); } auto P = zigzag::barcode(Z, 2, Fd(), no_optimization_flag(), standard_reduction_flag()); for (auto &p : P) put_pairs(o, p); break; }
  case 4: { size_t n = r.r(2, 6); std::vector<size_t> d(n); for (auto &x : d) x = r.r(0, 3); Diagram<int, Mx> D(n, n - 1); for (size_t i = 0; i + 1 < n; i++) { bool fw = r.r(0, 1); size_t s = fw ? i : i + 1, t = fw ? i + 1 : i; Mx M(d[t], d[s]); for (size_t c = 0; c < d[s]; c++) { std::vector<size_t> ii; std::vector<Fd> vv; for (size_t q = 0; q < d[t]; q++) if (r.r(0, 1)) { ii.push_back(q); vv.push_back(Fd(int(r.r(1, 2)))); } M[c] = SparseVector<Fd>(ii, vv); } D.set_edge(i, s, t, M); } put_pairs(o, barcode(D, 0)); put_pairs(o, barcode(D, 0, flags::leftward())); put_pairs(o, barcode(D, 0, flags::rightward())); break; }
  case 5: { std::vector<size_t> p; size_t n = r.r(1, 8); for (size_t i = 0; i < n; i++) p.push_back(i); for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[r.r(0, i - 1)]); put(o, identity_perm(n)); put(o, extension_perm(p, n + 2)); put(o, perm_to_the_end(r.r(0, n - 1), n)); put(o, perm_to_the_end(std::vector<size_t>{0}, n)); put(o, util::partial_perm(p, n + 3)); std::vector<size_t> a(p), b(p), c, t; util::sort_ind_pair_by_perm(a, b, p); put(o, a); put(o, b); break; }
  case 6: { auto a = util::rand_perm(r.r(0, 9)); std::sort(a.begin(), a.end()); put(o, a); size_t n = r.r(1, 9), m = r.r(0, n); auto s = util::random_subset(n, m); o.push_back(double(s.size())); break; }
  case 7: { for (int k = 0; k < 6; k++) o.push_back(sgn(int(r.r(0, 20)) - 10)); ColumnMatrix<SparseVector<int>> A(3, 3); for (size_t c = 0; c < 3; c++) { std::vector<size_t> ii; std::vector<int> vv; for (size_t q = 0; q < 3; q++) { int v = int(r.r(0, 12)) - 6; if (v) { ii.push_back(q); vv.push_back(v); } } A[c] = SparseVector<int>(ii, vv); } auto [R, S] = smith_rows(A); for (size_t i = 0; i < 3; i++) o.push_back(std::abs(double(S(i, i)))); break; }
  case 8: { auto X = gen_cylinder(r.r(1, 4), r.r(1, 4), 2.); for (size_t i = 0; i < X.size(); i++) for (size_t k = 0; k < X.dim(); k++) o.push_back(X(i, k)); auto D = serpinski_diagram(r.r(1, 3)); for (auto &x : D.node) put_betti(o, x); break; }
  case 9: { auto c = cover_of(r, 7); for (int q = 0; q < 2; q++) { auto D = q ? linear_subset_union_diagram(c) : linear_cover_intersection_diagram(c); for (auto &s : D.node) put(o, std::vector<size_t>(s.begin(), s.end())); for (auto &e : D.edata) put(o, e); } Diagram<Cover, std::vector<size_t>> D(2, 1); D.set_node(0, c); D.set_node(1, c); std::vector<size_t> f; for (size_t i = 0; i < c.size(); i++) f.push_back(i); D.set_edge(0, 0, 1, f); auto N = Nerve(D, 2); for (auto &x : N.node) put(o, x); break; }
  case 10: { SCx X = cx(r); std::string f = j.path; X.save(f); SCx Y(std::move(f)); put(o, Y); break; }
  case 11: { SCx X = cx(r); Filtration<double, SCx> Fl; std::vector<Nums> v(X.maxdim() + 1); for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { double t = double(k * 4 + r.r(0, 3)); auto sx = X.get_simplex(k, i); Fl.add(t, sx); v[k].push_back(double(k * 4 + r.r(0, 3))); } auto C = Chain(Fl, Fd()); ReducedFilteredChainComplex Z(C); Z.update_filtration(v); for (size_t k = 0; k <= Z.maxdim(); k++) put_pairs(o, Z.persistence_pairs(k)); break; }
  case 12: { std::string a = "prog", b = "n=" + std::to_string(r.r(0, 99)), c = "s=x" + std::to_string(r.r(0, 99)); char *av[] = {&a[0], &b[0], &c[0]}; o.push_back(util::io::parse_argv<double>(3, av, "n", -1.)); o.push_back(util::io::parse_argv<int>(3, av, "m", -3)); auto s = util::io::parse_argv<std::string>(3, av, std::string("s"), std::string("none")); for (char x : s) o.push_back(x); break; }
  default: { future::CompositePermutation P; std::vector<size_t> v{4, 3, 2, 1, 0}; std::ostringstream s; s << P; for (char x : s.str()) o.push_back(x); put(o, v); } }
  return o;
}
}
#if UNIT == 1
Nums other_unit(const Job &j) { return work(j); }
SCx other_complex(const Sets &s) { SCx X; for (auto x : s) X.add_recursive(x); return X; }
void other_grow(SCx &X, const Sets &s) { for (auto x : s) X.add_recursive(x); }
Nums other_betti(const SCx &X) { Nums o; put_betti(o, X); return o; }
Nums other_reduce(const bats::Filtration<double, SCx> &Fl) { Nums o; auto Z = bats::Reduce(Fl, Fd()); for (size_t k = 0; k <= Z.maxdim(); k++) put_pairs(o, Z.persistence_pairs(k)); return o; }
bats::CellularMap other_map(const SCx &X, const SCx &Y, const std::vector<size_t> &f) { return bats::SimplicialMap(X, Y, f); }
bats::Diagram<std::set<size_t>, std::vector<size_t>> other_diagram(std::vector<std::set<size_t>> s) { return bats::linear_subset_union_diagram(s); }
#else
#define FIELD 3
#include "bridge.hpp"
#include "spaces.hpp"
#include <unistd.h>
using namespace vh;
std::string sh(const Nums &v) { return vh::show(v); }
std::vector<DM> bd(const sp::Cpx &x) {
  auto c = x.cells(); std::vector<DM> D; for (size_t k = 0; k < c.size(); k++) { DM m(k ? c[k - 1].size() : 0, c[k].size()); if (k) for (size_t j = 0; j < c[k].size(); j++) for (size_t i = 0; i <= k; i++) { auto f = c[k][j]; f.erase(f.begin() + long(i)); size_t p = std::find(c[k - 1].begin(), c[k - 1].end(), f) - c[k - 1].begin(); m(p, j) = K(i % 2 ? -1 : 1); } D.push_back(m); }
  return D;
}
// the same work done in both units, and repeated
FAMILY(jobs, 1400, 30000) {
  Job j{int(C.idx % JOBS), C.rng.next(), "/tmp/vmon-units-" + std::to_string(getpid()) + ".x"}; C.desc << "job " << j.what << " seed " << j.seed; C.nontrivial(); Nums a, b, c;
  try { a = work(j); b = other_unit(j); c = work(j); } catch (...) { unlink(j.path.c_str()); throw; } unlink(j.path.c_str());
  REQUIRE(a == b, "units-differ", "job " << j.what << ": " << sh(a) << " in one unit, " << sh(b) << " in the other"); REQUIRE(a == c, "repeat-differs", "job " << j.what << ": " << sh(a) << " then " << sh(c)); C.count("job" + std::to_string(j.what)); C.count("numbers", a.size());
}
// objects that cross from one unit to the other
FAMILY(crossing, 600, 12000) {
  Rng &r = C.rng; sp::Cpx x = sp::random_space(r); C.desc << show(x); C.nontrivial(); Sets all(x.all.begin(), x.all.end()), a, b; for (auto &s : all) (r.chance(.5) ? a : b).push_back(s); r.shuffle(a); r.shuffle(b);
  SCx X = other_complex(a); size_t had = 0; for (size_t k = 0; k <= X.maxdim() && !a.empty(); k++) had += X.ncells(k); if (r.chance(.5)) other_grow(X, b); else for (auto s : b) X.add_recursive(s);
  size_t tot = 0; for (size_t k = 0; k <= X.maxdim() && !all.empty(); k++) tot += X.ncells(k); REQUIRE(tot == all.size() && had <= tot, "crossing-cells", tot << " cells expected " << all.size()); for (auto &s : all) REQUIRE(X.find_idx(s) != bats::NO_IND, "crossing-find", vh::show(s));
  if (all.empty()) return; Nums w; for (auto q : orc::betti(bd(x))) w.push_back(double(q)); Nums g = other_betti(X), h; put_betti(h, X); REQUIRE(g == h, "crossing-betti", sh(g) << " and " << sh(h)); while (!g.empty() && g.back() == 0) g.pop_back(); while (!w.empty() && w.back() == 0) w.pop_back(); REQUIRE(g == w, "crossing-homology", sh(g) << " expected " << sh(w));
  bats::Filtration<double, SCx> Fl; for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { auto sx = X.get_simplex(k, i); Fl.add(double(k * 3 + r.r(0, 2)), sx); } Nums p = other_reduce(Fl), q; { auto Z = bats::Reduce(Fl, Fd()); for (size_t k = 0; k <= Z.maxdim(); k++) put_pairs(q, Z.persistence_pairs(k)); } REQUIRE(p == q, "crossing-pairs", sh(p) << " and " << sh(q));
  std::vector<size_t> id; for (auto &s : all) for (auto v : s) { while (id.size() <= v) id.push_back(id.size()); } auto f = other_map(X, X, id); for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { size_t n = 0; for (auto it = f[k][i].nzbegin(); it != f[k][i].nzend(); ++it, ++n) REQUIRE(it->ind == i && it->val == 1, "crossing-map", "identity sends cell " << i << " to " << it->ind); REQUIRE(n == 1, "crossing-map", n << " entries"); }
  std::vector<std::set<size_t>> cv; for (auto &s : all) if (cv.size() < 5) cv.emplace_back(s.begin(), s.end()); auto D = other_diagram(cv); REQUIRE(D.nnode() == 2 * cv.size() - 1, "crossing-diagram", D.nnode()); auto E2 = D; for (size_t i = 0; i < cv.size(); i++) REQUIRE(E2.node[2 * i] == cv[i], "crossing-diagram", "node " << i); C.count("crossed");
}
#endif
