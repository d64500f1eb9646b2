// C23: objects written to a file or a string load back equal.
#include "chains.hpp"
#include <util/io.hpp>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
using namespace vh;
typedef bats::SimplicialComplex SC;
typedef bats::CellularMap CMap;
typedef SparseVector<int, size_t> IV;
typedef ColumnMatrix<IV> IM;
// a scratch directory of this case
struct Dir {
  std::string d; std::vector<std::string> made;
  Dir() { char t[] = "/tmp/vio_XXXXXX"; if (!mkdtemp(t)) throw std::logic_error("mkdtemp"); d = t; }
  std::string operator()(const std::string &n) { made.push_back(d + "/" + n); return made.back(); }
  ~Dir() { for (size_t i = made.size(); i--;) if (::unlink(made[i].c_str())) ::rmdir(made[i].c_str()); ::rmdir(d.c_str()); }
};
static std::string slurp(const std::string &f) { std::ifstream s(f); REQUIRE(s.good(), "no-file", f); std::ostringstream o; o << s.rdbuf(); return o.str(); }
template <class T> struct Val;
template <> struct Val<int> { static int any(Rng &r) { int v = r.chance(.2) ? r.r(-2000000000, 2000000000) : r.r(-9, 9); return v ? v : 1; } };
template <class I, unsigned Pp> struct Val<ModP<I, Pp>> { static ModP<I, Pp> any(Rng &r) { return ModP<I, Pp>((int)(1 + r.r(0, (int)std::min<size_t>((size_t)Pp - 2, 1000000000)))); } };
template <class I> struct Val<Rational<I>> { static Rational<I> any(Rng &r) { int m = r.chance(.2) ? 30000 : 9; int n = r.r(-m, m); return Rational<I>(I(n ? n : 1), I(r.r(1, m))); } };
template <> struct Val<double> { static double any(Rng &r) { switch (r.r(0, 3)) { case 0: return r.r(1, 9); case 1: return -1. / r.r(1, 99); case 2: return r.u01() * 1e-300 + 1e-301; default: return (r.u01() - .5) * std::pow(10., r.r(-20, 20)) + 1e-30; } } };
template <class V> V vec(Rng &r, size_t n, double p) { typedef typename V::val_type T; std::vector<size_t> i; std::vector<T> v; for (size_t k = 0; k < n; k++) if (r.chance(p)) { i.push_back(k); v.push_back(Val<T>::any(r)); } return V(i, v); }
template <class V> bool eq(const V &a, const V &b) { auto i = a.nzbegin(); auto j = b.nzbegin(); for (; i != a.nzend() && j != b.nzend(); ++i, ++j) if (!(i->ind == j->ind) || !(i->val == j->val)) return false; return i == a.nzend() && j == b.nzend(); }
template <class M> void mat_eq(const M &a, const M &b, const std::string &w) { REQUIRE(a.nrow() == b.nrow() && a.ncol() == b.ncol() && b.cols().size() == b.ncol(), "shape", w << " " << b.nrow() << "x" << b.ncol() << " expected " << a.nrow() << "x" << a.ncol()); for (size_t j = 0; j < a.ncol(); j++) REQUIRE(eq(a[j], b[j]), "column", w << " column " << j); }
template <class M> M mat(Rng &r) { size_t hi = r.chance(.02) ? 60 : 5, m = r.r(0, hi), n = r.r(0, hi); double p = r.pick(std::vector<double>{0, .3, .7, 1}); std::vector<typename M::col_type> c; for (size_t j = 0; j < n; j++) c.push_back(vec<typename M::col_type>(r, m, p)); return M(m, n, c); }
template <class M> std::string text(const M &m) { std::ostringstream o; m.write(o); return o.str(); }
template <class T> void vectors(Case &C, const char *nm) {
  Rng &r = C.rng; typedef SparseVector<T, size_t> V; V v = vec<V>(r, r.r(0, r.chance(.02) ? 2000 : 8), r.pick(std::vector<double>{0, .5, 1})); if (r.chance(.2)) v = V(v.nnz() ? std::vector<size_t>{(size_t)r.r(0, 1000) + 3000000000ull} : std::vector<size_t>{}, v.nnz() ? std::vector<T>{v.nzbegin()->val} : std::vector<T>{});
  std::string s = v.str(); C.desc << nm << " " << s; std::string line = s; V w(line); REQUIRE(eq(v, w), "vector-string", s << " loads as " << w.str()); std::istringstream in(text(v)); getline(in, line); V u(line); REQUIRE(eq(v, u), "vector-line", s << " loads as " << u.str()); C.count("vectors");
}
FAMILY(vectors, 1500, 30000) { switch (C.idx % 7) { case 0: vectors<int>(C, "int"); break; case 1: vectors<ModP<int, 2>>(C, "F2"); break; case 2: vectors<ModP<int, 7>>(C, "F7"); break; case 3: vectors<ModP<long long, 65537>>(C, "Fp"); break; case 4: vectors<Rational<int>>(C, "Q"); break; case 5: vectors<Rational<int64_t>>(C, "Q64"); break; default: vectors<double>(C, "real"); } C.nontrivial(); }
template <class T> void matrices(Case &C, const char *nm) {
  Rng &r = C.rng; typedef ColumnMatrix<SparseVector<T, size_t>> M; M a = mat<M>(r), b = mat<M>(r), held = mat<M>(r); C.desc << nm << " " << text(a) << " " << text(b); Dir d;
  std::string f = d("m"); a.save(f); M x(f); mat_eq(a, x, "file"); b.save(f); M y(f); mat_eq(b, y, "file saved over another"); REQUIRE(slurp(f).rfind("ColumnMatrix\n", 0) == 0, "type-line", slurp(f));
  std::istringstream in(a.str() + b.str()); M p(in); mat_eq(a, p, "stream"); held.read(in); mat_eq(b, held, "read into a used matrix"); if (a.ncol() && a.nrow()) mat_eq(a * M::identity(a.ncol()), x * M::identity(x.ncol()), "loaded matrix in arithmetic");
  std::string none = d.d + "/none"; M z(none); REQUIRE(z.nrow() == 0 && z.ncol() == 0, "missing-file", ""); C.count("matrices", 2);
}
FAMILY(matrices, 700, 14000) { switch (C.idx % 6) { case 0: matrices<int>(C, "int"); break; case 1: matrices<ModP<int, 2>>(C, "F2"); break; case 2: matrices<ModP<int, 5>>(C, "F5"); break; case 3: matrices<Rational<int>>(C, "Q"); break; case 4: matrices<Rational<int64_t>>(C, "Q64"); break; default: matrices<double>(C, "real"); } C.nontrivial(); }
static void sc_eq(const SC &a, const SC &b, const std::string &w) {
  for (size_t k = 0; k <= std::max(a.maxdim(), b.maxdim()); k++) { REQUIRE(a.ncells(k) == b.ncells(k), "cells", w << " dimension " << k << ": " << b.ncells(k) << " expected " << a.ncells(k)); for (size_t i = 0; i < a.ncells(k); i++) { auto s = a.get_simplex(k, i); REQUIRE(b.get_simplex(k, i) == s, "simplex", w << " " << show(b.get_simplex(k, i)) << " expected " << show(s)); REQUIRE(b.find_idx(s) == i, "find", w << " " << show(s)); if (k) { auto [fi, fc] = a.boundary(k, i); auto [gi, gc] = b.boundary(k, i); REQUIRE(fi == gi && fc == gc, "faces", w << " " << show(s)); } } }
}
static sp::Cpx space(Rng &r) { if (r.chance(.5)) return sp::random_space(r); auto x = sp::random(r, r.r(1, 7), r.r(0, 3), r.r(0, 9)); if (r.chance(.4)) { std::vector<size_t> p; size_t o = r.pick(std::vector<size_t>{0, 7, 65536, 2147483647ull, 5000000000ull}); for (size_t i = 0; i < x.nv() + 1; i++) p.push_back(o + 3 * i); x = sp::relabel(x, p); } return x; }
FAMILY(simplicial_complexes, 700, 14000) {
  Rng &r = C.rng; auto x = space(r); C.desc << show(x); C.nontrivial(); SC a; if (!x.all.empty()) a = make_sc(r, x); Dir d; std::string f = d("x"); a.save(f); SC b(std::move(f)); sc_eq(a, b, "loaded"); REQUIRE(slurp(d.made[0]).rfind("SimplicialComplex\n", 0) == 0, "type-line", ""); std::string g = d("y"); b.save(g); REQUIRE(slurp(d.made[0]) == slurp(d.made[1]), "text", "saved again");
  // the loaded complex keeps growing like the original
  if (x.nv() && r.chance(.5)) { std::vector<size_t> s{9000000000ull}; auto i = a.add(s); auto j = b.add(s); REQUIRE(i.dim == j.dim && i.ind == j.ind, "grow", ""); auto v = a.get_simplex(0, 0); std::vector<size_t> e{v[0], s[0]}; if (v[0] != s[0]) { a.add(e); b.add(e); sc_eq(a, b, "grown"); } }
  SC z(d.d + "/none"); REQUIRE(z.ncells() == 0, "missing-file", ""); C.count("complexes");
}
static CMap map(Rng &r, std::vector<IM> &m) { size_t k = r.r(0, 4); CMap f = r.chance(.5) && k ? CMap(k - 1) : CMap(); for (size_t i = 0; i < k; i++) m.push_back(mat<IM>(r)); std::vector<size_t> o(k); for (size_t i = 0; i < k; i++) o[i] = i; if (r.chance(.5)) r.shuffle(o); for (auto i : o) f[i] = m[i]; return f; }
static void map_eq(const std::vector<IM> &m, const CMap &f, const std::string &w) { REQUIRE(f.maxdim() + 1 == m.size(), "maxdim", w << " " << f.maxdim() + 1 << " expected " << m.size()); for (size_t k = 0; k < m.size(); k++) mat_eq(m[k], f[k], w); }
FAMILY(cellular_maps, 600, 12000) {
  Rng &r = C.rng; std::vector<IM> m; Dir d; if (r.chance(.5)) { CMap f = map(r, m); for (auto &x : m) C.desc << text(x); map_eq(m, f, "assigned"); std::string n = d("f"); f.save(n); CMap g(n); map_eq(m, g, "loaded"); REQUIRE(slurp(n).rfind("CellularMap\n", 0) == 0, "type-line", ""); }
  else { auto x = space(r); sp::Cpx y; for (auto &s : x.all) if (r.chance(.4)) y.add(s); if (y.all.empty()) throw Skip(); SC a = make_sc(r, x), b = make_sc(r, y); C.desc << show(y) << " in " << show(x); CMap f(b, a); for (size_t k = 0; k <= f.maxdim(); k++) m.push_back(f[k]); std::string n = d("f"); f.save(n); CMap g(n); map_eq(m, g, "loaded inclusion"); bats::ChainMap<ColumnMatrix<SparseVector<ModP<int, 3>>>> p(f), q(g); for (size_t k = 0; k <= f.maxdim(); k++) mat_eq(p[k], q[k], "chain map of the loaded map"); }
  C.nontrivial(); std::string none = d.d + "/none"; CMap z(none); REQUIRE(z.maxdim() + 1 == 0, "missing-file", ""); C.count("maps");
}
template <class Dg> void meta(const Dg &D, const std::string &f) { std::ifstream s(f); size_t n, m; s >> n >> m; REQUIRE(s.good() && n == D.node.size() && m == D.elist.size(), "metadata", slurp(f)); for (size_t e = 0; e < m; e++) { size_t a, b; char c; s >> a >> c >> b; REQUIRE(!s.fail() && c == ',' && a == D.elist[e].src && b == D.elist[e].targ, "metadata-edge", slurp(f)); } }
FAMILY(diagrams, 240, 5000) {
  Rng &r = C.rng; size_t n = r.r(1, 6), m = r.r(0, 7); Dir d; std::string dn = d("dgm"); auto files = [&](size_t nn, size_t mm) { d("dgm/metadata"); for (size_t i = 0; i < nn; i++) d("dgm/node" + std::to_string(i)); for (size_t i = 0; i < mm; i++) d("dgm/edge" + std::to_string(i)); };
  if (r.chance(.5)) { bats::Diagram<SC, CMap> D(r.chance(.5) ? 0 : n, 0); bool pre = D.nnode(); std::vector<SC> xs; for (size_t i = 0; i < n; i++) { auto x = space(r); SC a; if (!x.all.empty()) a = make_sc(r, x); xs.push_back(a); if (pre) D.set_node(i, a); else D.add_node(a); C.desc << show(x) << " "; } std::vector<std::vector<IM>> ms; for (size_t e = 0; e < m; e++) { ms.emplace_back(); CMap f = map(r, ms.back()); size_t s = r.r(0, n - 1), t = r.r(0, n - 1); D.add_edge(s, t, f); C.desc << s << ">" << t << " "; }
    files(n, m); D.save(dn); meta(D, dn + "/metadata"); for (size_t i = 0; i < n; i++) { SC b(dn + "/node" + std::to_string(i)); sc_eq(xs[i], b, "node"); } for (size_t e = 0; e < m; e++) { std::string fe = dn + "/edge" + std::to_string(e); CMap g(fe); map_eq(ms[e], g, "edge"); } }
  else { typedef ColumnMatrix<SparseVector<Rational<int>>> M; bats::Diagram<M, M> D(n, m); for (size_t i = 0; i < n; i++) D.set_node(i, mat<M>(r)); for (size_t e = 0; e < m; e++) D.set_edge(e, r.r(0, n - 1), r.r(0, n - 1), mat<M>(r)); for (size_t i = 0; i < n; i++) C.desc << text(D.node_data(i)); files(n, m); D.save(dn); D.save(dn); meta(D, dn + "/metadata"); for (size_t i = 0; i < n; i++) { std::string f = dn + "/node" + std::to_string(i); M b(f); mat_eq(D.node_data(i), b, "node"); } for (size_t e = 0; e < m; e++) { std::string f = dn + "/edge" + std::to_string(e); M b(f); mat_eq(D.edge_data(e), b, "edge"); } }
  C.nontrivial(); C.count("diagrams");
}
template <class T> void cloud(Case &C) {
  Rng &r = C.rng; size_t n = r.r(0, r.chance(.02) ? 400 : 7), q = r.r(1, r.chance(.02) ? 300 : 5); std::vector<std::vector<T>> x(n, std::vector<T>(q)); for (auto &p : x) for (auto &v : p) v = r.chance(.3) ? T(r.r(-5, 5)) : T(r.chance(.1) ? Val<double>::any(r) : 20 * r.u01() - 10); bool head = r.chance(.3), tail = r.chance(.7), trail = r.chance(.3), sparse = r.chance(.2); std::ostringstream o; o.precision(17); if (head) o << "a,b,c\n"; for (size_t i = 0; i < n; i++) { for (size_t k = 0; k < q; k++) o << (k ? "," : "") << x[i][k]; if (trail) o << ","; if (i + 1 < n || tail) o << "\n"; if (sparse && i + 1 == n && tail) o << "\n"; }
  C.desc << o.str(); Dir d; std::string f = d("p.csv"); { std::ofstream s(f); s << o.str(); } auto M = bats::read_point_cloud<T>(f, head); bats::DataSet<T> D(M); REQUIRE(D.size() == n && (n == 0 || D.dim() == q), "shape", D.size() << " points of dimension " << D.dim() << " expected " << n << " of " << q); for (size_t i = 0; i < n; i++) for (size_t k = 0; k < q; k++) { REQUIRE(D(i, k) == x[i][k], "coordinate", "point " << i << " coordinate " << k << " is " << D(i, k) << " expected " << x[i][k]); REQUIRE(D[i](k) == x[i][k], "row-view", i << "," << k); } C.count("clouds");
}
FAMILY(point_clouds, 800, 16000) { if (C.idx % 3) cloud<double>(C); else cloud<float>(C); C.nontrivial(); }
// command line options "name=value": the first matching argument wins, anything else is the default
FAMILY(options, 600, 12000) {
  Rng &r = C.rng; static const char *names[] = {"n", "nn", "eps", "ep", "max_dim", "name", "", "n "}; static const char *vals[] = {"a", "", "x=y", "=", "hello world", "3", "file.txt", "-"};
  std::vector<std::string> a{r.chance(.5) ? "prog" : "n=99"}; std::vector<std::pair<std::string, double>> nums; std::vector<std::pair<std::string, std::string>> strs; bool numeric = r.chance(.6);
  for (size_t k = r.r(0, 8); k--;) { std::string n = names[r.r(0, 7)]; if (numeric) { double v = r.chance(.5) ? double(r.r(-1000, 1000)) : std::ldexp(double(r.r(-4096, 4096)), -int(r.r(0, 8))); std::ostringstream o; o.precision(17); o << v; a.push_back(n + "=" + o.str()); nums.push_back({n, v}); } else { std::string v = vals[r.r(0, 7)]; a.push_back(n + "=" + v); strs.push_back({n, v}); } }
  std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); for (auto &x : a) C.desc << "[" << x << "] "; C.nontrivial();
  for (int q = 0; q < 7; q++) { if (q == 6) continue; std::string t = names[q];
    if (numeric) { double want = -7; for (auto &p : nums) if (p.first == t) { want = p.second; break; }
      double d = bats::util::io::parse_argv<double>(int(av.size()), av.data(), std::string(t), -7.0); REQUIRE(d == want, "double", t << " is " << d << " expected " << want);
      int i = bats::util::io::parse_argv<int>(int(av.size()), av.data(), std::string(t), -7); REQUIRE(i == int(want), "int", t << " is " << i << " expected " << int(want));
      if (want >= 0) { size_t z = bats::util::io::parse_argv<size_t>(int(av.size()), av.data(), std::string(t), size_t(5)); REQUIRE(z == size_t(want), "size", t << " is " << z << " expected " << size_t(want)); } }
    else { std::string want = "dflt"; for (auto &p : strs) if (p.first == t) { want = p.second; break; } std::string g = bats::util::io::parse_argv(int(av.size()), av.data(), std::string(t), std::string("dflt")); REQUIRE(g == want, "string", t << " is '" << g << "' expected '" << want << "'"); } }
  C.count("options");
}
// lines of different lengths: an error or any matrix, but no stray writes
FAMILY(ragged_clouds, 150, 2000) { Rng &r = C.rng; std::ostringstream o; for (size_t n = r.r(1, 6); n--;) { size_t q = r.r(0, 6); for (size_t k = 0; k < q; k++) o << (k ? "," : "") << r.r(-9, 9); o << "\n"; } C.desc << o.str(); C.nontrivial(); Dir d; std::string f = d("p.csv"); { std::ofstream s(f); s << o.str(); } try { auto M = bats::read_point_cloud<double>(f); double t = 0; for (size_t i = 0; i < M.nrow(); i++) for (size_t k = 0; k < M.ncol(); k++) t += M(i, k); C.count(t == t ? "ragged" : "ragged-nan"); } catch (const std::runtime_error &) { C.count("ragged-refused"); } }
