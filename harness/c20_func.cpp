// C20: functors on diagrams: shape, node objects, edge maps, and the barcode of the resulting zigzag.
#include "chains.hpp"
#include <omp.h>
using namespace vh; using namespace bats;
typedef std::map<std::pair<size_t, size_t>, size_t> Ivl; typedef ChainMap<CM> Map; typedef ReducedChainComplex<CM> RC; typedef ReducedDGVectorSpace<CM> RD;
typedef std::vector<std::pair<size_t, size_t>> Edges;
static Ivl decomposition(const std::vector<size_t> &d, const std::vector<orc::Rel<K>> &step) {
  size_t n = d.size(); std::vector<std::vector<long>> rk(n, std::vector<long>(n, 0)); for (size_t a = 0; a < n; a++) { rk[a][a] = d[a]; if (!d[a]) continue; auto R = orc::rel_map(DM::I(d[a])); for (size_t b = a + 1; b < n; b++) { R = orc::compose(R, step[b - 1]); rk[a][b] = orc::rel_rank(R); if (!rk[a][b]) break; } }
  Ivl out; auto at = [&](long a, long b) { return a < 0 || b >= (long)n ? 0L : rk[a][b]; }; for (long a = 0; a < (long)n; a++) for (long b = a; b < (long)n; b++) { long m = at(a, b) - at(a - 1, b) - at(a, b + 1) + at(a - 1, b + 1); REQUIRE(m >= 0, "oracle", "negative multiplicity"); if (m) out[{a, b}] = m; } return out;
}
static std::string shi(const Ivl &v) { std::ostringstream o; for (auto &p : v) o << " " << p.second << "x[" << p.first.first << "," << p.first.second << "]"; return o.str(); }
struct Model { std::vector<std::vector<DM>> D; Edges e; std::vector<std::vector<DM>> f; bool zig; };   // boundaries per node, chain maps per edge
static DM at(const std::vector<DM> &v, size_t k, size_t r, size_t c) { return k < v.size() ? v[k] : DM(r, c); }
static size_t cells(const std::vector<DM> &D, size_t k) { return k < D.size() ? D[k].c : 0; }
static orc::HBasis<K> hb(const std::vector<DM> &D, size_t k) { if (k < D.size()) return orc::hbasis(D, k); orc::HBasis<K> h; h.B = h.R = DM(0, 0); return h; }
// the zigzag of homology by definition
static Ivl expected(const Model &M, size_t k, std::vector<size_t> *dims = nullptr, std::vector<size_t> *ranks = nullptr) {
  std::vector<orc::HBasis<K>> H; std::vector<size_t> d; for (auto &D : M.D) { H.push_back(hb(D, k)); d.push_back(H.back().R.c); } std::vector<orc::Rel<K>> st(M.D.size() ? M.D.size() - 1 : 0); std::vector<size_t> rk;
  for (size_t j = 0; j < M.e.size(); j++) { size_t s = M.e[j].first, t = M.e[j].second; DM m(d[t], d[s]); if (d[s] && d[t]) m = H[t].coords(at(M.f[j], k, cells(M.D[t], k), cells(M.D[s], k)) * H[s].R); rk.push_back(orc::rank(m)); if (M.zig) st[std::min(s, t)] = t < s ? orc::rel_inv(m) : orc::rel_map(m); }
  if (dims) *dims = d; if (ranks) *ranks = rk; return M.zig && !M.e.empty() ? decomposition(d, st) : Ivl();
}
// the dimension may be given as any integer type
template <class I, class D, class = void> struct TakesDim : std::false_type {};
template <class I, class D> struct TakesDim<I, D, std::void_t<decltype(Hom(std::declval<const D &>(), std::declval<I>()))>> : std::true_type {};
template <class I, class D, class H> bool hom_by(const D &d, size_t k, H &h) { if constexpr (TakesDim<I, D>::value) { h = Hom(d, (I)k); return true; } else return false; }
template <class D> auto hom(Rng &r, const D &d, size_t k) { decltype(Hom(d, k)) h(0, 0); switch (r.r(0, 3)) { case 0: REQUIRE((hom_by<int>(d, k, h)), "hom-int", "Hom(D, int) does not compile"); break; case 1: REQUIRE((hom_by<unsigned>(d, k, h)), "hom-unsigned", "Hom(D, unsigned) does not compile"); break; case 2: REQUIRE((hom_by<long>(d, k, h)), "hom-long", "Hom(D, long) does not compile"); break; default: h = Hom(d, k); } return h; }
template <class D> void shape(const D &d, size_t n, const Edges &e, const std::string &w, bool rev = false) { REQUIRE(d.nnode() == n && d.nedge() == e.size() && d.elist.size() == e.size() && d.edata.size() == e.size(), "shape", w << " has " << d.nnode() << " nodes and " << d.nedge() << " edges"); for (size_t j = 0; j < e.size(); j++) { size_t s = rev ? e[j].second : e[j].first, t = rev ? e[j].first : e[j].second; REQUIRE(d.edge_source(j) == s && d.edge_target(j) == t && d.elist[j].src == s && d.elist[j].targ == t, "edge-ends", w << " edge " << j << ": " << d.edge_source(j) << "->" << d.edge_target(j)); } }
static void same_bars(Case &C, const std::vector<PersistencePair<size_t>> &bars, const Ivl &want, size_t k, const std::string &w) { Ivl got; for (auto &b : bars) if (b.dim == k) got[{b.birth, b.death}]++; REQUIRE(got == want, "barcode", w << " dimension " << k << ":" << shi(got) << " expected" << shi(want)); C.count("zigzag_barcodes"); }
static DM cyc(const std::vector<DM> &D, size_t k) { return k ? orc::kernel(D[k]) : DM::I(D[0].c); }
static DM span(const DM &A, size_t n) { DM B = A.c ? orc::image(A) : DM(n, 0); if (B.c == 0) B = DM(n, 0); return B; }
static DM coords(const DM &B, const DM &R, const DM &Z) { DM X = orc::solve(hcat(B, R), Z), Y(R.c, Z.c); for (size_t i = 0; i < R.c; i++) for (size_t j = 0; j < Z.c; j++) Y(i, j) = X(B.c + i, j); return Y; }
template <class R> DM reps(const R &Z, size_t k, size_t n) { DM m(n, Z.hdim(k)); for (size_t j = 0; j < Z.hdim(k); j++) m.setcol(j, dense(Z.get_preferred_representative(j, k), n, "representative")); return m; }
// node: homology (deg -1) or cohomology (deg +1) of the model's node; edge: its induced map in the node's own representatives
template <class R> void hom_node(const R &Z, const std::vector<DM> &D, size_t k, int deg, const std::string &w) {
  size_t n = cells(D, k); auto b = orc::betti(D); REQUIRE(Z.hdim(k) == b[k], "node-rank", w << " dimension " << k << ": " << Z.hdim(k) << " expected " << b[k]); DM P = reps(Z, k, n); DM out = deg == -1 ? (k ? D[k] : DM(0, n)) : (k + 1 < D.size() ? D[k + 1].T() : DM(0, n)), in = deg == -1 ? (k + 1 < D.size() ? D[k + 1] : DM(n, 0)) : (k ? D[k].T() : DM(n, 0)); REQUIRE(P.c == 0 || out.r == 0 || (out * P).zero(), "representative", w); REQUIRE(orc::rank(hcat(span(in, n), P)) == span(in, n).c + P.c, "representative", w);
}
template <class R> void hom_edge(const CM &E, const R &S, const R &T, const std::vector<DM> &DS, const std::vector<DM> &DT, const DM &f, size_t k, int deg, const std::string &w) {
  DM m = dense(E, w); size_t ns = cells(DS, k), nt = cells(DT, k); DM PS = reps(S, k, ns), PT = reps(T, k, nt); DM in = deg == -1 ? (k + 1 < DT.size() ? DT[k + 1] : DM(nt, 0)) : (k ? DT[k].T() : DM(nt, 0)); DM want = PS.c ? coords(span(in, nt), PT, f * PS) : DM(PT.c, 0); REQUIRE(m == want, "edge-map", w << " dimension " << k << ": " << m.str() << " expected " << want.str());
}
static void threads(Rng &r) { omp_set_num_threads(r.pick(std::vector<int>{1, 2, 3, 4, 8})); }
template <class DT> void functors(Case &C, const DT &D, const Model &M, size_t md) {
  Rng &r = C.rng; threads(r); auto CD = r.chance(.5) ? ChainFunctor<CM>(D) : ChainFunctor(D, F()); shape(CD, M.D.size(), M.e, "Chain"); for (size_t i = 0; i < M.D.size(); i++) { REQUIRE(CD.node[i].maxdim() == md, "node-maxdim", "Chain node " << i); for (size_t k = 0; k <= md; k++) { REQUIRE(CD.node[i].dim(k) == cells(M.D[i], k), "node-dim", "Chain node " << i); if (k) REQUIRE(dense(CD.node[i][k]) == M.D[i][k], "node-boundary", "Chain node " << i << " dimension " << k); } } for (size_t j = 0; j < M.e.size(); j++) for (size_t k = 0; k <= md; k++) REQUIRE(dense(CD.edata[j][k]) == M.f[j][k], "chain-edge-map", "edge " << j << " dimension " << k); C.count("chain_diagrams");
  for (size_t k = 0; k <= md; k++) { if (!r.chance(.6)) continue; threads(r); auto H = hom(r, CD, k); std::string w = "Hom " + std::to_string(k); shape(H, M.D.size(), M.e, w); for (size_t i = 0; i < M.D.size(); i++) hom_node(H.node[i], M.D[i], k, -1, w); for (size_t j = 0; j < M.e.size(); j++) { size_t s = M.e[j].first, t = M.e[j].second; hom_edge(H.edata[j], H.node[s], H.node[t], M.D[s], M.D[t], M.f[j][k], k, -1, w + " edge " + std::to_string(j)); C.count("hom_edges"); } if (M.zig && !M.e.empty()) { auto want = expected(M, k); threads(r); same_bars(C, barcode(H, k), want, k, w); same_bars(C, barcode(H, k, flags::leftward()), want, k, w + " leftward"); } }
  for (bool top : {false, true}) { size_t nd = md + (top ? 1 : 0); if (nd == 0) { MUST_THROW(Hom(CD, top), "nothing-to-compute", "no exception"); continue; } if (M.e.empty()) continue; threads(r); auto H = Hom(CD, top); std::string w = top ? "Hom with top" : "Hom"; shape(H, M.D.size(), M.e, w); for (size_t j = 0; j < M.e.size(); j++) { size_t s = M.e[j].first, t = M.e[j].second; REQUIRE(H.edata[j].size() == nd, "dimensions", w); for (size_t k = 0; k < nd; k++) hom_edge(H.edata[j][k], H.node[s], H.node[t], M.D[s], M.D[t], M.f[j][k], k, -1, w); } if (M.zig) { auto b = barcode(H); for (size_t k = 0; k < nd; k++) same_bars(C, b, expected(M, k), k, w); for (auto &p : b) REQUIRE(p.dim < nd, "bar-dimension", w); } }
  for (int deg : {-1, +1}) { threads(r); auto G = DGLinearFunctor<CM>(D, deg); bool rev = deg == 1; std::string w = "DG degree " + std::to_string(deg); shape(G, M.D.size(), M.e, w, rev); for (size_t i = 0; i < M.D.size(); i++) { REQUIRE(G.node[i].maxdim() == md && G.node[i].degree == deg, "node-maxdim", w); for (size_t k = 1; k <= md; k++) REQUIRE(dense(G.node[i].differential[k]) == (rev ? M.D[i][k].T() : M.D[i][k]), "node-boundary", w << " node " << i << " dimension " << k); }
    for (size_t k = 0; k <= md; k++) { if (!r.chance(.5)) continue; threads(r); auto H = hom(r, G, k); shape(H, M.D.size(), M.e, w, rev); for (size_t i = 0; i < M.D.size(); i++) hom_node(H.node[i], M.D[i], k, deg, w); for (size_t j = 0; j < M.e.size(); j++) { size_t s = rev ? M.e[j].second : M.e[j].first, t = rev ? M.e[j].first : M.e[j].second; hom_edge(H.edata[j], H.node[s], H.node[t], M.D[s], M.D[t], rev ? M.f[j][k].T() : M.f[j][k], k, deg, w + " edge " + std::to_string(j)); C.count("hom_edges"); } if (M.zig && !M.e.empty()) same_bars(C, barcode(H, k), expected(M, k), k, w); }
    bool top = r.chance(.5); size_t nd = md + (top ? 1 : 0); if (nd == 0) MUST_THROW(Hom(G, top), "nothing-to-compute", "no exception"); else if (!M.e.empty()) { auto H = Hom(G, top); shape(H, M.D.size(), M.e, w, rev); for (size_t j = 0; j < M.e.size(); j++) { size_t s = rev ? M.e[j].second : M.e[j].first, t = rev ? M.e[j].first : M.e[j].second; REQUIRE(H.edata[j].size() == nd, "dimensions", w); for (size_t k = 0; k < nd; k++) hom_edge(H.edata[j][k], H.node[s], H.node[t], M.D[s], M.D[t], rev ? M.f[j][k].T() : M.f[j][k], k, deg, w); } if (M.zig) { auto b = barcode(H); for (size_t k = 0; k < nd; k++) same_bars(C, b, expected(M, k), k, w); } } }
  omp_set_num_threads(1);
}
template <class X> std::vector<DM> bounds(const X &x) { std::vector<DM> D; D.push_back(DM(0, x.ncells(0))); for (size_t k = 1; k <= x.maxdim(); k++) D.push_back(dense_csc(x.boundary_csc(k))); return D; }
template <class X> DM by_definition(const X &x, const X &y, size_t k, const std::vector<size_t> &f0) {
  size_t ny = k <= y.maxdim() ? y.ncells(k) : 0; DM m(ny, x.ncells(k)); std::map<sp::Sx, size_t> ix; for (size_t i = 0; i < ny; i++) ix[y.get_simplex(k, i)] = i;
  for (size_t j = 0; j < x.ncells(k); j++) { sp::Sx s = x.get_simplex(k, j); for (auto &v : s) v = f0[v]; int inv = 0; bool deg = false; for (size_t a = 0; a < s.size(); a++) for (size_t b = a + 1; b < s.size(); b++) { inv += s[a] > s[b]; deg |= s[a] == s[b]; } if (deg) continue; std::sort(s.begin(), s.end()); m(ix.at(s), j) = K(inv % 2 ? -1 : 1); } return m;
}
static Edges graph(Rng &r, size_t &n, bool zig) { Edges e; if (zig) { n = r.r(2, 7); int dir = r.r(0, 3); for (size_t i = 0; i + 1 < n; i++) { bool l = dir == 0 ? 0 : dir == 1 ? 1 : dir == 2 ? i % 2 : r.chance(.5); e.push_back(l ? std::make_pair(i + 1, i) : std::make_pair(i, i + 1)); } } else { n = r.r(1, 5); for (int m = r.r(0, 6); m--;) e.push_back({(size_t)r.r(0, n - 1), (size_t)r.r(0, n - 1)}); } return e; }
static sp::Sx img(const sp::Sx &s, const std::vector<size_t> &f) { std::set<size_t> t; for (auto v : s) t.insert(f[v]); return sp::Sx(t.begin(), t.end()); }
// nodes closed under the vertex maps, all of one dimension
static void spaces(Case &C, bool zig, std::vector<sp::Cpx> &node, Edges &e, std::vector<std::vector<size_t>> &f) {
  Rng &r = C.rng; size_t n; e = graph(r, n, zig); size_t nv = r.r(2, 6), off = nv; bool inc = r.chance(.3); for (size_t i = 0; i < n; i++) node.push_back(r.chance(.15) ? sp::circle(std::max<size_t>(nv, 3)) : sp::random(r, nv, r.r(0, 2), r.r(1, 5))); nv = std::max<size_t>(nv, 3); off = nv; for (size_t j = 0; j < e.size(); j++) { std::vector<size_t> g(nv); if (inc || r.chance(.2)) for (size_t i = 0; i < nv; i++) g[i] = i; else if (r.chance(.3)) g = r.perm(nv); else for (auto &v : g) v = r.r(0, nv - 1); f.push_back(g); }
  bool more = true; while (more) { more = false; for (size_t j = 0; j < e.size(); j++) { auto src = node[e[j].first]; for (auto &s : src.all) { auto t = img(s, f[j]); if (!node[e[j].second].all.count(t)) { node[e[j].second].add(t); more = true; } } } }
  size_t top = 0; bool same = true; for (auto &x : node) { same = same && x.dim() == node[0].dim(); top = std::max<size_t>(top, x.dim()); } if (!same) { sp::Sx s; for (size_t i = 0; i <= top; i++) s.push_back(off + i); for (auto &x : node) x.add(s); for (auto &g : f) for (size_t i = 0; i <= top; i++) g.push_back(off + i); }
  C.desc << n << " nodes"; for (size_t i = 0; i < n; i++) C.desc << " " << sp::show(node[i]); for (size_t j = 0; j < e.size(); j++) C.desc << " " << e[j].first << "->" << e[j].second << " by " << vh::show(f[j]);
}
template <class X> X build(Rng &r, const sp::Cpx &c); template <> SimplicialComplex build<SimplicialComplex>(Rng &r, const sp::Cpx &c) { return make_sc(r, c); } template <> LightSimplicialComplex<size_t> build<LightSimplicialComplex<size_t>>(Rng &r, const sp::Cpx &c) { return make_lc(r, c); }
template <class X> void cpx(Case &C, bool zig) {
  Rng &r = C.rng; std::vector<sp::Cpx> node; Edges e; std::vector<std::vector<size_t>> f; spaces(C, zig, node, e, f); size_t n = node.size(), md = node[0].dim(), tot = 0; for (auto &x : node) tot += x.all.size(); if (tot > 150) throw Skip(); C.nontrivial();
  Model M; M.e = e; M.zig = zig; std::vector<X> xs; for (auto &x : node) { xs.push_back(build<X>(r, x)); M.D.push_back(bounds(xs.back())); } Diagram<X, CellularMap> D; bool pre = r.chance(.5); if (pre) { D = Diagram<X, CellularMap>(n, e.size()); for (size_t i = 0; i < n; i++) D.set_node(i, xs[i]); } else for (auto &x : xs) D.add_node(x);
  for (size_t j = 0; j < e.size(); j++) { auto g = SimplicialMap(xs[e[j].first], xs[e[j].second], f[j]); if (pre) D.set_edge(j, e[j].first, e[j].second, g); else D.add_edge(e[j].first, e[j].second, g); std::vector<DM> m; for (size_t k = 0; k <= md; k++) m.push_back(by_definition(xs[e[j].first], xs[e[j].second], k, f[j])); M.f.push_back(m); } shape(D, n, e, "diagram"); functors(C, D, M, md);
}
FAMILY(zigzags, 120, 2000) { cpx<SimplicialComplex>(C, true); }
FAMILY(graphs, 60, 1000) { cpx<SimplicialComplex>(C, false); }
FAMILY(light, 60, 1000) { cpx<LightSimplicialComplex<size_t>>(C, C.rng.chance(.7)); }
static std::set<sp::Sx> simplices(const SimplicialComplex &x) { std::set<sp::Sx> s; for (size_t k = 0; k <= x.maxdim(); k++) for (size_t i = 0; i < x.ncells(k); i++) REQUIRE(s.insert(x.get_simplex(k, i)).second, "simplex-twice", k); return s; }
static std::set<sp::Sx> nerve(const Cover &U, size_t dmax) { std::set<sp::Sx> out; std::function<void(sp::Sx, std::set<size_t>, size_t)> go = [&](sp::Sx s, std::set<size_t> I, size_t from) { if (!s.empty()) out.insert(s); if (s.size() == dmax + 1) return; for (size_t j = from; j < U.size(); j++) { std::set<size_t> J; if (s.empty()) J = U[j]; else for (auto v : I) if (U[j].count(v)) J.insert(v); if (!s.empty() && J.empty()) continue; auto t = s; t.push_back(j); go(t, J, j + 1); } }; go({}, {}, 0); return out; }
FAMILY(nerves, 100, 1500) {
  Rng &r = C.rng; size_t n, N = r.r(1, 7); bool zig = r.chance(.7); Edges e; if (zig) e = graph(r, n, true); else { n = r.r(1, 5); for (int m = r.r(0, 6); m--;) { size_t a = r.r(0, n - 1), b = r.r(0, n - 1); if (a < b) e.push_back({a, b}); } } size_t dmax = r.r(1, 3); std::vector<Cover> U(n); std::vector<std::vector<size_t>> f(e.size());
  for (auto &u : U) { size_t k = r.r(1, 4); u.resize(k); for (auto &s : u) { s.insert(r.r(0, N - 1)); for (int t = r.r(0, 2); t--;) s.insert(r.r(0, N - 1)); } }
  for (size_t j = 0; j < e.size(); j++) for (size_t i = 0; i < U[e[j].first].size(); i++) f[j].push_back(r.r(0, U[e[j].second].size() - 1)); bool more = true; while (more) { more = false; for (size_t j = 0; j < e.size(); j++) for (size_t i = 0; i < f[j].size(); i++) for (auto v : U[e[j].first][i]) more = U[e[j].second][f[j][i]].insert(v).second || more; }
  for (auto &u : U) { C.desc << " {"; for (auto &s : u) C.desc << vh::show(s); C.desc << "}"; } for (size_t j = 0; j < e.size(); j++) C.desc << " " << e[j].first << "->" << e[j].second << vh::show(f[j]); C.desc << " dmax " << dmax; C.nontrivial();
  Diagram<Cover, std::vector<size_t>> D(n, e.size()); for (size_t i = 0; i < n; i++) D.set_node(i, U[i]); for (size_t j = 0; j < e.size(); j++) D.set_edge(j, e[j].first, e[j].second, f[j]); threads(r); auto T = Nerve(D, dmax); shape(T, n, e, "Nerve"); Model M; M.e = e; M.zig = zig;
  for (size_t i = 0; i < n; i++) { REQUIRE(simplices(T.node[i]) == nerve(U[i], dmax), "nerve", "node " << i); M.D.push_back(bounds(T.node[i])); } size_t md = T.node[0].maxdim(); for (auto &x : T.node) if (x.maxdim() != md) { C.count("unequal_dimensions"); md = NO_IND; break; }
  for (size_t j = 0; j < e.size(); j++) { auto &x = T.node[e[j].first], &y = T.node[e[j].second]; Map G(T.edata[j]); std::vector<DM> m; for (size_t k = 0; k <= x.maxdim(); k++) { m.push_back(by_definition(x, y, k, f[j])); REQUIRE(dense(G[k]) == m[k], "nerve-map", "edge " << j << " dimension " << k); } M.f.push_back(m); } if (md != NO_IND) functors(C, T, M, md); omp_set_num_threads(1);
}
FAMILY(rips, 120, 1800) {
  Rng &r = C.rng; size_t n; bool zig = r.chance(.7); Edges e; if (zig) e = graph(r, n, true); else { n = r.r(1, 5); for (int m = r.r(0, 6); m--;) { size_t a = r.r(0, n - 1), b = r.r(0, n - 1); if (a != b) e.push_back({a, b}); } } size_t N = r.r(1, 9), d = r.r(1, 3), dmax = r.r(1, 3); bool lat = r.chance(.5); bats::Matrix<double> P0(N, d); for (size_t i = 0; i < N; i++) for (size_t j = 0; j < d; j++) P0(i, j) = lat ? r.r(0, 2) : r.u(0, 2); DataSet<double> X(P0);
  std::vector<std::set<size_t>> S(n); for (auto &s : S) { s.insert(r.r(0, N - 1)); for (size_t v = 0; v < N; v++) if (r.chance(.4)) s.insert(v); } std::vector<double> rm(n); bool one = r.chance(.4); double r0 = lat ? r.r(0, 3) : r.u(0, 2); for (auto &x : rm) x = one ? r0 : lat ? r.r(0, 3) : r.u(0, 2);
  bool more = true; while (more) { more = false; for (auto &p : e) { for (auto v : S[p.first]) more = S[p.second].insert(v).second || more; if (rm[p.second] < rm[p.first]) { rm[p.second] = rm[p.first]; more = true; } } } std::vector<std::vector<size_t>> f; for (auto &p : e) { std::vector<size_t> g; for (auto v : S[p.first]) g.push_back(std::distance(S[p.second].begin(), S[p.second].find(v))); f.push_back(g); }
  C.desc << "points"; for (size_t i = 0; i < N; i++) { C.desc << " ("; for (size_t j = 0; j < d; j++) C.desc << P0(i, j) << " "; C.desc << ")"; } for (size_t i = 0; i < n; i++) C.desc << " " << vh::show(S[i]) << "@" << rm[i]; for (auto &p : e) C.desc << " " << p.first << "->" << p.second; C.desc << " dmax " << dmax; C.nontrivial();
  Diagram<std::set<size_t>, std::vector<size_t>> D(n, e.size()); for (size_t i = 0; i < n; i++) D.set_node(i, S[i]); for (size_t j = 0; j < e.size(); j++) D.set_edge(j, e[j].first, e[j].second, f[j]); int met = r.r(0, 2);
  auto all = [&](auto dist) { auto sub = [&](size_t i) { bats::Matrix<double> Q(S[i].size(), d); size_t a = 0; for (auto v : S[i]) { for (size_t j = 0; j < d; j++) Q(a, j) = P0(v, j); a++; } return DataSet<double>(Q); }; auto node = [&](size_t i, size_t dm) { auto Q = sub(i); return RipsComplex<SimplicialComplex>(Q, dist, rm[i], dm); };
    threads(r); auto T = one && r.chance(.6) ? Rips(D, X, dist, r0, dmax) : Rips(D, X, dist, rm, dmax); shape(T, n, e, "Rips"); Model M; M.e = e; M.zig = zig; size_t md = T.node[0].maxdim(); for (size_t i = 0; i < n; i++) { auto w = node(i, dmax); REQUIRE(simplices(T.node[i]) == simplices(w), "rips-node", i); M.D.push_back(bounds(T.node[i])); if (T.node[i].maxdim() != md) md = NO_IND; }
    for (size_t j = 0; j < e.size(); j++) { auto &x = T.node[e[j].first], &y = T.node[e[j].second]; Map G(T.edata[j]); std::vector<DM> m; for (size_t k = 0; k <= x.maxdim(); k++) { m.push_back(by_definition(x, y, k, f[j])); REQUIRE(dense(G[k]) == m[k], "rips-map", "edge " << j << " dimension " << k); } M.f.push_back(m); } if (md != NO_IND) functors(C, T, M, md); else C.count("unequal_dimensions");
    size_t hd = r.r(0, dmax - 1); threads(r); auto H = RipsHom(D, X, dist, rm, hd, F()); std::string w = "RipsHom " + std::to_string(hd); shape(H, n, e, w); Model N2; N2.e = e; N2.zig = zig; std::vector<SimplicialComplex> xs; for (size_t i = 0; i < n; i++) { xs.push_back(node(i, hd + 1)); N2.D.push_back(bounds(xs.back())); } for (size_t j = 0; j < e.size(); j++) { std::vector<DM> m; for (size_t k = 0; k <= xs[e[j].first].maxdim(); k++) m.push_back(by_definition(xs[e[j].first], xs[e[j].second], k, f[j])); N2.f.push_back(m); }
    std::vector<size_t> dims, ranks; auto want = expected(N2, hd, &dims, &ranks); std::vector<char> touched(n, 0); for (size_t j = 0; j < e.size(); j++) { touched[e[j].first] = touched[e[j].second] = 1; DM m = dense(H.edata[j], w); REQUIRE(m.r == dims[e[j].second] && m.c == dims[e[j].first] && orc::rank(m) == ranks[j], "riphom-edge", w << " edge " << j << " " << m.str() << " expected rank " << ranks[j]); } for (size_t i = 0; i < n; i++) if (touched[i]) REQUIRE(H.node[i] == dims[i], "riphom-node", w << " node " << i); if (zig) same_bars(C, barcode(H, hd), want, hd, w);
    // radii that decrease along an arrow are refused
    if (!e.empty() && r.chance(.3)) { auto bad = rm; size_t j = r.r(0, e.size() - 1); bad[e[j].first] = bad[e[j].second] + 1; MUST_THROW(Rips(D, X, dist, bad, dmax), "decreasing-radius", "accepted"); MUST_THROW(RipsHom(D, X, dist, bad, hd, F()), "decreasing-radius", "accepted"); C.count("refused"); } };
  if (met == 0) all(Euclidean()); else if (met == 1) all(L1Dist()); else all(LInfDist()); omp_set_num_threads(1);
}
// the zigzags of Oudot and Sheehy: prefixes of the landmark sequence, their unions and the radii
static std::vector<size_t> selected(const std::vector<double> &h, double rho, double theta, bool &tie) {
  long double eta = (3.0L * rho + 20) / (10.0L * theta * rho + 20), last = h[0]; std::vector<size_t> s{0}; for (size_t i = 1; i < h.size(); i++) { if (h[i] > 0 && std::abs(h[i] - eta * last) < 1e-12L * last) tie = true; if (h[i] <= eta * last) { s.push_back(i); last = h[i]; } } return s;
}
template <class DT> void zoo_diagram(Case &C, const DT &D, const std::vector<double> &rm, const std::vector<size_t> &inds, const std::vector<size_t> &size, const std::vector<double> &even, const std::vector<double> &odd, const std::string &w) {
  size_t n = size.size(); Edges e; for (size_t i = 0; i + 1 < n; i++) { e.push_back({2 * i, 2 * i + 1}); e.push_back({2 * i + 2, 2 * i + 1}); } shape(D, 2 * n - 1, e, w); REQUIRE(rm.size() == 2 * n - 1, "radii", w << ": " << rm.size() << " radii for " << 2 * n - 1 << " nodes");
  auto prefix = [&](size_t k) { return std::set<size_t>(inds.begin(), inds.begin() + k); }; std::vector<std::vector<size_t>> S;
  for (size_t j = 0; j < 2 * n - 1; j++) { size_t i = (j + 1) / 2; auto want = prefix(size[i]); REQUIRE(D.node[j] == want, "set", w << " node " << j); double r = j % 2 ? odd[i] : even[i]; REQUIRE(std::abs(rm[j] - r) <= 4e-16 * r, "radius", w << " node " << j << ": " << rm[j] << " expected " << r); S.push_back(std::vector<size_t>(want.begin(), want.end())); }
  for (size_t j = 0; j < e.size(); j++) { auto &a = S[e[j].first], &b = S[e[j].second]; auto &f = D.edata[j]; REQUIRE(f.size() == a.size(), "map", w << " edge " << j << ": " << f.size() << " of " << a.size()); for (size_t i = 0; i < a.size(); i++) REQUIRE(f[i] < b.size() && b[f[i]] == a[i], "map", w << " edge " << j << " at " << i); C.count("zoo_edges"); }
}
FAMILY(zoo, 150, 2500) {
  Rng &r = C.rng; { size_t m = r.r(1, 30); std::vector<double> h(m); for (auto &x : h) x = r.chance(.1) ? 0 : r.chance(.2) ? r.r(1, 4) : r.u(0, 3); std::sort(h.rbegin(), h.rend()); double rho = r.u(1, 20), th = r.u(.5, .707); bool tie = false; auto want = selected(h, rho, th, tie); if (!tie) { auto got = get_dM_ZZ_inds(h, rho, th); REQUIRE(got == want, "selection", vh::show(got) << " expected " << vh::show(want)); C.count("selections"); } }
  size_t N = r.r(1, 11), d = r.r(1, 3); bool lat = r.chance(.3); bats::Matrix<double> P0(N, d); C.desc << "points"; for (size_t i = 0; i < N; i++) { C.desc << " ("; for (size_t j = 0; j < d; j++) { P0(i, j) = lat ? r.r(0, 3) : r.u(-1, 1); C.desc << P0(i, j) << " "; } C.desc << ")"; } DataSet<double> X(P0); double rho = r.u(1, 12), eta = r.chance(.1) ? rho : r.u(.2, 1) * rho; C.desc << " rho " << rho << " eta " << eta; C.nontrivial();
  auto all = [&](auto dist) {
    size_t c = approx_center(X, dist); auto [inds, hds] = greedy_landmarks_hausdorff(X, dist, c); std::vector<double> h(inds.size(), 0); for (size_t k = 0; k < inds.size(); k++) for (size_t i = 0; i < N; i++) { double m = std::numeric_limits<double>::infinity(); for (size_t a = 0; a <= k; a++) m = std::min(m, (double) dist(X[inds[a]], X[i])); h[k] = std::max(h[k], m); }
    threads(r); { auto [D, rm] = OscillatingRipsZigzagSets(X, dist, rho, eta); std::vector<size_t> size; std::vector<double> ev, od; for (size_t i = 0; i < inds.size(); i++) { size.push_back(i + 1); ev.push_back(eta * h[i]); od.push_back(i ? rho * h[i - 1] : 0); } zoo_diagram(C, D, rm, inds, size, ev, od, "oscillating"); }
    MUST_THROW(OscillatingRipsZigzagSets(X, dist, rho, rho * 1.5), "eta-above-rho", "accepted");
    bool tie = false; auto sel = selected(h, rho, std::sqrt(double(d) / (2 * d + 1)), tie); if (tie) { C.count("zoo_ties"); return; } std::vector<size_t> size; std::vector<double> ev, od; for (size_t i = 0; i < sel.size(); i++) { size.push_back(sel[i] + 1); ev.push_back(rho * h[sel[i]]); od.push_back(i ? rho * h[sel[i - 1]] : 0); }
    { auto [D, rm] = DiscreteMorozovZigzagSets(X, dist, rho); zoo_diagram(C, D, rm, inds, size, ev, od, "Morozov"); }
    size_t dmax = r.r(1, 2); auto [T, rm] = DiscreteMorozovZigzag(X, dist, rho, dmax); size_t n = size.size(); REQUIRE(T.nnode() == 2 * n - 1 && T.nedge() == 2 * n - 2 && rm.size() == 2 * n - 1, "shape", "Morozov of complexes");
    auto pts = [&](size_t j) { size_t k = size[(j + 1) / 2]; std::vector<size_t> s(inds.begin(), inds.begin() + k); std::sort(s.begin(), s.end()); return s; };
    for (size_t j = 0; j < 2 * n - 1; j++) { auto s = pts(j); std::set<sp::Sx> want; std::function<void(sp::Sx, size_t)> go = [&](sp::Sx t, size_t from) { if (!t.empty()) want.insert(t); if (t.size() == dmax + 1) return; for (size_t v = from; v < s.size(); v++) { bool ok = true; for (auto u : t) ok = ok && dist(X[s[u]], X[s[v]]) <= rm[j]; if (ok) { auto q = t; q.push_back(v); go(q, v + 1); } } }; go({}, 0); REQUIRE(simplices(T.node[j]) == want, "Morozov-complex", "node " << j); }
    for (size_t j = 0; j + 1 < 2 * n; j++) { if (j >= T.nedge()) break; auto &x = T.node[T.elist[j].src], &y = T.node[T.elist[j].targ]; auto a = pts(T.elist[j].src), b = pts(T.elist[j].targ); std::vector<size_t> f; for (auto v : a) f.push_back(std::lower_bound(b.begin(), b.end(), v) - b.begin()); Map G(T.edata[j]); for (size_t k = 0; k <= x.maxdim(); k++) REQUIRE(dense(G[k]) == by_definition(x, y, k, f), "Morozov-map", "edge " << j << " dimension " << k); C.count("zoo_complex_edges"); }
  };
  int met = r.r(0, 2); if (met == 0) all(Euclidean()); else if (met == 1) all(L1Dist()); else all(LInfDist()); omp_set_num_threads(1);
}
