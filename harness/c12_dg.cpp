// C12: differential graded spaces of degree -1 and +1.
#include "chains.hpp"
using namespace vh;
typedef bats::DGVectorSpace<CM> DG; typedef bats::ReducedDGVectorSpace<CM> RD; typedef bats::DGLinearMap<CM> DMap;
// differential in stored order, as the definition gives it: degree -1: d_0..d_md and a map from nothing; degree +1: the map into C^0, then the transposes
static std::vector<DM> layout(const std::vector<DM> &D, int deg, bool aug) {
  size_t md = D.size() - 1; std::vector<DM> L(md + 2); size_t n0 = D[0].c; DM one(1, n0); for (auto &x : one.a) x = K(1); DM none(0, n0); DM e = aug ? one : none; if (e.r == 0) e = DM(0, n0);
  L[0] = deg == -1 ? e : e.T(); if (deg == +1 && !aug) L[0] = DM(n0, 0);
  for (size_t k = 1; k <= md; k++) L[k] = deg == -1 ? D[k] : D[k].T(); L[md + 1] = deg == -1 ? DM(D[md].c, 0) : DM(0, D[md].c); return L;
}
static DG make(const std::vector<DM> &L, int deg) { std::vector<CM> v; for (auto &m : L) v.push_back(sparse(m)); return DG(v, deg); }
static const char *MODE[] = {"default", "standard", "extra", "divide-conquer", "standard basis", "extra basis", "divide-conquer basis", "clearing", "extra clearing", "clearing basis", "extra clearing basis", "compression", "extra compression", "divide-conquer clearing"};
static const int NM = 14; static bool has_basis(int m) { return m == 0 || (m >= 4 && m <= 6) || m == 9 || m == 10; }
static RD reduce(const DG &A, int m) {
  using namespace bats; typedef standard_reduction_flag S; typedef extra_reduction_flag X; typedef divide_conquer_flag V; typedef compute_basis_flag B; typedef clearing_flag Cl; typedef compression_flag Co;
  switch (m) { case 0: return RD(A); case 1: return RD(A, S()); case 2: return RD(A, X()); case 3: return RD(A, V()); case 4: return RD(A, S(), B()); case 5: return RD(A, X(), B()); case 6: return RD(A, V(), B()); case 7: return RD(A, S(), Cl()); case 8: return RD(A, X(), Cl()); case 9: return RD(A, S(), Cl(), B()); case 10: return RD(A, X(), Cl(), B()); case 11: return RD(A, S(), Co()); case 12: return RD(A, X(), Co()); default: return RD(A, V(), Cl()); }
}
static std::vector<size_t> ranks(const std::vector<DM> &D, bool aug) { auto b = orc::betti(D); if (aug && D[0].c) b[0]--; return b; }
static DM reps(const RD &R, size_t k, size_t n) { DM m(n, R.hdim(k)); for (size_t j = 0; j < R.hdim(k); j++) m.setcol(j, dense(R.get_preferred_representative(j, k), n, "representative")); return m; }
// cocycles/cycles and (co)boundaries of dimension k in layout L
static DM out_of(const std::vector<DM> &L, int deg, size_t k) { return L[deg == -1 ? k : k + 1]; }
static DM into(const std::vector<DM> &L, int deg, size_t k) { DM m = L[deg == -1 ? k + 1 : k]; return m; }
static DM span(const DM &A, size_t n) { DM B = A.c ? orc::image(A) : DM(n, 0); if (B.c == 0) B = DM(n, 0); return B; }
static DM coords(const DM &B, const DM &R, const DM &Z) { DM X = orc::solve(hcat(B, R), Z), Y(R.c, Z.c); for (size_t i = 0; i < R.c; i++) for (size_t j = 0; j < Z.c; j++) Y(i, j) = X(B.c + i, j); return Y; }
static void check(Case &C, const DG &A, const std::vector<DM> &L, int deg, const std::vector<size_t> &want, int m) {
  RD R = reduce(A, m); std::string w = std::string(MODE[m]) + " degree " + std::to_string(deg); size_t md = L.size() - 2; REQUIRE(R.degree == deg && R.maxdim() == md, "maxdim", w);
  for (size_t k = 0; k <= md; k++) { REQUIRE(R.dim(k) == (deg == -1 ? L[k].c : L[k + 1].c), "dim", w << " " << k); REQUIRE(R.hdim(k) == want[k] && R.betti(k) == want[k], "rank", w << " dimension " << k << ": " << R.hdim(k) << " expected " << want[k]); }
  for (size_t j = 0; j < L.size(); j++) { std::string z = w + " map " + std::to_string(j); SMx Rj = smx(R.R[j], z); REQUIRE(R.R[j].nrow() == L[j].r && Rj.size() == L[j].c, "R-shape", z); CM Dj = sparse(L[j]); SMx B = smx(Dj, z), W = B; auto p = textbook(W, L[j].r), q = std::vector<size_t>(L[j].r, bats::NO_IND);
    for (size_t c = 0; c < Rj.size(); c++) if (!Rj[c].empty()) { size_t i = Rj[c].rbegin()->first; REQUIRE(q[i] == bats::NO_IND, "not-reduced", z); q[i] = c; } REQUIRE(q == p, "pairing", z << " " << vh::show(q) << " expected " << vh::show(p)); REQUIRE(R.p2c[j] == p, "p2c", z);
    if (has_basis(m)) { SMx U = smx(R.U[j], z); REQUIRE(U.size() == L[j].c && R.U[j].nrow() == L[j].c, "U-shape", z); for (size_t c = 0; c < U.size(); c++) { REQUIRE(!U[c].empty() && U[c].rbegin()->first == c, "U-not-upper-triangular", z << " column " << c); REQUIRE(sapply(B, U[c]) == Rj[c], "BU!=R", z << " column " << c); } } }
  C.count("reductions");
  if (!has_basis(m)) return; Rng &r = C.rng;
  for (size_t k = 0; k <= md; k++) { size_t n = R.dim(k); if (!n) continue; DM P = reps(R, k, n), B = span(into(L, deg, k), n), O = out_of(L, deg, k), Z = O.r ? orc::kernel(O) : DM::I(n); std::string z = w + " dimension " + std::to_string(k);
    REQUIRE(O.r == 0 || (O * P).zero(), "representative-not-cycle", z); REQUIRE(orc::rank(hcat(B, P)) == B.c + P.c && B.c + P.c == Z.c, "representatives-span", z);
    for (int t = 0; t < 2; t++) { DV c(n, K(0)), b(n, K(0)); for (size_t j = 0; j < Z.c; j++) if (r.chance(.5)) for (size_t i = 0; i < n; i++) c[i] = c[i] + Z(i, j); for (size_t j = 0; j < B.c; j++) if (r.chance(.5)) for (size_t i = 0; i < n; i++) b[i] = b[i] + B(i, j);
      auto co = [&](const DV &v) { SV x = R.to_hom_basis(sparse(v), k); REQUIRE(dense(R.from_hom_basis(x, k), n) == v, "hom-basis-roundtrip", z); R.find_preferred_representative(x, k); DV y = dense(x, n), h; for (size_t j = 0; j < R.hdim(k); j++) h.push_back(y[R.I[deg == -1 ? k : k + 1][j]]); for (size_t i = 0; i < n; i++) if (!y[i].zero()) { auto &I = R.I[deg == -1 ? k : k + 1]; REQUIRE(std::count(I.begin(), I.end(), i), "not-preferred", z << " coordinate " << i); } return h; };
      DV cb = c; for (size_t i = 0; i < n; i++) cb[i] = cb[i] + b[i]; DV h = co(c), h2 = co(cb), h0 = co(b); DM zc(n, 1); zc.setcol(0, c); DM wt = coords(B, P, zc); for (size_t i = 0; i < P.c; i++) REQUIRE(h[i] == wt(i, 0) && h2[i] == h[i] && h0[i].zero(), "class-coordinates", z << " cycle " << vh::show(c) << " boundary " << vh::show(b));
      DV q = dense(R.chain_preferred_representative(sparse(c), k), n), d = c; for (size_t i = 0; i < n; i++) d[i] = d[i] - q[i]; REQUIRE(orc::in_span(B, d), "preferred-not-homologous", z << " " << vh::show(c)); C.count("classes"); } }
}
static void both(Case &C, const std::vector<DM> &D, bool aug) {
  auto want = ranks(D, aug); for (int deg : {-1, 1}) { auto L = layout(D, deg, aug); DG A = make(L, deg); for (int m = 0; m < NM; m++) check(C, A, L, deg, want, m);
    RD Z; Z.initialize(A); REQUIRE(Z.degree == deg && Z.maxdim() == D.size() - 1, "initialize", "degree " << deg); for (size_t k = 0; k < D.size(); k++) REQUIRE(Z.dim(k) == D[k].c, "initialize", "degree " << deg << " dimension " << k); for (size_t j = 0; j < L.size(); j++) REQUIRE(dense(Z.R[j]) == L[j] && dense(Z.U[j]) == DM::I(L[j].c), "initialize", j); }
}
FAMILY(reordered, 160, 3000) {
  Rng &r = C.rng; Src x = rand_src(r, 5); C.desc << x.show(); C.nontrivial(); auto D = x.D; for (int deg : {-1, 1}) { bool aug = r.chance(.3); { DM one(1, D[0].c); for (auto &e : one.a) e = K(1); aug = aug && D[0].c && (D.size() < 2 || (one * D[1]).zero()); } auto L = layout(D, deg, aug); size_t md = L.size() - 2; std::vector<std::vector<size_t>> pm(md + 1), ip(md + 1); for (size_t k = 0; k <= md; k++) { pm[k] = r.perm(D[k].c); ip[k].resize(pm[k].size()); for (size_t i = 0; i < pm[k].size(); i++) ip[k][pm[k][i]] = i; }
    // element i of the new basis of dimension k is element q[k][i] of the old one; map j goes from dimension (degree -1: j, degree +1: j - 1) to (j - 1, j)
    auto moved = [&](const std::vector<std::vector<size_t>> &q) { std::vector<DM> b; for (size_t j = 0; j < L.size(); j++) { DM m(L[j].r, L[j].c); long cd = deg == -1 ? (long)j : (long)j - 1, rd = deg == -1 ? (long)j - 1 : (long)j; auto at = [&](long d, size_t i) { return d < 0 || d > (long)md || q[d].size() <= i ? i : q[d][i]; }; for (size_t i = 0; i < m.r; i++) for (size_t c = 0; c < m.c; c++) m(i, c) = L[j](at(rd, i), at(cd, c)); b.push_back(m); } return b; };
    auto same = [&](const DG &A, const std::vector<DM> &w, const char *z) { REQUIRE(A.differential.size() == w.size() && A.degree == deg, "layout", z); for (size_t j = 0; j < w.size(); j++) { DM g = dense(A.differential[j], z); REQUIRE(g.r == w[j].r && g.c == w[j].c && g == w[j], "reordered", z << " degree " << deg << " map " << j << "\n" << g.str() << "expected\n" << w[j].str()); } };
    DG A = make(L, deg), X = A; X.ipermute_basis(pm); same(X, moved(pm), "ipermute_basis"); { DG Y = A; Y.permute_basis(pm); same(Y, moved(ip), "permute_basis"); Y.ipermute_basis(pm); same(Y, L, "there and back"); } auto want = ranks(D, aug); RD R = reduce(X, r.r(0, NM - 1)); for (size_t k = 0; k <= md; k++) REQUIRE(R.hdim(k) == want[k], "rank", "reordered, dimension " << k << ": " << R.hdim(k) << " expected " << want[k]); C.count("reorderings");
    std::vector<CM> v; std::vector<DM> d; for (size_t k = 0; k <= md; k++) { size_t c = pm[k].size(); DM m(c, c); for (auto &e : m.a) if (r.chance(.4)) e = randK(r); d.push_back(m); v.push_back(sparse(m)); } DMap M(v); for (size_t k = 0; k <= md; k++) { bool first = r.chance(.5); if (first) M.permute_row_basis(k, pm[k]); M.permute_column_basis(k, pm[k]); if (!first) M.permute_row_basis(k, pm[k]); size_t c = pm[k].size(); DM z(c, c); for (size_t i = 0; i < c; i++) for (size_t j = 0; j < c; j++) z(pm[k][i], pm[k][j]) = d[k](i, j); REQUIRE(dense(M[k]) == z, "map-reordered", "dimension " << k); } }
}
FAMILY(random, 120, 1800) { Src s = rand_src(C.rng); C.desc << s.show(); if (s.cells() > 2) C.nontrivial(); both(C, s.D, false); }
template <class X> std::vector<DM> bounds(const X &x) { std::vector<DM> D; D.push_back(DM(0, x.ncells(0))); for (size_t k = 1; k <= x.maxdim(); k++) D.push_back(dense_csc(x.boundary_csc(k))); return D; }
template <class X> void complex(Case &C, const X &x) {
  auto D = bounds(x); size_t md = x.maxdim(); for (bool aug : {false, true}) for (int deg : {-1, 1}) { DG A(x, deg, aug); auto L = layout(D, deg, aug); REQUIRE(A.degree == deg && (size_t)A.maxdim() == md && A.differential.size() == L.size(), "layout", "degree " << deg);
    for (size_t j = 0; j < L.size(); j++) REQUIRE(dense(A.differential[j], "differential") == L[j], "differential", "degree " << deg << " augmented " << aug << " map " << j << ": " << dense(A.differential[j]).str() << " expected " << L[j].str());
    for (size_t k = 0; k <= md; k++) { REQUIRE(A.dim(k) == x.ncells(k), "dim", k); REQUIRE(dense(A[k]) == out_of(L, deg, k), "map-index", "degree " << deg << " dimension " << k); } for (size_t k = deg == -1 ? 1 : 0; k <= md; k++) REQUIRE(A.is_differential(k), "is_differential", "degree " << deg << " " << k);
    auto want = ranks(D, aug); for (int t = 0; t < 3; t++) check(C, A, L, deg, want, C.rng.r(0, NM - 1)); }
  MUST_THROW(DG(x, 2, false), "bad-degree", "degree 2 accepted");
}
FAMILY(complexes, 250, 3000) {
  Rng &r = C.rng; switch (r.r(0, 3)) { case 0: { auto x = sp::random_space(r); C.desc << "trie " << sp::show(x); C.nontrivial(); complex(C, make_sc(r, x)); break; } case 1: { auto x = sp::random_space(r); C.desc << "light " << sp::show(x); C.nontrivial(); complex(C, make_lc(r, x)); break; } case 2: { std::string d; auto q = make_cc(r, d); C.desc << d; C.nontrivial(); complex(C, q); break; } default: { std::string d; auto q = make_cell(r, d); C.desc << d; C.nontrivial(); complex(C, q); } }
}
// induced maps in both degrees
static std::vector<DM> induced(Case &C, const DMap &F, const std::vector<DM> &Fd, const RD &A, const RD &B, const std::vector<DM> &LA, const std::vector<DM> &LB, int deg, const std::string &w) {
  std::vector<DM> o; for (size_t k = 0; k < Fd.size(); k++) { DM m = dense(bats::induced_map(F, A, B, k), w); size_t na = A.dim(k), nb = B.dim(k); DM PA = reps(A, k, na), PB = reps(B, k, nb); REQUIRE(m.r == PB.c && m.c == PA.c, "induced-shape", w); DM want = PA.c ? coords(span(into(LB, deg, k), nb), PB, Fd[k] * PA) : DM(PB.c, 0); REQUIRE(m == want, "induced-map", w << " degree " << deg << " dimension " << k << " got " << m.str() << " expected " << want.str()); o.push_back(m); C.count("induced_maps"); } return o;
}
static int bm(Rng &r) { int m; do m = r.r(0, NM - 1); while (!has_basis(m)); return m; }
FAMILY(maps, 200, 2500) {
  Rng &r = C.rng; auto a = r.chance(.5) ? sp::random_space(r) : sp::random(r, r.r(3, 7), r.r(1, 2), r.r(4, 10)); size_t nv = a.nv(), nw = r.r(2, 7); std::vector<size_t> f0(nv); for (auto &v : f0) v = r.r(0, nw - 1); if (r.chance(.5)) { nw = nv; for (size_t i = 0; i < nv; i++) f0[i] = r.chance(.8) ? i : r.r(0, nv - 1); }
  sp::Cpx b; for (auto s : a.all) { std::set<size_t> t; for (auto v : s) t.insert(f0[v]); b.add(sp::Sx(t.begin(), t.end())); } size_t md = a.dim(); if (b.dim() < (int)md) { sp::Sx s; for (size_t i = 0; i <= md; i++) s.push_back(i); b.add(s); } if (r.chance(.5)) b = sp::unite(b, sp::random(r, nw, std::min<size_t>(md, 2), r.r(0, 4))); if (b.dim() > (int)md) b = b.skeleton(md);
  bool aug = r.chance(.4); C.desc << sp::show(a) << " -> " << sp::show(b) << " by " << show(f0) << (aug ? " augmented" : ""); C.nontrivial(); auto X = make_sc(r, a), Y = make_sc(r, b); auto f = bats::SimplicialMap(X, Y, f0); auto DX = bounds(X), DY = bounds(Y);
  std::vector<DM> Fd; bats::ChainMap<CM> cf(f); for (size_t k = 0; k <= md; k++) Fd.push_back(dense(cf[k])); std::vector<size_t> rk[2];
  for (int deg : {-1, 1}) { DMap F(f, deg); REQUIRE((size_t)F.maxdim() == md, "map-maxdim", deg); std::vector<DM> Fq; for (size_t k = 0; k <= md; k++) { Fq.push_back(deg == -1 ? Fd[k] : Fd[k].T()); REQUIRE(dense(F[k]) == Fq[k], "map-entries", "degree " << deg << " dimension " << k); }
    auto LX = layout(DX, deg, aug), LY = layout(DY, deg, aug); int m1 = bm(r), m2 = bm(r); C.desc << " " << MODE[m1] << "/" << MODE[m2]; RD RX = reduce(DG(X, deg, aug), m1), RY = reduce(DG(Y, deg, aug), m2);
    auto M = deg == -1 ? induced(C, F, Fq, RX, RY, LX, LY, deg, "homology") : induced(C, F, Fq, RY, RX, LY, LX, deg, "cohomology"); for (auto &q : M) rk[deg > 0].push_back(orc::rank(q)); 
    DMap I(bats::CellularMap::identity(X), deg); std::vector<DM> Id; for (size_t k = 0; k <= md; k++) Id.push_back(DM::I(X.ncells(k))); auto J = induced(C, I, Id, RX, RX, LX, LX, deg, "identity"); for (auto &q : J) REQUIRE(q == DM::I(q.r), "identity", deg);
    RD wrong = reduce(DG(Y, -deg, aug), 0); MUST_THROW(bats::induced_map(F, RX, wrong, 0), "degree-mismatch", ""); }
  REQUIRE(rk[0] == rk[1], "dual-rank", "homology map ranks " << vh::show(rk[0]) << " cohomology " << vh::show(rk[1]));
}
// random maps of random complexes, both degrees, composition
FAMILY(compose, 120, 1500) {
  Rng &r = C.rng; auto src = [&] { while (true) { Src s = rand_src(r, 6); if (s.cells() <= 12) return s; } }; Src a = src(), b = src(), c = src(); size_t top = std::min({a.D.size(), b.D.size(), c.D.size()}) - 1; auto F = rand_chain_map(r, a.D, b.D, top), G = rand_chain_map(r, b.D, c.D, top); for (auto *s : {&a, &b, &c}) { s->D.resize(top + 1); }
  C.desc << a.show() << " -> " << b.show() << " -> " << c.show(); for (auto &f : F) { C.desc << f.str(); if (!f.zero()) C.nontrivial(); }
  for (int deg : {-1, 1}) { auto mk = [&](const std::vector<DM> &f) { std::vector<CM> v; for (auto &m : f) v.push_back(sparse(deg == -1 ? m : m.T())); return DMap(v); }; auto dn = [&](const std::vector<DM> &f) { std::vector<DM> v; for (auto &m : f) v.push_back(deg == -1 ? m : m.T()); return v; }; std::vector<DM> GF; for (size_t k = 0; k <= top; k++) GF.push_back(G[k] * F[k]);
    auto La = layout(a.D, deg, false), Lb = layout(b.D, deg, false), Lc = layout(c.D, deg, false); RD A = reduce(make(La, deg), bm(r)), B = reduce(make(Lb, deg), bm(r)), E = reduce(make(Lc, deg), bm(r));
    std::vector<DM> f, g, h; if (deg == -1) { f = induced(C, mk(F), dn(F), A, B, La, Lb, deg, "F"); g = induced(C, mk(G), dn(G), B, E, Lb, Lc, deg, "G"); h = induced(C, mk(GF), dn(GF), A, E, La, Lc, deg, "GF"); for (size_t k = 0; k <= top; k++) REQUIRE(g[k] * f[k] == h[k], "functorial", k); }
    else { f = induced(C, mk(F), dn(F), B, A, Lb, La, deg, "F*"); g = induced(C, mk(G), dn(G), E, B, Lc, Lb, deg, "G*"); h = induced(C, mk(GF), dn(GF), E, A, Lc, La, deg, "(GF)*"); for (size_t k = 0; k <= top; k++) REQUIRE(f[k] * g[k] == h[k], "functorial", k); } }
}
// the older cochain classes
FAMILY(pin_cochain, 1, 1) { bats::SimplicialComplex X; for (size_t i = 0; i < 3; i++) X.add({i}); X.add({0, 1}); X.add({1, 2}); C.desc << "path with two edges"; bats::CochainComplex<CM> A(X); bats::ReducedCochainComplex<CM> R(A); REQUIRE(R.hdim(0) == 1 && R.hdim(1) == 0, "cochain-hdim", "ReducedCochainComplex of a path has hdim " << R.hdim(0) << "," << R.hdim(1)); }
