// C11: homology coordinates, preferred representatives and induced maps.
#include "chains.hpp"
using namespace vh;
typedef bats::ReducedChainComplex<CM> RC; typedef bats::ChainMap<CM> Map;
static const char *MODE[] = {"default", "standard", "extra", "divide-conquer", "clearing", "extra clearing", "compression", "extra compression", "extra cycles removed", "sparsified", "clearing sparsified"};
static RC reduce(const CC &A, int m) {
  using namespace bats;
  switch (m) { case 0: return RC(A); case 1: return RC(A, standard_reduction_flag(), compute_basis_flag()); case 2: return RC(A, extra_reduction_flag(), compute_basis_flag()); case 3: return RC(A, divide_conquer_flag(), compute_basis_flag()); case 4: return RC(A, standard_reduction_flag(), clearing_flag(), compute_basis_flag()); case 5: return RC(A, extra_reduction_flag(), clearing_flag(), compute_basis_flag()); case 6: return RC(A, standard_reduction_flag(), compression_flag(), compute_basis_flag()); case 7: return RC(A, extra_reduction_flag(), compression_flag(), compute_basis_flag());
    case 8: { RC a(A); a.remove_extra_cycles(); return a; } case 9: { RC a(A, extra_reduction_flag(), compute_basis_flag()); a.sparsify_basis(); return a; } default: { RC a(A, standard_reduction_flag(), clearing_flag(), compute_basis_flag()); a.sparsify_basis(); a.remove_extra_cycles(); return a; } }
}
static DM reps(const RC &R, size_t k, size_t n) { DM m(n, R.hdim(k)); for (size_t j = 0; j < R.hdim(k); j++) m.setcol(j, dense(R.get_preferred_representative(j, k), n, "representative")); return m; }
static DV combo(Rng &r, const DM &B, size_t n) { DV v(n, K(0)); double p = B.c > 5 ? 3.0 / B.c : .6; for (size_t j = 0; j < B.c; j++) if (r.chance(p)) { K f = FIELD == 0 ? r1_(r) : randK_nz(r); for (size_t i = 0; i < n; i++) v[i] = v[i] + f * B(i, j); } return v; }
static DV add(const DV &a, const DV &b) { DV c = a; for (size_t i = 0; i < c.size(); i++) c[i] = c[i] + b[i]; return c; }
static DV sub(const DV &a, const DV &b) { DV c = a; for (size_t i = 0; i < c.size(); i++) c[i] = c[i] - b[i]; return c; }
static DM colm(const DV &v) { DM m(v.size(), 1); m.setcol(0, v); return m; }
// coordinates of the cycles Z in the given representatives modulo boundaries
static DM coords(const DM &B, const DM &R, const DM &Z) { DM X = orc::solve(hcat(B, R), Z), Y(R.c, Z.c); for (size_t i = 0; i < R.c; i++) for (size_t j = 0; j < Z.c; j++) Y(i, j) = X(B.c + i, j); return Y; }
static DM bounds(const std::vector<DM> &D, size_t k) { DM B = k + 1 < D.size() ? orc::image(D[k + 1]) : DM(D[k].c, 0); if (B.c == 0) B = DM(D[k].c, 0); return B; }
FAMILY(classes, 500, 8000) {
  Rng &r = C.rng; Src s = rand_src(r); int m = r.r(0, 10); size_t k = r.r(0, s.D.size() - 1); C.desc << MODE[m] << " dimension " << k << " " << s.show(); RC R = reduce(s.C, m); size_t n = s.D[k].c; if (!n) throw Skip();
  DM B = bounds(s.D, k), Z = k ? orc::kernel(s.D[k]) : DM::I(n); DM P = reps(R, k, n); if (P.c || B.c) C.nontrivial();
  REQUIRE(P.c == Z.c - B.c, "representative-count", P.c << " expected " << Z.c - B.c); REQUIRE(orc::rank(hcat(B, P)) == Z.c, "representatives-span", "boundaries and representatives do not span the cycles"); REQUIRE(P.c == 0 || k == 0 || (s.D[k] * P).zero(), "representative-not-cycle", P.str());
  for (int t = 0; t < 4; t++) {
    DV z = combo(r, Z, n), b = combo(r, B, n), z2 = add(z, b);
    auto coord = [&](const DV &c, bool cyc) { SV v = sparse(c); SV x = R.to_hom_basis(v, k); REQUIRE(dense(R.from_hom_basis(x, k), n, "from_hom_basis") == c, "hom-basis-roundtrip", vh::show(c)); R.find_preferred_representative(x, k); DV y = dense(x, n, "homology coordinates"); if (cyc) for (size_t i = 0; i < n; i++) if (!y[i].zero()) REQUIRE(std::count(R.I[k].begin(), R.I[k].end(), i), "not-preferred", "cycle " << vh::show(c) << " has a coordinate at " << i << ", which is no homology index"); DV h; for (auto i : R.I[k]) h.push_back(y[i]); C.count("cycles"); return h; };
    DV h = coord(z, true), h2 = coord(z2, true), h0 = coord(b, true); REQUIRE(h == h2, "class-coordinates", "cycle " << vh::show(z) << " plus boundary " << vh::show(b) << ": " << vh::show(h) << " and " << vh::show(h2)); for (auto &x : h0) REQUIRE(x.zero(), "boundary-coordinates", "boundary " << vh::show(b) << " has coordinates " << vh::show(h0));
    DM want = coords(B, P, colm(z)); for (size_t i = 0; i < P.c; i++) REQUIRE(h[i] == want(i, 0), "class-coordinates", "cycle " << vh::show(z) << " coordinates " << vh::show(h) << " expected " << want.str());
    DV q = dense(R.chain_preferred_representative(sparse(z), k), n, "preferred"), q2 = dense(R.chain_preferred_representative(sparse(z2), k), n, "preferred"); REQUIRE(q == q2, "preferred-unique", "homologous cycles " << vh::show(z) << " and " << vh::show(z2)); REQUIRE(orc::in_span(B, sub(z, q)), "preferred-not-homologous", vh::show(z) << " -> " << vh::show(q));
    DV pz(n, K(0)); for (size_t i = 0; i < P.c; i++) for (size_t j = 0; j < n; j++) pz[j] = pz[j] + h[i] * P(j, i); REQUIRE(pz == q, "preferred-combination", "preferred representative of " << vh::show(z) << " is " << vh::show(q));
    DV any(n, K(0)); for (auto &x : any) if (r.chance(.4)) x = FIELD == 0 ? K(r.r(-1, 1)) : randK(r); coord(any, false); DV qa = dense(R.chain_preferred_representative(sparse(any), k), n, "preferred"), qb = dense(R.chain_preferred_representative(sparse(add(any, b)), k), n, "preferred"); REQUIRE(orc::in_span(B, sub(any, qa)) && qa == qb, "preferred-chain", "chain " << vh::show(any));
  }
  for (size_t j = 0; j < P.c; j++) { DV q = dense(R.chain_preferred_representative(sparse(P.col(j)), k), n, "preferred"); REQUIRE(q == P.col(j), "representative-not-preferred", j); }
}
static void check(Case &C, const RC &A, const RC &B, const std::vector<DM> &DA, const std::vector<DM> &DB, const Map &F, const std::vector<DM> &Fd, std::vector<DM> &out, const std::string &w) {
  out.clear(); for (size_t k = 0; k < Fd.size(); k++) { auto M = bats::induced_map(F, A, B, k); DM m = dense(M, w); DM PA = reps(A, k, DA[k].c), PB = reps(B, k, DB[k].c); REQUIRE(m.r == PB.c && m.c == PA.c, "induced-shape", w << " dimension " << k << " " << m.str());
    DM img = Fd[k] * PA; DM want = PA.c ? coords(bounds(DB, k), PB, img) : DM(PB.c, 0); REQUIRE(m == want, "induced-map", w << " dimension " << k << " got " << m.str() << " expected " << want.str()); out.push_back(m); C.count("induced_maps"); }
}
static Map mk(const std::vector<DM> &F) { std::vector<CM> v; for (auto &m : F) v.push_back(sparse(m)); return Map(v); }
FAMILY(random, 300, 4000) {
  Rng &r = C.rng; auto src = [&] { while (true) { Src s = rand_src(r, r.chance(.7) ? 6 : -1); if (s.cells() <= 14) return s; } }; Src a = src(), b = src(), c = src(); size_t top = std::min({a.D.size(), b.D.size(), c.D.size()}) - 1; int m[3] = {r.r(0, 10), r.r(0, 10), r.r(0, 10)};
  auto F = rand_chain_map(r, a.D, b.D, top), G = rand_chain_map(r, b.D, c.D, top); C.desc << MODE[m[0]] << "/" << MODE[m[1]] << "/" << MODE[m[2]] << " " << a.show() << " -> " << b.show() << " -> " << c.show(); for (auto &f : F) { C.desc << " F" << f.str(); if (!f.zero()) C.nontrivial(); }
  // the map is only known up to the common dimension, so truncate the complexes there
  for (auto *s : {&a, &b, &c}) { s->D.resize(top + 1); s->from_dense(); }
  RC A = reduce(a.C, m[0]), B = reduce(b.C, m[1]), E = reduce(c.C, m[2]); std::vector<DM> f, g, h, GF; for (size_t k = 0; k <= top; k++) GF.push_back(G[k] * F[k]);
  check(C, A, B, a.D, b.D, mk(F), F, f, "F"); check(C, B, E, b.D, c.D, mk(G), G, g, "G"); check(C, A, E, a.D, c.D, mk(GF), GF, h, "GF"); for (size_t k = 0; k <= top; k++) REQUIRE(g[k] * f[k] == h[k], "functorial", "dimension " << k);
  std::vector<DM> I; for (size_t k = 0; k <= top; k++) I.push_back(DM::I(a.D[k].c)); std::vector<DM> i; check(C, A, A, a.D, a.D, mk(I), I, i, "identity"); for (size_t k = 0; k <= top; k++) REQUIRE(i[k] == DM::I(i[k].r), "identity", "dimension " << k);
  // change of reduction mode is an isomorphism
  RC A2 = reduce(a.C, m[1]); std::vector<DM> j1, j2; check(C, A, A2, a.D, a.D, mk(I), I, j1, "change"); check(C, A2, A, a.D, a.D, mk(I), I, j2, "change back"); for (size_t k = 0; k <= top; k++) REQUIRE(j2[k] * j1[k] == DM::I(j1[k].c), "identity", "change of basis dimension " << k);
  // homotopic maps induce the same map
  std::vector<DM> H = F; for (size_t k = 0; k <= top; k++) { if (k < top) { DM s = randM(r, b.D[k + 1].c, a.D[k].c, .3); if (FIELD == 0) for (auto &x : s.a) if (!x.zero()) x = r1_(r); H[k] = H[k] + b.D[k + 1] * s; H[k + 1] = H[k + 1] + s * a.D[k + 1]; } } std::vector<DM> hh; check(C, A, B, a.D, b.D, mk(H), H, hh, "homotopic"); for (size_t k = 0; k <= top; k++) REQUIRE(hh[k] == f[k], "homotopy-invariance", "dimension " << k);
  for (size_t k = 0; k <= top; k++) if (a.D[k].c != b.D[k].c) { MUST_THROW(bats::induced_map(mk(F), B, A, k), "induced-mismatch", "map between complexes of other sizes accepted"); break; }
}
// simplicial maps: the rank of the induced map does not depend on order, representation or flags
FAMILY(simplicial, 250, 3000) {
  Rng &r = C.rng; auto a = r.chance(.5) ? sp::random_space(r) : sp::random(r, r.r(3, 8), r.r(1, 2), r.r(4, 12)); size_t nv = a.nv(), nw = r.r(2, 7); std::vector<size_t> f0(nv); for (auto &v : f0) v = r.r(0, nw - 1); if (r.chance(.4)) { nw = nv; f0 = r.perm(nv); } else if (r.chance(.4)) { nw = nv; for (size_t i = 0; i < nv; i++) f0[i] = r.chance(.8) ? i : r.r(0, nv - 1); }
  sp::Cpx b; for (auto s : a.all) { std::set<size_t> t; for (auto v : s) t.insert(f0[v]); b.add(sp::Sx(t.begin(), t.end())); } if (r.chance(.6)) b = sp::unite(b, sp::random(r, nw, 2, r.r(0, 5))); C.desc << sp::show(a) << " -> " << sp::show(b) << " by " << show(f0); if (a.all.size() > 3) C.nontrivial();
  std::vector<size_t> rk0; for (int t = 0; t < 2; t++) { Map F; CC X, Y; if (t == 0) { auto x = make_sc(r, a), y = make_sc(r, b); F = Map(bats::SimplicialMap(x, y, f0)); X = CC(x); Y = CC(y); } else { auto x = make_lc(r, a), y = make_lc(r, b); F = Map(bats::SimplicialMap(x, y, f0)); X = CC(x); Y = CC(y); }
    std::vector<DM> DX{DM(0, X.dim(0))}, DY{DM(0, Y.dim(0))}, Fd; for (size_t k = 1; k <= X.maxdim(); k++) DX.push_back(dense(X[k])); for (size_t k = 1; k <= Y.maxdim(); k++) DY.push_back(dense(Y[k])); for (size_t k = 0; k <= std::min(X.maxdim(), Y.maxdim()); k++) Fd.push_back(dense(F[k]));
    int m1 = r.r(0, 10), m2 = r.r(0, 10); C.desc << " " << MODE[m1] << "/" << MODE[m2]; RC A = reduce(X, m1), B = reduce(Y, m2); std::vector<DM> f; check(C, A, B, DX, DY, F, Fd, f, t ? "light" : "trie"); std::vector<size_t> rk; for (auto &q : f) rk.push_back(orc::rank(q)); if (t == 0) rk0 = rk; else REQUIRE(rk == rk0, "rank-depends-on-representation", vh::show(rk) << " and " << vh::show(rk0));
  }
}
