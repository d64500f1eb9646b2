// C22: triangulated and tensor products, Eilenberg-Zilber maps, relative complexes, Mayer-Vietoris.
#include "chains.hpp"
using namespace vh;
typedef bats::SimplicialComplex SC;
typedef bats::LightSimplicialComplex<size_t> LC;
typedef bats::ChainMap<CM> Map;
typedef bats::ReducedChainComplex<CM> RC;
// a complex on exactly the vertices 0..n-1
static sp::Cpx small(Rng &r, size_t maxv, size_t maxd) {
  sp::Cpx x; switch (r.r(0, 5)) { case 0: x = sp::circle(r.r(3, 4)); break; case 1: x = sp::simplex(r.r(0, std::min<size_t>(2, maxd))); break; case 2: if (maxd >= 2) { x = sp::sphere(2); break; } /* fallthrough */ default: x = sp::random(r, r.r(1, maxv), r.r(0, maxd), r.r(1, 5)); }
  std::vector<size_t> used; for (auto &s : x.all) if (s.size() == 1) used.push_back(s[0]); std::sort(used.begin(), used.end()); std::vector<size_t> p(x.nv(), 0); for (size_t i = 0; i < used.size(); i++) p[used[i]] = i; return sp::relabel(x, p);
}
static SC lib(Rng &r, const sp::Cpx &x, SC *) { return make_sc(r, x); }
static LC lib(Rng &r, const sp::Cpx &x, LC *) { return make_lc(r, x); }
// chains of the product order in a cell product of dimension at most md
static std::set<sp::Sx> product(const sp::Cpx &X, const sp::Cpx &Y, size_t md, size_t n) {
  std::set<sp::Sx> out; for (auto &s : X.all) for (auto &t : Y.all) { size_t p = s.size() - 1, q = t.size() - 1; if (p + q > md) continue; std::vector<sp::Sx> paths; sp::Sx cur; std::function<void(size_t, size_t)> go = [&](size_t i, size_t j) { cur.push_back(s[i] + n * t[j]); if (i == p && j == q) paths.push_back(cur); if (i < p) go(i + 1, j); if (j < q) go(i, j + 1); cur.pop_back(); }; go(0, 0);
    for (auto &u : paths) { for (size_t m = 1; m < (size_t)1 << u.size(); m++) { sp::Sx f; for (size_t k = 0; k < u.size(); k++) if (m >> k & 1) f.push_back(u[k]); out.insert(f); } } }
  return out;
}
template <class X> void cells_are(const X &x, const std::set<sp::Sx> &want, const std::string &w) {
  std::set<sp::Sx> got; for (size_t k = 0; k <= x.maxdim(); k++) for (size_t i = 0; i < x.ncells(k); i++) { auto s = x.get_cell(k, i); REQUIRE(s.size() == k + 1 && std::is_sorted(s.begin(), s.end()), "cell-shape", w << " " << show(s)); REQUIRE(want.count(s), "extra-simplex", w << " " << show(s)); REQUIRE(got.insert(s).second, "cell-twice", w << " " << show(s)); }
  for (auto &s : want) REQUIRE(got.count(s), "missing-simplex", w << " " << show(s));
}
static std::vector<DM> bds(const CC &C) { std::vector<DM> b; b.push_back(DM(0, C.dim(0))); for (size_t k = 1; k <= C.maxdim(); k++) b.push_back(dense(C[k], "boundary")); return b; }
static size_t hom(const std::vector<DM> &D, size_t k) { return D[k].c - orc::rank(D[k]) - (k + 1 < D.size() ? orc::rank(D[k + 1]) : 0); }
static bool is_complex(const std::vector<DM> &D) { for (size_t k = 2; k < D.size(); k++) if (!(D[k - 1] * D[k]).zero()) return false; return true; }
static DM dcol(const DM &A, const std::vector<size_t> &c) { DM B(A.r, c.size()); for (size_t j = 0; j < c.size(); j++) B.setcol(j, A.col(c[j])); return B; }
// the tensor product by its definition: blocks by rising dimension of the first factor
static std::vector<DM> tensor(const std::vector<DM> &A, const std::vector<DM> &B, size_t md) {
  std::vector<std::map<size_t, size_t>> off(md + 1); std::vector<size_t> n(md + 1, 0); for (size_t k = 0; k <= md; k++) for (size_t p = 0; p <= k; p++) if (p < A.size() && k - p < B.size()) { off[k][p] = n[k]; n[k] += A[p].c * B[k - p].c; }
  std::vector<DM> D; for (size_t k = 0; k <= md; k++) { DM d(k ? n[k - 1] : 0, n[k]); if (k) for (auto &o : off[k]) { size_t p = o.first, q = k - p; for (size_t a = 0; a < A[p].c; a++) for (size_t b = 0; b < B[q].c; b++) { size_t c = o.second + a * B[q].c + b; if (p) for (size_t i = 0; i < A[p].r; i++) { auto &z = d(off[k - 1].at(p - 1) + i * B[q].c + b, c); z = z + A[p](i, a); } if (q) for (size_t i = 0; i < B[q].r; i++) { auto &z = d(off[k - 1].at(p) + a * B[q].r + i, c); z = z + (p % 2 ? K(-1) : K(1)) * B[q](i, b); } } } D.push_back(d); }
  return D;
}
static void same(const std::vector<DM> &got, const std::vector<DM> &want, const std::string &w) { REQUIRE(got.size() == want.size(), "maxdim", w << " " << got.size() << " expected " << want.size()); for (size_t k = 0; k < want.size(); k++) { REQUIRE(got[k].c == want[k].c && (k == 0 || got[k].r == want[k].r), "shape", w << " dimension " << k << ": " << got[k].r << "x" << got[k].c << " expected " << want[k].r << "x" << want[k].c); REQUIRE(k == 0 || got[k] == want[k], "boundary", w << " dimension " << k); } }
// f: D -> E is a chain map; rank on homology in dimension k
static void chain_map(const std::vector<DM> &D, const std::vector<DM> &E, const std::vector<DM> &f, const std::string &w) { for (size_t k = 0; k < f.size(); k++) { REQUIRE(f[k].r == E[k].c && f[k].c == D[k].c, "map-shape", w << " dimension " << k << ": " << f[k].r << "x" << f[k].c << " for " << E[k].c << "x" << D[k].c); if (k) REQUIRE(E[k] * f[k] == f[k - 1] * D[k], "not-a-chain-map", w << " dimension " << k); } }
static DM cycles(const std::vector<DM> &D, size_t k) { return k == 0 ? DM::I(D[0].c) : orc::kernel(D[k]); }
static size_t on_homology(const std::vector<DM> &D, const std::vector<DM> &E, const DM &f, size_t k, size_t j) { DM M = f * cycles(D, k); if (j + 1 >= E.size()) return orc::rank(M); return orc::rank(orc::hcat(M, E[j + 1])) - orc::rank(E[j + 1]); }
template <class X> void triangulated(Case &C, const sp::Cpx &a, const sp::Cpx &b, size_t md, size_t n) {
  auto x = lib(C.rng, a, (X *)0), y = lib(C.rng, b, (X *)0); auto P = bats::TriangulatedProduct(x, y, md, n); cells_are(P, product(a, b, md, n), "product"); if (n == a.n(0)) cells_are(bats::TriangulatedProduct(x, y, md), product(a, b, md, n), "product with default labels");
  size_t full = x.maxdim() + y.maxdim(); if (n == a.n(0)) { auto Q = bats::TriangulatedProduct(x, y); cells_are(Q, product(a, b, full, n), "full product"); auto R = bats::Reduce(CC(Q)); auto A = bds(CC(x)), B = bds(CC(y)); for (size_t k = 0; k <= full; k++) { size_t w = 0; for (size_t p = 0; p <= k; p++) if (p < A.size() && k - p < B.size()) w += hom(A, p) * hom(B, k - p); REQUIRE(R.hdim(k) == w, "kunneth", "dimension " << k << ": " << R.hdim(k) << " expected " << w); } C.count("kunneth"); }
  C.count("products");
}
FAMILY(triangulated_products, 240, 5000) { Rng &r = C.rng; bool big = r.chance(.06); auto a = small(r, big ? 6 : 4, big ? 3 : 2), b = small(r, big ? 5 : 4, big ? 3 : 2); size_t md = r.r(0, big ? 6 : 4), n = a.n(0) + (r.chance(.3) ? r.r(0, 3) : 0); C.desc << show(a) << " x " << show(b) << " to dimension " << md << " labels " << n; C.nontrivial(); triangulated<SC>(C, a, b, md, n); triangulated<LC>(C, a, b, md, n); }
static std::vector<DM> chain(Case &C, CC &L) { Rng &r = C.rng; std::vector<size_t> d; for (size_t k = r.r(1, 4); k--;) d.push_back(r.r(0, 3)); auto D = sp::random_chain<K>(r, d, .5, rk_); L = CC(D.size() - 1); L[0] = CM(1, D[0].c); for (size_t k = 1; k < D.size(); k++) L[k] = sparse(D[k]); C.desc << " |"; for (auto &m : D) C.desc << " " << m.r << "x" << m.c << " " << m.str(); return D; }
FAMILY(tensor_products, 500, 10000) {
  CC A, B; auto a = chain(C, A), b = chain(C, B); size_t full = A.maxdim() + B.maxdim(), md = C.rng.r(0, full + 2); C.desc << " to dimension " << md; C.nontrivial(); auto T = tensor_product(A, B, md); same(bds(T), tensor(a, b, md), "tensor product"); auto U = tensor_product(A, B); auto u = bds(U); same(u, tensor(a, b, full), "full tensor product"); REQUIRE(is_complex(u), "boundary-squared", "tensor product");
  auto R = bats::Reduce(U), RA = bats::Reduce(A), RB = bats::Reduce(B); for (size_t k = 0; k <= full; k++) { size_t w = 0; for (size_t p = 0; p <= k; p++) if (p < a.size() && k - p < b.size()) w += hom(a, p) * hom(b, k - p); REQUIRE(R.hdim(k) == w, "kunneth", "dimension " << k << ": " << R.hdim(k) << " expected " << w); }
  // classes: the products of classes of both factors are a basis
  for (size_t k = 0; k <= full; k++) { DM all(R.hdim(k), 0); for (size_t p = 0; p <= k; p++) { size_t q = k - p; if (p >= a.size() || q >= b.size()) continue; size_t sh = bats::kron_chain_shift(p, A, q, B), want = 0; for (size_t t = 0; t < p; t++) if (t < a.size() && k - t < b.size()) want += a[t].c * b[k - t].c; REQUIRE(sh == want, "kron-shift", p << "," << q << ": " << sh << " expected " << want);
      DM H = dense(bats::kron_homology(p, RA, q, RB, R), "kron homology"); REQUIRE(H.r == R.hdim(k) && H.c == RA.hdim(p) * RB.hdim(q), "kron-homology-shape", H.r << "x" << H.c); size_t c = 0; for (size_t i = 0; i < RA.hdim(p); i++) for (size_t j = 0; j < RB.hdim(q); j++, c++) { auto x = RA.get_preferred_representative(i, p), y = RB.get_preferred_representative(j, q); auto z = bats::kron_chains(x, p, A, y, q, B); DV dx = dense(x, a[p].c), dy = dense(y, b[q].c), dz = dense(z, u[k].c), e(u[k].c, K(0)); for (size_t s = 0; s < dx.size(); s++) for (size_t t = 0; t < dy.size(); t++) e[sh + s * dy.size() + t] = dx[s] * dy[t]; REQUIRE(dz == e, "kron-chain", p << "," << q);
          // the column expresses z in the classes of R
          DV rep(u[k].c, K(0)); for (size_t h = 0; h < R.hdim(k); h++) { DV v = dense(R.get_preferred_representative(h, k), u[k].c); for (size_t s = 0; s < v.size(); s++) rep[s] = rep[s] + H(h, c) * v[s]; } for (size_t s = 0; s < rep.size(); s++) rep[s] = rep[s] - e[s]; bool zero = true; for (auto &s : rep) zero = zero && s.zero(); REQUIRE(zero || (k + 1 < u.size() && orc::in_span(u[k + 1], rep)), "kron-class", p << "," << q << " classes " << i << "," << j); }
      all = orc::hcat(all, H); } REQUIRE(all.c == R.hdim(k) && orc::rank(all) == all.c, "kunneth-basis", "dimension " << k); }
  C.count("tensor-products", 2);
}
template <class X> void ez(Case &C, const sp::Cpx &a, const sp::Cpx &b, size_t md) {
  auto x = lib(C.rng, a, (X *)0), y = lib(C.rng, b, (X *)0); size_t n = a.n(0); auto [T, Fm, P] = bats::EilenbergZilber(x, y, md, F()); cells_are(P, product(a, b, md, n), "Eilenberg-Zilber product"); CC A(x), B(y); auto t = bds(T); same(t, tensor(bds(A), bds(B), md), "Eilenberg-Zilber tensor product"); CC L(P); auto p = bds(L); while (p.size() < md + 1) p.push_back(DM(p.back().c, 0));
  std::vector<DM> f; REQUIRE(Fm.maxdim() == md, "map-maxdim", Fm.maxdim()); for (size_t k = 0; k <= md; k++) f.push_back(dense(Fm[k], "Eilenberg-Zilber map")); chain_map(t, p, f, "Eilenberg-Zilber map");
  // every column is the signed sum of the staircases of its pair of simplices
  for (size_t k = 0; k <= md; k++) { size_t c = 0; for (size_t dx = 0; dx <= k; dx++) { size_t dy = k - dx; if (dx > x.maxdim() || dy > y.maxdim()) continue; for (size_t i = 0; i < x.ncells(dx); i++) for (size_t j = 0; j < y.ncells(dy); j++, c++) { auto s = x.get_cell(dx, i), u = y.get_cell(dy, j); size_t cnt = 0; for (size_t q = 0; q < P.ncells(k); q++) { if (f[k](q, c).zero()) continue; cnt++; auto v = P.get_cell(k, q); std::set<size_t> vx, vy; for (auto w : v) { vx.insert(w % n); vy.insert(w / n); } REQUIRE(std::set<size_t>(s.begin(), s.end()) == vx && std::set<size_t>(u.begin(), u.end()) == vy, "staircase", "column " << c << " contains " << show(v)); REQUIRE(f[k](q, c) == K(1) || f[k](q, c) == K(-1), "staircase-coefficient", "column " << c << " simplex " << show(v)); } size_t bin = 1; for (size_t q = 1; q <= dx; q++) bin = bin * (dy + q) / q; REQUIRE(cnt == bin, "staircases", "column " << c << " has " << cnt << " of " << bin); } } REQUIRE(c == t[k].c, "columns", c); }
  for (size_t k = 0; k < md; k++) { size_t h = hom(t, k); REQUIRE(on_homology(t, p, f[k], k, k) == h && hom(p, k) == h, "not-an-isomorphism", "dimension " << k << ": rank " << on_homology(t, p, f[k], k, k) << " of " << h << " and " << hom(p, k)); } C.count("maps");
}
FAMILY(eilenberg_zilber, 240, 5000) { Rng &r = C.rng; bool big = r.chance(.06); auto a = small(r, big ? 6 : 4, big ? 3 : 2), b = small(r, big ? 5 : 4, big ? 3 : 2); size_t md = r.r(0, big ? 6 : 4); if (r.chance(.15)) std::swap(a, b); C.desc << show(a) << " x " << show(b) << " to dimension " << md; C.nontrivial(); ez<SC>(C, a, b, md); ez<LC>(C, a, b, md); }
static sp::Cpx sub(Rng &r, const sp::Cpx &x) { sp::Cpx y; double p = r.pick(std::vector<double>{0, .2, .5, 1}); for (auto &s : x.all) if (r.chance(p)) y.add(s); return y; }
static std::vector<std::vector<size_t>> outside(const SC &x, const sp::Cpx &a) { std::vector<std::vector<size_t>> o(x.maxdim() + 1); for (size_t k = 0; k <= x.maxdim(); k++) for (size_t i = 0; i < x.ncells(k); i++) if (!a.all.count(x.get_cell(k, i))) o[k].push_back(i); return o; }
static std::vector<DM> relative(const std::vector<DM> &D, const std::vector<std::vector<size_t>> &o) { std::vector<DM> E; for (size_t k = 0; k < D.size(); k++) { DM m(k ? o[k - 1].size() : 0, o[k].size()); if (k) for (size_t j = 0; j < o[k].size(); j++) for (size_t i = 0; i < o[k - 1].size(); i++) m(i, j) = D[k](o[k - 1][i], o[k][j]); E.push_back(m); } return E; }
FAMILY(relative_complexes, 400, 8000) {
  Rng &r = C.rng; auto a = r.chance(.04) ? r.chance(.5) ? sp::simplex(r.r(6, 7)) : sp::sphere(r.r(6, 7)) : r.chance(.5) ? sp::random_space(r) : small(r, 6, 3), s = sub(r, a); C.desc << show(a) << " relative to " << show(s); C.nontrivial(); SC x = make_sc(r, a), y; if (!s.all.empty()) y = make_sc(r, s); CC L(x); auto D = bds(L); auto o = outside(x, s); auto want = relative(D, o); CC Q(x, y); same(bds(Q), want, "relative complex");
  std::vector<std::vector<size_t>> in(D.size()); for (size_t k = 0; k < D.size(); k++) { size_t t = 0; for (size_t i = 0; i < D[k].c; i++) if (t < o[k].size() && o[k][t] == i) t++; else in[k].push_back(i); r.shuffle(in[k]); } auto Z = L.relative_complex(in); same(bds(Z), want, "relative complex by index");
  { std::vector<std::vector<size_t>> keep = in; CC S = L.subcomplex(keep); std::vector<DM> ws; for (size_t k = 0; k < D.size(); k++) { auto a1 = k ? in[k - 1] : std::vector<size_t>(), b1 = in[k]; std::sort(a1.begin(), a1.end()); std::sort(b1.begin(), b1.end()); DM m(a1.size(), b1.size()); if (k) for (size_t j = 0; j < b1.size(); j++) for (size_t i = 0; i < a1.size(); i++) m(i, j) = D[k](a1[i], b1[j]); ws.push_back(m); } same(bds(S), ws, "subcomplex by index"); }
  // long exact sequence: h_k(X,A) = corank of H_k(A)->H_k(X) + nullity of H_{k-1}(A)->H_{k-1}(X)
  std::vector<DM> DA; for (size_t k = 0; k < D.size(); k++) { auto rk = k ? in[k - 1] : std::vector<size_t>(); auto ck = in[k]; DM m(rk.size(), ck.size()); if (k) for (size_t j = 0; j < ck.size(); j++) for (size_t i = 0; i < rk.size(); i++) m(i, j) = D[k](rk[i], ck[j]); DA.push_back(m); }
  auto R = bats::Reduce(Q); auto rki = [&](size_t k) { DM inc(D[k].c, in[k].size()); for (size_t j = 0; j < in[k].size(); j++) inc(in[k][j], j) = K(1); return on_homology(DA, D, inc, k, k); }; for (size_t k = 0; k < D.size(); k++) { size_t w = hom(D, k) - rki(k) + (k ? hom(DA, k - 1) - rki(k - 1) : 0); REQUIRE(R.hdim(k) == w, "long-exact-sequence", "dimension " << k << ": " << R.hdim(k) << " expected " << w); }
  C.count("pairs");
}
FAMILY(reordered_bases, 300, 6000) {
  Rng &r = C.rng; CC A; auto a = chain(C, A); if (r.chance(.5)) { SC x = make_sc(r, r.chance(.5) ? sp::random_space(r) : small(r, 6, 3)); A = CC(x); a = bds(A); } size_t n = a.size(); C.nontrivial(); std::vector<std::vector<size_t>> pm(n), ip(n); for (size_t k = 0; k < n; k++) { pm[k] = r.perm(a[k].c); ip[k].resize(pm[k].size()); for (size_t i = 0; i < pm[k].size(); i++) ip[k][pm[k][i]] = i; }
  // element i of the new basis is element q[i] of the old one
  auto moved = [&](const std::vector<std::vector<size_t>> &q) { std::vector<DM> b; for (size_t k = 0; k < n; k++) { DM m(k ? a[k].r : 0, a[k].c); if (k) for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) m(i, j) = a[k](q[k - 1][i], q[k][j]); b.push_back(m); } return b; };
  CC X = A, Y = A; X.ipermute_basis(pm); same(bds(X), moved(pm), "ipermute_basis"); Y.permute_basis(pm); same(bds(Y), moved(ip), "permute_basis"); CC Z = Y; Z.ipermute_basis(pm); same(bds(Z), a, "there and back");
  CC W = A; size_t k = r.r(0, n - 1); W.permute_basis(k, pm[k]); std::vector<std::vector<size_t>> q; for (auto &v : pm) { std::vector<size_t> e(v.size()); for (size_t i = 0; i < e.size(); i++) e[i] = i; q.push_back(e); } q[k] = ip[k]; same(bds(W), moved(q), "permute_basis of one dimension"); W = A; W.ipermute_basis(k, pm[k]); q[k] = pm[k]; same(bds(W), moved(q), "ipermute_basis of one dimension"); REQUIRE(X.is_valid_complex() && Y.is_valid_complex(), "boundary-squared", "reordered"); C.count("reorderings");
  // a map follows the bases at its two ends: first and second permutation of unequal order, the identity stays the identity, and maps still compose
  std::vector<CM> v, I; std::vector<DM> d; for (size_t k = 0; k < n; k++) { DM m(a[k].c, a[k].c); for (auto &e : m.a) if (r.chance(.4)) e = randK(r); d.push_back(m); v.push_back(sparse(m)); I.push_back(sparse(DM::I(m.c))); } Map M(v), N(v), E(I), B(v); for (size_t k = 0; k < n; k++) { M.permute_row_basis(k, pm[k]); N.permute_column_basis(k, pm[k]); E.permute_row_basis(k, pm[k]); E.permute_column_basis(k, pm[k]); B.permute_column_basis(k, pm[k]); B.permute_row_basis(k, pm[k]); }
  for (size_t k = 0; k < n; k++) { size_t c = a[k].c; DM x(c, c), y(c, c), z(c, c); for (size_t i = 0; i < c; i++) for (size_t j = 0; j < c; j++) { x(pm[k][i], j) = d[k](i, j); y(i, pm[k][j]) = d[k](i, j); z(pm[k][i], pm[k][j]) = d[k](i, j); } REQUIRE(dense(M[k]) == x, "map-rows", "dimension " << k); REQUIRE(dense(N[k]) == y, "map-columns", "dimension " << k); REQUIRE(dense(E[k]) == DM::I(c), "identity-reordered", "dimension " << k); REQUIRE(dense(B[k]) == z, "map-both", "dimension " << k); if (k) { auto f = bds(Y); DM w = a[k] * d[k]; DM u(w.r, w.c); for (size_t i = 0; i < w.r; i++) for (size_t j = 0; j < w.c; j++) u(pm[k - 1][i], pm[k][j]) = w(i, j); REQUIRE(f[k] * dense(B[k]) == u, "map-then-boundary", "dimension " << k); } }
}
FAMILY(relative_eilenberg_zilber, 200, 4000) {
  Rng &r = C.rng; auto a = small(r, 4, 2), b = small(r, 3, 2), s = sub(r, a), t = sub(r, b); size_t md = r.r(0, 4), n = a.n(0); C.desc << show(a) << " rel " << show(s) << " x " << show(b) << " rel " << show(t) << " to dimension " << md; C.nontrivial(); SC x = make_sc(r, a), y = make_sc(r, b), xs, yt; if (!s.all.empty()) xs = make_sc(r, s); if (!t.all.empty()) yt = make_sc(r, t);
  auto [T0, F0, P0] = bats::EilenbergZilber(x, y, md, F()); auto [T, Fm, Q] = bats::EilenbergZilber(x, xs, y, yt, md, F()); auto t0 = bds(T0); std::vector<std::vector<size_t>> ot(md + 1); for (size_t k = 0; k <= md; k++) { size_t c = 0; for (size_t dx = 0; dx <= k; dx++) { size_t dy = k - dx; if (dx > x.maxdim() || dy > y.maxdim()) continue; for (size_t i = 0; i < x.ncells(dx); i++) for (size_t j = 0; j < y.ncells(dy); j++, c++) if (!s.all.count(x.get_cell(dx, i)) && !t.all.count(y.get_cell(dy, j))) ot[k].push_back(c); } }
  auto want = relative(t0, ot); auto g = bds(T); same(g, want, "relative tensor product"); auto sub1 = product(a, t, md, n), sub2 = product(s, b, md, n); sp::Cpx su; su.all = sub1; su.all.insert(sub2.begin(), sub2.end()); auto p0 = bds(CC(P0)); auto q = bds(Q); same(q, relative(p0, outside(P0, su)), "relative product"); REQUIRE(Fm.maxdim() == md, "map-maxdim", ""); std::vector<DM> f; for (size_t k = 0; k <= md; k++) f.push_back(dense(Fm[k], "relative map")); chain_map(g, q, f, "relative Eilenberg-Zilber map"); for (size_t k = 0; k < md; k++) { size_t h = hom(g, k); REQUIRE(on_homology(g, q, f[k], k, k) == h && hom(q, k) == h, "not-an-isomorphism", "relative dimension " << k << ": " << h << " and " << hom(q, k)); } C.count("relative-maps");
}
FAMILY(mayer_vietoris, 400, 8000) {
  Rng &r = C.rng; sp::Cpx a, b; if (r.chance(.4)) { auto x = sp::random_space(r); for (auto &s : x.maximal()) { int w = r.r(0, 2); if (w != 1) a.add(s); if (w != 0) b.add(s); } } else { a = small(r, 6, 3); b = small(r, 6, 3); } auto xs = sp::unite(a, b), ys = sp::meet(a, b); if (xs.all.empty()) throw Skip(); C.desc << "A " << show(a) << " B " << show(b); C.nontrivial(); auto mk = [&](const sp::Cpx &z) { SC q; if (!z.all.empty()) q = make_sc(r, z); return q; }; SC A = mk(a), B = mk(b), X = mk(xs), Y = mk(ys); auto D = bds(CC(X)); auto E = bds(CC(Y)); auto EA = bds(CC(A)), EB = bds(CC(B)); auto get = [](const std::vector<DM> &v, size_t k) { return k < v.size() ? v[k] : DM(v.back().c, 0); };
  auto incl = [&](const SC &s, size_t k) { DM m(D[k].c, s.ncells(k)); for (size_t j = 0; j < s.ncells(k); j++) m(X.find_idx(s.get_cell(k, j)), j) = K(1); return m; };
  for (size_t k = 0; k + 1 < D.size(); k++) { auto M0 = bats::mayer_vietoris_boundary(A, X, Y, k); DM M(M0.nrow(), M0.ncol()); for (size_t j = 0; j < M0.ncol(); j++) { bool first = true; size_t last = 0; for (auto it = M0[j].nzbegin(); it != M0[j].nzend(); ++it) { REQUIRE(it->ind < M0.nrow() && (first || it->ind > last) && it->val != 0, "not-canonical", "column " << j); first = false; last = it->ind; M(it->ind, j) = K((long long)it->val); } } REQUIRE(M.r == Y.ncells(k) && M.c == X.ncells(k + 1), "shape", M.r << "x" << M.c);
    for (size_t j = 0; j < M.c; j++) { bool inA = a.all.count(X.get_cell(k + 1, j)); for (size_t i = 0; i < M.r; i++) { K w = inA ? D[k + 1](X.find_idx(Y.get_cell(k, i)), j) : K(0); REQUIRE(M(i, j) == w, "mayer-vietoris", "dimension " << k << " entry " << i << "," << j << " is " << M(i, j) << " expected " << w); } }
    // it carries cycles of X to cycles of Y, and its rank is what exactness demands
    DM Z = orc::kernel(D[k + 1]); DM MZ = M * Z; REQUIRE(k == 0 || (get(E, k) * MZ).zero(), "not-a-cycle", "dimension " << k); DM EY = get(E, k + 1); if (EY.r != Y.ncells(k)) EY = DM(Y.ncells(k), 0); size_t rk = orc::rank(orc::hcat(MZ, EY)) - orc::rank(EY); DM za = incl(A, k + 1) * (k + 1 < EA.size() ? orc::kernel(EA[k + 1]) : DM(A.ncells(k + 1), 0)), zb = incl(B, k + 1) * (k + 1 < EB.size() ? orc::kernel(EB[k + 1]) : DM(B.ncells(k + 1), 0)); DM bx = k + 2 < D.size() ? D[k + 2] : DM(D[k + 1].c, 0); size_t im = orc::rank(orc::hcat(orc::hcat(za, zb), bx)) - orc::rank(bx); REQUIRE(rk == hom(D, k + 1) - im, "mayer-vietoris-exactness", "dimension " << k << " rank " << rk << " expected " << hom(D, k + 1) - im); C.count("connecting-maps"); }
}
