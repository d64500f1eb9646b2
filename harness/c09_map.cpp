// C09: chain maps of simplicial, cubical and cell maps.
#include "bridge.hpp"
#include "spaces.hpp"
using namespace vh; using sp::Sx;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t> LC; typedef bats::CubicalComplex QC;
typedef bats::ChainMap<CM> Map;
template <class X> std::vector<DM> bounds(const X &x) { std::vector<DM> D; D.push_back(DM(0, x.ncells(0))); for (size_t k = 1; k <= x.maxdim(); k++) D.push_back(dense_csc(x.boundary_csc(k))); return D; }
template <class X> size_t nc(const X &x, size_t k) { return k <= x.maxdim() ? x.ncells(k) : 0; }
static DM im(const ColumnMatrix<SparseVector<int, size_t>> &A) { DM m(A.nrow(), A.ncol()); REQUIRE(A.cols().size() == A.ncol(), "shape", "map columns"); for (size_t j = 0; j < A.ncol(); j++) for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) { REQUIRE(it->ind < A.nrow(), "index-out-of-range", "map"); m(it->ind, j) = m(it->ind, j) + K((long long)it->val); } return m; }
template <class X, class Y> std::vector<DM> chain(Case &C, const X &x, const Y &y, const bats::CellularMap &f, const std::string &w) {
  REQUIRE(f.maxdim() == x.maxdim(), "map-maxdim", w << " " << f.maxdim() << " vs " << x.maxdim());
  Map F1(f); REQUIRE(F1.maxdim() == f.maxdim(), "map-maxdim", w); std::vector<DM> Fm; auto dx = bounds(x), dy = bounds(y); auto F2 = bats::Chain(f, F());
  for (size_t k = 0; k <= f.maxdim(); k++) { DM m = dense(F1[k], w); REQUIRE(m.r == nc(y, k) && m.c == nc(x, k), "map-shape", w << " dimension " << k << " " << m.str()); REQUIRE(m == im(f[k]), "map-cast", w << " dimension " << k); REQUIRE(dense(F2[k]) == m, "Chain(map)", w); Fm.push_back(m); }
  for (size_t k = 1; k <= f.maxdim(); k++) { if (k <= y.maxdim()) REQUIRE(dy[k] * Fm[k] == Fm[k - 1] * dx[k], "chain-map", w << " dimension " << k << ": f does not commute with the boundary"); else REQUIRE((Fm[k - 1] * dx[k]).zero(), "chain-map", w << " dimension " << k << " collapses to a nonzero boundary"); }
  C.count("chain_maps"); return Fm;
}
// the definition: image vertices sorted with the sign of the sorting permutation, or zero
template <class X, class Y> DM expect(const X &x, const Y &y, size_t k, const std::vector<size_t> &f0) {
  DM m(nc(y, k), nc(x, k)); std::map<Sx, size_t> ix; for (size_t i = 0; i < nc(y, k); i++) ix[y.get_simplex(k, i)] = i;
  for (size_t j = 0; j < nc(x, k); j++) { Sx s = x.get_simplex(k, j); for (auto &v : s) v = f0[v]; int inv = 0; bool deg = false; for (size_t a = 0; a < s.size(); a++) for (size_t b = a + 1; b < s.size(); b++) { inv += s[a] > s[b]; deg |= s[a] == s[b]; } if (deg) continue; std::sort(s.begin(), s.end()); m(ix.at(s), j) = K(inv % 2 ? -1 : 1); }
  return m;
}
template <class X> X build(Rng &r, const sp::Cpx &c, size_t nv, int md);
template <> SC build<SC>(Rng &r, const sp::Cpx &c, size_t, int) { SC z; for (auto &s : sp::random_order(r, c)) z.add_directed(s); return z; }
template <> LC build<LC>(Rng &r, const sp::Cpx &c, size_t nv, int md) { LC z(nv, md); for (auto &s : sp::random_order(r, c)) z.add(s); return z; }
static sp::Cpx image(const sp::Cpx &c, const std::vector<size_t> &f0) { sp::Cpx y; for (auto s : c.all) { std::set<size_t> t; for (auto v : s) t.insert(f0[v]); y.add(Sx(t.begin(), t.end())); } return y; }
template <class X> void simplicial(Case &C) {
  Rng &r = C.rng; auto a = r.chance(.3) ? sp::random_space(r) : sp::random(r, r.r(1, 8), r.r(0, 3), r.r(1, 8)); size_t nv = a.nv(), nw = r.r(1, 8), nu = r.r(1, 6);
  std::vector<size_t> f0(nv), g0(nw); for (auto &v : f0) v = r.r(0, nw - 1); for (auto &v : g0) v = r.r(0, nu - 1); if (r.chance(.3)) { nw = nv; g0.assign(nw, 0); for (auto &v : g0) v = r.r(0, nu - 1); f0 = r.perm(nv); }
  auto b = image(a, f0); if (r.chance(.7)) b = sp::unite(b, sp::random(r, nw, r.r(0, 3), r.r(0, 5))); auto c = image(b, g0); if (r.chance(.5)) c = sp::unite(c, sp::random(r, nu, r.r(0, 2), r.r(0, 3)));
  C.desc << sp::show(a) << " -> " << sp::show(b) << " by " << show(f0) << " -> by " << show(g0); if (a.all.size() > 2) C.nontrivial();
  int extra = r.chance(.3) ? 1 : 0; X x = build<X>(r, a, nv, a.dim() + extra), y = build<X>(r, b, nw, b.dim()), z = build<X>(r, c, nu, c.dim());
  auto f = bats::SimplicialMap(x, y, f0), g = bats::SimplicialMap(y, z, g0); auto Ff = chain(C, x, y, f, "f"), Fg = chain(C, y, z, g, "g");
  for (size_t k = 0; k < Ff.size(); k++) REQUIRE(Ff[k] == expect(x, y, k, f0), "map-definition", "dimension " << k << ": " << Ff[k].str() << " expected " << expect(x, y, k, f0).str());
  std::vector<size_t> h0(nv); for (size_t i = 0; i < nv; i++) h0[i] = g0[f0[i]]; auto h = bats::SimplicialMap(x, z, h0); auto Fh = chain(C, x, z, h, "g f");
  for (size_t k = 0; k < Ff.size(); k++) { DM w = k < Fg.size() ? Fg[k] * Ff[k] : DM(Fh[k].r, Fh[k].c); REQUIRE(w == Fh[k], "composition", "dimension " << k); }
  std::vector<size_t> id(nv); for (size_t i = 0; i < nv; i++) id[i] = i; auto I1 = bats::SimplicialMap(x, x, id), I2 = bats::SimplicialMap(x, x), I3 = bats::CellularMap::identity(x); for (auto *q : {&I1, &I2, &I3}) { auto Q = chain(C, x, x, *q, "identity"); for (size_t k = 0; k < Q.size(); k++) REQUIRE(Q[k] == DM::I(nc(x, k)), "identity", "dimension " << k); }
  // inclusion of a subcomplex sends each cell to itself
  sp::Cpx s; for (auto &t : a.all) if (r.chance(.3)) s.add(t); if (s.all.empty()) s.add(*a.all.begin()); X sx = build<X>(r, s, nv, r.chance(.3) ? a.dim() + 1 : s.dim()); auto inc = bats::SimplicialMap(sx, x), inc2 = bats::CellularMap(sx, x); auto Fi = chain(C, sx, x, inc, "inclusion"), Fj = chain(C, sx, x, inc2, "inclusion"); for (size_t k = 0; k < Fi.size(); k++) { DM w = expect(sx, x, k, id); REQUIRE(Fi[k] == w && Fj[k] == w, "inclusion", "dimension " << k); }
  // a map whose target lacks a simplex must be refused
  if (s.all.size() < a.all.size()) { MUST_THROW(bats::CellularMap(x, sx), "inclusion-missing", "inclusion into a smaller complex accepted"); MUST_THROW(bats::SimplicialMap(x, sx, id), "map-missing", "map without target simplices accepted"); C.count("refused"); }
  // copies
  bats::CellularMap cp = f; cp[0] = ColumnMatrix<SparseVector<int, size_t>>(1, 1); REQUIRE(im(f[0]) == Ff[0], "copy-independent", "");
}
FAMILY(trie, 1500, 20000) { simplicial<SC>(C); }
FAMILY(light, 1500, 20000) { simplicial<LC>(C); }
FAMILY(cubical, 800, 10000) {
  Rng &r = C.rng; size_t n = r.r(1, 3); sp::Cubes all, sub; int m = r.r(1, 8); C.desc << n; QC x(n), y(n);
  for (int i = 0; i < m; i++) { auto c = sp::random_cube(r, n, 2); all.add(c); C.desc << show(c); x.add_recursive(c); if (r.chance(.4)) { sub.add(c); y.add_recursive(c); } } C.nontrivial(); if (sub.all.empty()) { auto c = *all.all.begin(); sub.add(c); y.add_recursive(c); }
  auto f = bats::CubicalMap(y, x), g = bats::CellularMap(y, x); auto Ff = chain(C, y, x, f, "cubical inclusion"), Fg = chain(C, y, x, g, "cubical inclusion");
  for (size_t k = 0; k <= n; k++) { DM w(x.ncells(k), y.ncells(k)); for (size_t j = 0; j < y.ncells(k); j++) { auto c = y.get_cube(k, j); for (size_t i = 0; i < x.ncells(k); i++) if (x.get_cube(k, i) == c) w(i, j) = K(1); } REQUIRE(Ff[k] == w && Fg[k] == w, "inclusion", k); }
  if (sub.all.size() < all.all.size()) MUST_THROW(bats::CubicalMap(x, y), "inclusion-missing", "");
  auto I = bats::CellularMap::identity(x); auto Q = chain(C, x, x, I, "identity"); for (size_t k = 0; k <= n; k++) REQUIRE(Q[k] == DM::I(x.ncells(k)), "identity", k);
}
// relative maps (X,A) -> (Y,B) restricted to the complements commute with relative boundaries
FAMILY(relative, 500, 6000) {
  Rng &r = C.rng; auto a = sp::random(r, r.r(2, 7), r.r(1, 3), r.r(2, 8)); size_t nv = a.nv(), nw = r.r(1, 6); std::vector<size_t> f0(nv), id(nv); for (auto &v : f0) v = r.r(0, nw - 1); for (size_t i = 0; i < nv; i++) id[i] = i;
  auto b = sp::unite(image(a, f0), sp::random(r, nw, 2, r.r(0, 3))); sp::Cpx a1; for (auto &t : a.all) if (r.chance(.15)) a1.add(t); if (a1.all.empty()) a1.add({a.all.begin()->at(0)}); auto b1 = image(a1, f0); if (r.chance(.5)) b1.add(*b.all.rbegin());
  C.desc << sp::show(a) << " rel " << sp::show(a1) << " -> " << sp::show(b) << " rel " << sp::show(b1) << " by " << show(f0); C.nontrivial();
  // equal maximal dimensions keep the pair complexes comparable
  auto mk = [&](const sp::Cpx &c) { SC z(4); for (auto &s : sp::random_order(r, c)) z.add_directed(s); return z; };
  SC X = mk(a), A = mk(a1), Y = mk(b), B = mk(b1); auto f = bats::SimplicialMap(X, Y, f0); Map R(f, X, A, Y, B); bats::ChainComplex<CM> cx(X, A), cy(Y, B);
  REQUIRE(cx.is_valid_complex() && cy.is_valid_complex(), "relative-complex", "relative boundary does not square to zero");
  for (size_t k = 0; k <= X.maxdim(); k++) { REQUIRE(R[k].nrow() == cy.dim(k) && R[k].ncol() == cx.dim(k), "relative-shape", k); if (k) REQUIRE(dense(cy[k]) * dense(R[k]) == dense(R[k - 1]) * dense(cx[k]), "relative-chain-map", "dimension " << k);
    auto ix = [&](const SC &big, const SC &sub) { std::vector<size_t> v; for (size_t i = 0; i < big.ncells(k); i++) { auto s = big.get_simplex(k, i); if (sub.find_idx(s) == bats::NO_IND) v.push_back(i); } return v; };
    REQUIRE(dense(R[k]) == expect(X, Y, k, f0).rows(ix(Y, B)).cols(ix(X, A)), "relative-entries", "dimension " << k); }
  Map full(f); auto iX = X.get_indices(A), iY = Y.get_indices(B); auto R2 = full.relative_map(iY, iX); for (size_t k = 0; k <= X.maxdim(); k++) REQUIRE(dense(R2[k]) == dense(R[k]), "relative_map", "dimension " << k);
}
// valid cell maps: chain maps of random chain complexes of one-sided shape, given as integer matrices
FAMILY(cellmap, 800, 10000) {
  Rng &r = C.rng; // graph maps between cell complexes with several vertices and loops
  bats::CellComplex x, y; size_t nx = r.r(1, 4), ny = r.r(1, 4); x.add_vertices(nx); y.add_vertices(ny); size_t ex = r.r(1, 5), ey = r.r(1, 5); std::vector<std::pair<size_t, size_t>> gy; C.desc << nx << "," << ny << ";";
  for (size_t i = 0; i < ny; i++) { y.add({i, (i + 1) % ny}, {-1, 1}, 1); gy.push_back({i, (i + 1) % ny}); } if (ny == 1) { bats::CellComplex z; z.add_vertices(1); z.add({}, {}, 1); y = z; gy = {{0, 0}}; }
  for (size_t i = 0; i < ey; i++) { size_t a = r.r(0, ny - 1), b = r.r(0, ny - 1); gy.push_back({a, b}); if (a == b) y.add({}, {}, 1); else y.add({a, b}, {-1, 1}, 1); }
  std::vector<size_t> f0(nx); for (auto &v : f0) v = r.r(0, ny - 1); std::vector<SparseVector<int, size_t>> c0, c1; for (auto v : f0) c0.push_back(SparseVector<int, size_t>(std::vector<size_t>{v}, std::vector<int>{1}));
  for (size_t i = 0; i < ex; i++) { size_t a = r.r(0, nx - 1), b = r.r(0, nx - 1); if (a == b) x.add({}, {}, 1); else x.add({a, b}, {-1, 1}, 1); C.desc << a << "-" << b << " "; std::map<size_t, int> w; size_t v = f0[a]; while (v != f0[b]) { w[v]++; v = (v + 1) % ny; } if (r.chance(.5)) { size_t q = ny + r.r(0, ey - 1); if (gy[q].first == gy[q].second) w[q] += r.r(-2, 2); }
    std::vector<size_t> ii; std::vector<int> vv; for (auto &p : w) if (p.second) { ii.push_back(p.first); vv.push_back(p.second); } c1.push_back(SparseVector<int, size_t>(ii, vv)); }
  C.nontrivial(); bats::CellularMap f(1); f[0] = ColumnMatrix<SparseVector<int, size_t>>(ny, nx, c0); f[1] = ColumnMatrix<SparseVector<int, size_t>>(y.ncells(1), ex, c1); auto Ff = chain(C, x, y, f, "cell map");
  DM w(ny, nx); for (size_t i = 0; i < nx; i++) w(f0[i], i) = K(1); REQUIRE(Ff[0] == w, "cell-map-entries", ""); auto I = bats::CellularMap::identity(x); auto Q = chain(C, x, x, I, "identity"); for (size_t k = 0; k < Q.size(); k++) REQUIRE(Q[k] == DM::I(nc(x, k)), "identity", k);
}
