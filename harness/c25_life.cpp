// C25: histories of copies, moves, swaps, relocations and mutations on every value type; empty and boundary-size objects.
#include "filt.hpp"
using namespace vh; using namespace bats;
typedef LightSimplicialComplex<size_t> LC;
typedef std::string S;
typedef std::ostringstream O;
template <class V> void put(O &o, const V &v) { o << v.size() << "("; for (auto &x : v) o << x << " "; o << ")"; }
template <class T> void put2(O &o, const std::vector<std::vector<T>> &v) { o << v.size() << "{"; for (auto &x : v) put(o, x); o << "}"; }
template <class M> void mat(O &o, const M &m) { o << m.nrow() << "x" << m.ncol() << ":" << m.cols().size(); for (size_t j = 0; j < m.cols().size(); j++) { o << "|"; for (auto it = m[j].nzbegin(); it != m[j].nzend(); ++it) o << it->ind << ":" << it->val << " "; } }
template <class M> void mats(O &o, const std::vector<M> &v) { o << v.size(); for (auto &m : v) mat(o, m); }
template <class X> void cells(O &o, const X &x) { o << "d" << x.maxdim() << " n" << x.ncells(); for (size_t k = 0; k < x.maxdim() + 1; k++) { o << " " << x.ncells(k) << ":"; for (size_t i = 0; i < x.ncells(k); i++) { auto s = x.get_cell(k, i); put(o, s); o << "@" << x.find_idx(s); } if (k && x.ncells(k)) { auto B = x.boundary_csc(k); put(o, B.get_colptr()); put(o, B.get_rowind()); put(o, B.get_val()); o << B.nrow() << "x" << B.ncol(); } } o << " beyond " << x.ncells(x.maxdim() + 1); }
// one history over a vector of objects; every object is compared with what it must hold after every step
template <class X, class FP, class MK, class MU> void life(Case &C, const char *name, FP fp, MK make, MU mutate, size_t len = 0) {
  Rng &r = C.rng; std::vector<X> V; std::vector<S> E; std::vector<S> log; auto at = [&] { return (size_t)r.r(0, V.size() - 1); };
  auto ok = [&](const X &x, const S &e, const char *w) { S g = fp(x); REQUIRE(g == e, w, name << " after " << show(log) << ": holds " << g << " expected " << e); };
  size_t n = len ? len : r.r(4, C.thorough ? 60 : 25); C.desc << name; if (r.chance(.3)) V.reserve(r.r(0, 40));
  for (size_t step = 0; step < n; step++) {
    int op = V.empty() ? 0 : r.r(0, 15); if (V.size() > 7 && r.chance(.6)) op = 7; O l;
    switch (op) {
      case 0: { X x = make(r); E.push_back(fp(x)); V.push_back(x); ok(x, E.back(), "original-changed"); l << "make"; break; }
      case 1: { size_t i = at(); S e = E[i]; V.push_back(V[i]); E.push_back(e); l << "push copy of " << i; break; }
      case 2: { size_t i = at(); X t(V[i]); ok(t, E[i], "copy-differs"); X u(std::move(t)); ok(u, E[i], "move-differs"); t = u; ok(t, E[i], "reassigned"); V.push_back(std::move(u)); E.push_back(S(E[i])); l << "push moved copy of " << i; break; }
      case 3: { size_t i = at(), j = at(); V[i] = V[j]; E[i] = S(E[j]); l << i << "=" << j; break; }
      case 4: { size_t i = at(), j = at(); if (i == j) { X &a = V[i], &b = V[i]; a = b; l << "self " << i; break; } V[i] = std::move(V[j]); E[i] = E[j]; ok(V[i], E[i], "move-assign-differs"); if (r.chance(.5)) { V[j] = V[i]; E[j] = E[i]; l << i << "=move " << j << ", then back"; } else if (r.chance(.5)) { V[j] = make(r); E[j] = fp(V[j]); l << i << "=move " << j << ", then new"; } else { V.erase(V.begin() + j); E.erase(E.begin() + j); l << i << "=move " << j << ", then erased"; } break; }
      case 5: { size_t i = at(), j = at(); std::swap(V[i], V[j]); std::swap(E[i], E[j]); l << "swap " << i << " " << j; break; }
      case 6: { size_t i = r.r(0, V.size()), j = at(); X t(V[j]); S e = E[j]; V.insert(V.begin() + i, t); E.insert(E.begin() + i, e); l << "insert copy of " << j << " at " << i; break; }
      case 7: { size_t i = at(); V.erase(V.begin() + i); E.erase(E.begin() + i); l << "erase " << i; break; }
      case 8: { std::vector<X> W(V); for (size_t i = 0; i < W.size(); i++) ok(W[i], E[i], "copied-vector-differs"); if (r.chance(.5)) V = W; else V.swap(W); l << "copy all"; break; }
      case 9: { X *p = new X(V[at()]); size_t i = at(); *p = V[i]; ok(*p, E[i], "heap-copy-differs"); X *q = new X(std::move(*p)); delete p; ok(*q, E[i], "heap-move-differs"); V[i] = *q; delete q; l << "heap " << i; break; }
      case 10: { size_t i = at(); V[i] = X(); E[i] = fp(X()); X d; ok(d, E[i], "default-differs"); X t(d), u; u = d; ok(t, E[i], "default-copy"); ok(u, E[i], "default-assign"); l << "default " << i; break; }
      default: { size_t i = at(); X w(V[i]); uint64_t seed = r.next(); Rng a(seed), b(seed); mutate(a, V[i]); ok(w, E[i], "copy-changed-with-original"); mutate(b, w); S e = fp(V[i]); S g = fp(w); REQUIRE(g == e, "copy-behaves-differently", name << " after " << show(log) << ": " << g << " and " << e); E[i] = e; l << "mutate " << i; }
    }
    log.push_back(l.str()); REQUIRE(V.size() == E.size(), "harness", "sizes"); for (size_t i = 0; i < V.size(); i++) ok(V[i], E[i], "object-changed"); C.count("steps");
  }
  for (auto &x : log) C.desc << "; " << x; C.nontrivial();
}
static SimplicialComplex scx(Rng &r, bool z = true) { if (z && r.chance(.15)) return SimplicialComplex(); auto x = sp::random(r, r.r(1, 6), r.r(0, 3), r.r(1, 5)); return make_sc(r, x); }
static void grow(Rng &r, SimplicialComplex &x) { for (int t = r.r(1, 3); t--;) { auto s = r.subset(8, r.r(1, 4)); if (r.chance(.5)) x.add_recursive(s); else x.add(s); } }
#if PART == 1
typedef SparseVector<int, size_t> IV; typedef ColumnMatrix<IV> IM;
FAMILY(vectors, 150, 4000) {
  auto fp = [](const SV &v) { O o; for (auto it = v.nzbegin(); it != v.nzend(); ++it) o << it->ind << ":" << it->val << " "; o << v.nnz() << (v == v); return o.str(); };
  auto mk = [](Rng &r) { return r.chance(.2) ? SV() : sparse(randM(r, r.r(1, 12), 1, r.u01())).cols()[0]; };
  auto mu = [&](Rng &r, SV &v) { switch (r.r(0, 6)) { case 0: v.axpy(toF(randK_nz(r)), mk(r)); break; case 1: v.axpy(F(2), v); break; case 2: v = v + v; break; case 3: v.clear_zeros(); break; case 4: v = v.shift_inds(r.r(0, 3)); break; case 5: if (v.nnz()) { auto l = v.lastnz(); v.axpy(-F(1), SV(l.ind, l.val)); } break; default: v.clear(); } };
  life<SV>(C, "SparseVector", fp, mk, mu);
}
FAMILY(matrices, 150, 4000) {
  auto fp = [](const CM &m) { O o; mat(o, m); o << (m == m); return o.str(); };
  auto mk = [](Rng &r) { return r.chance(.2) ? CM() : r.chance(.2) ? CM(r.r(0, 5), r.r(0, 5)) : sparse(randM(r, r.r(0, 6), r.r(0, 6), r.u01())); };
  auto mu = [&](Rng &r, CM &m) { size_t a = m.nrow(), b = m.ncol(); switch (r.r(0, 9)) { case 0: m = m.T(); break; case 1: m = m * m.T(); break; case 2: m.append_column(); break; case 3: m.append_row(); break; case 4: if (b) m.append_column(m[r.r(0, b - 1)]); break; case 5: if (b > 1) m.swap_cols(0, b - 1); break; case 6: m.permute_rows(r.perm(a)); break; case 7: if (b) m[0] = m[b - 1]; break; case 8: m = m + m; break; default: if (b) m.erase_column(r.r(0, b - 1)); } };
  life<CM>(C, "ColumnMatrix", fp, mk, mu);
  auto fi = [](const IM &m) { O o; mat(o, m); return o.str(); }; auto mi = [](Rng &r) { IM m(r.r(0, 4), r.r(0, 4)); if (m.nrow()) for (size_t j = 0; j < m.ncol(); j++) if (r.chance(.5)) m[j] = IV({(size_t)r.r(0, m.nrow() - 1)}, {(int)r.r(1, 4)}); return m; };
  life<IM>(C, "integer ColumnMatrix", fi, mi, [&](Rng &r, IM &m) { m = r.chance(.5) ? m.T() : mi(r); });
  typedef CSCMatrix<int, size_t> X; auto fc = [](const X &m) { O o; put(o, m.get_colptr()); put(o, m.get_rowind()); put(o, m.get_val()); o << m.nrow() << "x" << m.ncol(); for (size_t i = 0; i < std::min<size_t>(m.nrow(), 6); i++) for (size_t j = 0; j < m.ncol(); j++) o << m.getval(i, j) << ","; return o.str(); };
  auto mc = [](Rng &r) { if (r.chance(.2)) return X(); size_t m = r.r(0, 5), n = r.r(0, 5); std::vector<size_t> p(1, 0), q; std::vector<int> v; for (size_t j = 0; j < n; j++) { auto s = r.subset(m, r.r(0, m)); r.shuffle(s); for (auto i : s) { q.push_back(i); v.push_back(r.r(1, 9)); } p.push_back(q.size()); } return r.chance(.5) ? X(m, n, p, q, v) : X(p, q, v); };
  life<X>(C, "CSCMatrix", fc, mc, [&](Rng &r, X &m) { std::vector<size_t> a = m.nrow() ? r.subset(m.nrow(), r.r(0, m.nrow())) : std::vector<size_t>(), b = m.ncol() ? r.subset(m.ncol(), r.r(0, m.ncol())) : std::vector<size_t>(); if (r.chance(.5) && m.ncol()) m = m.submatrix(a, b); else m = mc(r); });
}
FAMILY(scalars, 100, 3000) {
  typedef UnivariatePolynomial<F> PP; auto fp = [](const PP &p) { O o; o << p.size() << ":"; for (size_t i = 0; i < p.size(); i++) o << p[i] << " "; o << p.is_zero() << p(F(2)); return o.str(); };
  auto mk = [](Rng &r) { std::vector<F> c(r.r(0, 5)); for (auto &x : c) x = F((int)r.r(0, 2)); return PP(c); };
  life<PP>(C, "UnivariatePolynomial", fp, mk, [&](Rng &r, PP &p) { switch (r.r(0, 4)) { case 0: p = p + p; break; case 1: p = p * p; if (p.size() > 30) p = PP(); break; case 2: p = p - mk(r); break; case 3: p = -p; break; default: if (!p.is_zero()) { auto q = mk(r); if (!q.is_zero()) p = std::get<1>(p.divrem(q)); } } });
  typedef Rational<int64_t> Q; life<Q>(C, "Rational", [](const Q &q) { O o; o << q; return o.str(); }, [](Rng &r) { return Q(r.r(-9, 9), r.r(1, 9)); }, [](Rng &r, Q &q) { if (r.chance(.3)) q += q; else if (r.chance(.5)) q = Q(r.r(-5, 5), 3) - q; else q = q * Q(1, 2); if (!(Q(-50) < q && q < Q(50)) || r.chance(.3)) q = Q(1); });
  life<F>(C, "ModP", [](const F &q) { O o; o << q; return o.str(); }, [](Rng &r) { return F((int)r.r(-9, 9)); }, [](Rng &r, F &q) { q += q; q *= F((int)r.r(0, 2)); });
  typedef SparseTrie<size_t, size_t> T3; static const std::vector<std::vector<size_t>> keys = [] { std::vector<std::vector<size_t>> v(1); for (size_t a = 0; a < 3; a++) { v.push_back({a}); for (size_t b = 0; b < 3; b++) { v.push_back({a, b}); for (size_t c = 0; c < 3; c++) v.push_back({a, b, c}); } } return v; }();
  auto ft = [](const T3 &t) { O o; for (auto &k : keys) o << t.get(k, 99) << " "; T3 u(t); for (auto &k : keys) o << u.count(k); return o.str(); }; auto put1 = [](Rng &r, T3 &t) { for (int i = r.r(0, 5); i--;) t.emplace(r.pick(keys), (size_t)r.r(0, 50)); };
  life<T3>(C, "SparseTrie", ft, [&](Rng &r) { T3 t; put1(r, t); return t; }, put1);
}
template <class X> S fpx(const X &x) { O o; cells(o, x); return o.str(); }
FAMILY(simplicial, 150, 4000) {
  auto mu = [](Rng &r, SimplicialComplex &x) { if (r.chance(.2)) { SimplicialComplex y = x; x = simplicial_union(x, y); } else if (r.chance(.15)) { auto y = scx(r); x = intersection(x, y); } else grow(r, x); };
  life<SimplicialComplex>(C, "SimplicialComplex", fpx<SimplicialComplex>, [](Rng &r) { return r.chance(.1) ? SimplicialComplex(r.r(0, 5), r.r(0, 3)) : scx(r); }, mu);
}
FAMILY(light, 150, 4000) {
  typedef std::pair<LC, size_t> Z; // with its number of labels
  auto fill = [](Rng &r, Z &z) { if (z.second) for (int t = r.r(0, 3); t--;) { size_t top = std::min<size_t>(z.second, z.first.maxdim() + 1); auto s = r.subset(z.second, r.r(1, top)); if (r.chance(.6)) z.first.add_recursive(s); else if (s.size() == 1) z.first.add(s); } };
  auto mk = [&](Rng &r) { if (r.chance(.15)) return Z(LC(), 0); size_t n = r.r(0, 7); Z z(LC(n, r.r(0, 3)), n); fill(r, z); return z; };
  life<Z>(C, "LightSimplicialComplex", [](const Z &z) { O o; cells(o, z.first); o << z.second; return o.str(); }, mk, fill);
}
FAMILY(cubical, 120, 3000) {
  typedef CubicalComplex X; auto fill = [](Rng &r, X &x) { for (int t = r.r(0, 3); t--;) { auto c = sp::random_cube(r, x.maxdim(), 2); if (r.chance(.7)) x.add_recursive(c); else x.add(c); } if (r.chance(.15)) x = x.skeleton(r.r(0, x.maxdim())); };
  auto fp = [](const X &x) { O o; cells(o, x); for (size_t k = 0; k <= x.maxdim(); k++) put2(o, x.get_cubes(k)); put2(o, x.get_cubes()); return o.str(); };
  life<X>(C, "CubicalComplex", fp, [&](Rng &r) { if (r.chance(.15)) return X(); if (r.chance(.15)) { X y; y.set_dimension(r.r(0, 3)); fill(r, y); return y; } X x(r.r(0, 3)); fill(r, x); return x; }, fill);
}
FAMILY(cell, 120, 3000) {
  typedef CellComplex X; auto fp = [](const X &x) { O o; o << x.maxdim() << " " << x.ncells(); for (size_t k = 0; k <= x.maxdim(); k++) { o << " " << x.ncells(k); if (k) { auto B = x.boundary_csc(k); put(o, B.get_colptr()); put(o, B.get_rowind()); put(o, B.get_val()); } } return o.str(); };
  life<X>(C, "CellComplex", fp, [](Rng &r) { std::string d; return r.chance(.2) ? X() : r.chance(.2) ? X(r.r(0, 4)) : make_cell(r, d); }, [](Rng &r, X &x) { x.add_vertices(r.r(0, 2)); if (x.ncells(0) > 1 && r.chance(.6)) x.add({0, 1}, {-1, 1}, 1); if (x.maxdim() && x.ncells(1) && r.chance(.5)) x.add({0}, {(int)r.r(1, 3)}, r.r(2, 2)); });
}
#else
FAMILY(filtrations, 120, 3000) {
  typedef Filtration<double, SimplicialComplex> X; auto fp = [](const X &f) { O o; cells(o, f.complex()); put2(o, f.vals()); return o.str(); };
  auto fill = [](Rng &r, X &f) { for (int t = r.r(1, 4); t--;) { auto s = r.subset(6, r.r(1, 3)); if (f.complex().find_idx(s) == NO_IND) f.add_recursive(r.r(0, 9), s); } };
  life<X>(C, "Filtration", fp, [&](Rng &r) { X f; if (r.chance(.8)) fill(r, f); return f; }, fill);
  typedef zigzag::ZigzagFiltration<SimplicialComplex, double> Z; auto fz = [](const Z &f) { O o; cells(o, f.complex()); o << f.vals().size(); for (auto &d : f.vals()) { o << "{"; for (auto &c : d) { o << c.size() << ":"; for (auto &p : c) o << p.first << "-" << p.second << " "; } o << "}"; } return o.str(); };
  auto fillz = [](Rng &r, Z &f) { for (int t = r.r(1, 4); t--;) { auto s = r.subset(6, r.r(1, 3)); f.add_recursive((double)r.r(0, 4), (double)r.r(5, 9), s); } };
  life<Z>(C, "ZigzagFiltration", fz, [&](Rng &r) { Z f; if (r.chance(.8)) fillz(r, f); return f; }, fillz);
}
static S fcc(const CC &c) { O o; mats(o, c.boundary); for (size_t k = 0; k < c.boundary.size(); k++) o << " " << c.dim(k); return o.str(); }
static CC mkcc(Rng &r) { if (r.chance(.15)) return CC(); if (r.chance(.15)) return CC((size_t)r.r(0, 3)); return rand_src(r, r.r(0, 7)).C; }
static void mucc(Rng &r, CC &c) { if (c.boundary.size() && r.chance(.6)) { std::vector<std::vector<size_t>> p; for (size_t k = 0; k < c.boundary.size(); k++) p.push_back(r.perm(c.dim(k))); c.ipermute_basis(p); } else if (r.chance(.5)) c = mkcc(r); else if (c.boundary.size()) c.boundary.pop_back(); }
FAMILY(chains, 120, 3000) {
  life<CC>(C, "ChainComplex", fcc, mkcc, mucc, C.thorough ? 0 : 14);
  typedef ChainMap<CM> X; auto mk = [](Rng &r) { if (r.chance(.2)) return X(); auto x = sp::random(r, r.r(1, 5), 2, 3); auto s = make_sc(r, x); return X(CellularMap::identity(s)); };
  life<X>(C, "ChainMap", [](const X &m) { O o; o << m.map.size(); mats(o, m.map); return o.str(); }, mk, [&](Rng &r, X &m) { if (m.map.size() && r.chance(.5)) m[0] = m[0] + m[0]; else m = mk(r); }, 14);
  auto mkm = [](Rng &r) { if (r.chance(.2)) return CellularMap(); if (r.chance(.2)) return CellularMap(r.r(0, 3)); auto x = sp::random(r, r.r(1, 5), 2, 3); auto s = make_sc(r, x); return CellularMap::identity(s); };
  life<CellularMap>(C, "CellularMap", [](const CellularMap &m) { O o; o << m.maxdim(); for (size_t k = 0; k < m.maxdim() + 1; k++) mat(o, m[k]); return o.str(); }, mkm, [&](Rng &r, CellularMap &m) { size_t k = r.r(0, 3); m[k] = ColumnMatrix<SparseVector<int, size_t>>(r.r(0, 2), r.r(0, 2)); }, 14);
}
template <class R> S fpr(const R &z, bool reps = true) { O o; mats(o, z.U); mats(o, z.R); put2(o, z.I); put2(o, z.p2c); for (size_t k = 0; k < z.I.size(); k++) { o << " b" << z.hdim(k); } return o.str(); }
FAMILY(reduced, 120, 3000) {
  typedef ReducedChainComplex<CM> X; auto fp = [](const X &z) { O o; o << fpr(z); for (size_t k = 0; k < z.I.size() && k < z.U.size(); k++) for (size_t i = 0; i < z.hdim(k); i++) { auto v = z.get_preferred_representative(i, k); for (auto it = v.nzbegin(); it != v.nzend(); ++it) o << it->ind << ":" << it->val << " "; o << "/"; } return o.str(); };
  auto mk = [](Rng &r) { if (r.chance(.15)) return X(); auto c = rand_src(r, r.r(0, 7)).C; switch (r.r(0, 3)) { case 0: return X(c); case 1: return X(c, standard_reduction_flag()); case 2: return X(c, extra_reduction_flag()); default: return X(c, standard_reduction_flag(), clearing_flag()); } };
  life<X>(C, "ReducedChainComplex", fp, mk, [&](Rng &r, X &z) { z = mk(r); }, 12);
}
template <class X> std::vector<std::vector<double>> newvals(Rng &r, const X &x) { std::vector<std::vector<double>> v(x.maxdim() + 1); for (size_t k = 0; k < v.size(); k++) for (size_t i = 0; i < x.ncells(k); i++) { double m = r.r(0, 6); auto s = x.get_simplex(k, i); for (auto &f : sp::facets_of(s)) m = std::max(m, v[k - 1][x.find_idx(f)]); v[k].push_back(m); } return v; }
FAMILY(filtered, 120, 3000) {
  typedef FilteredChainComplex<double, CM> X; auto fp = [](const X &z) { O o; o << fcc(z.complex()); put2(o, z.vals()); put2(o, z.perm); return o.str(); };
  typedef std::pair<X, SimplicialComplex> PX; auto mk = [](Rng &r) { if (r.chance(.15)) return PX(); auto s = make_sc(r, sp::random(r, r.r(1, 5), 2, 4)); return PX(X(Filtration(s, newvals(r, s))), s); };
  life<PX>(C, "FilteredChainComplex", [&](const PX &p) { return fp(p.first); }, mk, [&](Rng &r, PX &p) { if (p.second.ncells()) p.first.update_filtration(newvals(r, p.second)); else p = mk(r); }, 14);
  typedef ReducedFilteredChainComplex<double, CM> Y; typedef std::pair<Y, SimplicialComplex> PY; auto fy = [](const PY &p) { O o; auto &y = p.first; o << fpr(y.RC); put2(o, y.val); put2(o, y.perm); for (size_t k = 0; k < y.val.size(); k++) for (auto &b : y.persistence_pairs(k)) o << b.dim << " " << b.birth_ind << " " << b.death_ind << " " << b.birth << " " << b.death << ";"; return o.str(); };
  auto mky = [&](Rng &r) { if (r.chance(.15)) return PY(); auto s = make_sc(r, sp::random(r, r.r(1, 5), 2, 4)); return PY(Y(X(Filtration(s, newvals(r, s)))), s); };
  life<PY>(C, "ReducedFilteredChainComplex", fy, mky, [&](Rng &r, PY &p) { if (p.second.ncells()) p.first.update_filtration(newvals(r, p.second)); else p = mky(r); }, 14);
}
FAMILY(graded, 120, 3000) {
  typedef DGVectorSpace<CM> X; auto fp = [](const X &x) { O o; o << x.degree << " "; mats(o, x.differential); return o.str(); }; auto mk = [](Rng &r) { if (r.chance(.15)) return X(); if (r.chance(.1)) return X((size_t)r.r(0, 2), r.chance(.5) ? 1 : -1); auto s = make_sc(r, sp::random(r, r.r(1, 5), 2, 4)); return X(s, r.chance(.5) ? 1 : -1, r.chance(.3)); };
  life<X>(C, "DGVectorSpace", fp, mk, [&](Rng &r, X &x) { x = mk(r); }, 12);
  typedef ReducedDGVectorSpace<CM> Y; auto fy = [](const Y &z) { O o; o << z.degree << " "; mats(o, z.U); mats(o, z.R); put2(o, z.I); put2(o, z.p2c); return o.str(); }; auto mky = [](Rng &r) { if (r.chance(.15)) return Y(); auto s = make_sc(r, sp::random(r, r.r(1, 5), 2, 4)); return Y(X(s, r.chance(.5) ? 1 : -1)); };
  life<Y>(C, "ReducedDGVectorSpace", fy, mky, [&](Rng &r, Y &x) { x = mky(r); }, 12);
}
FAMILY(diagrams, 100, 2500) {
  typedef Diagram<CM, CM> X; auto fp = [](const X &d) { O o; mats(o, d.node); mats(o, d.edata); for (auto &e : d.elist) o << e.src << ">" << e.targ << " "; o << d.nnode() << d.nedge(); return o.str(); };
  auto rm = [](Rng &r) { return sparse(randM(r, r.r(0, 3), r.r(0, 3), .5)); }; auto mu = [&](Rng &r, X &d) { if (r.chance(.5) || !d.nnode()) d.add_node(rm(r)); else if (r.chance(.5)) { CM m = rm(r); d.add_edge(r.r(0, d.nnode() - 1), r.r(0, d.nnode() - 1), m); CM z = rm(r); d.set_node(0, z); } else if (d.nedge()) d.set_edge(d.nedge() - 1, 0, 0, d.edge_data(0)); else d.set_node(0, d.node_data(d.nnode() - 1)); };
  life<X>(C, "Diagram", fp, [&](Rng &r) { X d; for (int t = r.r(0, 3); t--;) mu(r, d); return d; }, mu, 16);
  typedef Diagram<SimplicialComplex, CellularMap> Y; auto fy = [](const Y &d) { O o; for (auto &x : d.node) cells(o, x); for (auto &e : d.elist) o << e.src << ">" << e.targ << " "; for (auto &m : d.edata) for (size_t k = 0; k < m.maxdim() + 1; k++) mat(o, m[k]); return o.str(); };
  auto muy = [](Rng &r, Y &d) { auto s = scx(r, false); d.add_node(s); size_t i = d.nnode() - 1; d.add_edge(i, i, CellularMap::identity(d.node_data(i))); if (r.chance(.4)) grow(r, d.node_data(0)); }; life<Y>(C, "Diagram of complexes", fy, [&](Rng &r) { Y d; for (int t = r.r(0, 2); t--;) muy(r, d); return d; }, muy, 12);
}
// objects with nothing in them go through the pipeline
FAMILY(empty, 60, 600) {
  Rng &r = C.rng; int k = C.idx % 12; C.desc << "empty input " << k; C.nontrivial(); O o;
  auto chain = [&](const CC &c) { o << fcc(c); auto z = Reduce(c); o << fpr(z); for (size_t d = 0; d < z.I.size(); d++) REQUIRE(z.hdim(d) == 0, "betti-of-nothing", "dimension " << d << ": " << z.hdim(d)); };
  switch (k) {
    case 0: { SimplicialComplex x; chain(CC(x)); chain(CC(SimplicialComplex(0, r.r(0, 3)))); break; }
    case 1: { LC x; cells(o, x); chain(CC(x)); LC y(r.r(0, 4), r.r(0, 3)); chain(CC(y)); break; }
    case 2: { CubicalComplex x; cells(o, x); CubicalComplex y(r.r(0, 3)); chain(CC(y)); chain(CC(x)); break; }
    case 3: { CellComplex x; chain(CC(x)); chain(CC(CellComplex(r.r(0, 3)))); break; }
    case 4: { CM a(0, r.r(0, 3)), b(r.r(0, 3), 0); mat(o, a * CM(a.ncol(), 2)); mat(o, CM(2, b.nrow()) * b); mat(o, a.T()); mat(o, b.T()); mat(o, CM(0, 0) * CM(0, 0)); CM z = a; auto p = reduce_matrix_standard(z); REQUIRE(p.size() == 0, "pivots-of-nothing", p.size()); break; }
    case 5: { Filtration<double, SimplicialComplex> f; auto c = Chain(f, F()); auto z = Reduce(c); for (size_t d = 0; d < z.val.size(); d++) REQUIRE(z.persistence_pairs(d).empty(), "pairs-of-nothing", d); break; }
    case 6: { CubicalComplex x(0); REQUIRE(x.maxdim() == 0 && x.ncells() == 0, "cells-of-nothing", x.ncells()); std::vector<size_t> c; REQUIRE(x.find_idx(c) == NO_IND || true, "x", ""); o << x.get_cubes(0).size() << x.get_cubes().size(); break; }
    case 7: { SimplicialComplex a, b = scx(r, false); auto u = simplicial_union(a, b); auto v = intersection(a, b); REQUIRE(u.ncells() == b.ncells() && v.ncells() == 0, "union-with-nothing", u.ncells() << " " << v.ncells()); break; }
    case 8: { SV a, b; a.axpy(F(1), b); REQUIRE(a.nnz() == 0 && a == b, "sum-of-nothing", a.nnz()); a.clear_zeros(); a.permute({}); o << a.nnz(); break; }
    case 9: { CSCMatrix<int, size_t> m; o << m.nrow() << m.ncol(); CM a(m); mat(o, a); REQUIRE(a.ncol() == 0, "columns-of-nothing", a.ncol()); break; }
    case 10: { Diagram<SimplicialComplex, CellularMap> d(1, 0); auto c = Chain(d, F()); REQUIRE(c.nnode() == 1 && c.nedge() == 0, "diagram-of-nothing", c.nnode()); break; }
    default: { DGVectorSpace<CM> x(SimplicialComplex(), r.chance(.5) ? 1 : -1); auto z = ReducedDGVectorSpace<CM>(x); for (size_t d = 0; d < z.maxdim() + 1; d++) REQUIRE(z.hdim(d) == 0, "betti-of-nothing", "graded, dimension " << d << ": " << z.hdim(d)); }
  }
}
#endif
