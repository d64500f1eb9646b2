// C27: dense matrices in every memory layout and their factorisations; the dense matrices, spans, similarity transforms and permutations of future.hpp
#include "bridge.hpp"
#include <future.hpp>
using namespace vh;
namespace fu = bats::future;
template <class Acc> using Mt = A<Dense<F, Acc>>;
template <class M> DM dd(const M &a) { DM d(a.nrow(), a.ncol()); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) d(i, j) = toK(a(i, j)); return d; }
template <class M> M put(const DM &d) { M a(d.r, d.c); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) a((int)i, (int)j) = toF(d(i, j)); return a; }
template <class M> void same(const M &a, const DM &want, const std::string &w) { REQUIRE(a.nrow() == want.r && a.ncol() == want.c, w, "shape " << a.nrow() << "x" << a.ncol() << " expected " << want.r << "x" << want.c); DM g = dd(a); REQUIRE(g == want, w, g.str() << " expected " << want.str()); }
static DM rev(const DM &d) { DM e(d.r, d.c); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) e(d.r - 1 - i, d.c - 1 - j) = d(i, j); return e; }
static const int HI = FIELD == 0 ? 4 : 7;
static size_t side(Rng &r, int hi) { return FIELD && r.chance(.004) ? r.r(20, 45) : r.r(1, hi); } // rarely large enough for a size threshold in the code to matter
static DM any(Rng &r, size_t n, size_t m) { switch (r.r(0, 4)) { case 0: return randM(r, n, m, .25); case 1: return randM(r, n, m, FIELD == 0 ? .6 : 1); case 2: return randM_rank(r, n, m, std::min(n, m) ? r.r(0, std::min(n, m)) : 0); case 3: { DM d = randM(r, n, m, .5); if (m > 1) d.setcol(r.r(0, m - 1), d.col(r.r(0, m - 1))); for (size_t i = 0; i < n; i++) if (r.chance(.3)) for (size_t j = 0; j < m; j++) d(i, j) = K(0); return d; } default: return randM(r, n, m, .5); } }
static DM lower(Rng &r, size_t n, bool unit) { DM d(n, n); for (size_t i = 0; i < n; i++) { d(i, i) = unit ? K(1) : FIELD == 0 ? K(r.chance(.5) ? 1 : -1) : randK_nz(r); for (size_t j = 0; j < i; j++) if (r.chance(.5)) d(i, j) = FIELD == 0 ? K(r.chance(.5) ? 1 : -1) : randK_nz(r); } return d; }
// row echelon pivot matrix: units in columns 0..k-1, going down
static DM echelon(Rng &r, size_t n, size_t m) { DM d(n, m); size_t k = std::min(n, m); k = r.r(0, k); std::vector<size_t> p; for (size_t i = 0; i < n; i++) p.push_back(i); r.shuffle(p); p.resize(k); std::sort(p.begin(), p.end()); for (size_t j = 0; j < k; j++) d(p[j], j) = K(1); return d; }
static bool is_upper(const DM &d) { for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c && j < i; j++) if (!d(i, j).zero()) return false; return true; }
static bool unit(const DM &d) { if (d.r != d.c) return false; for (size_t i = 0; i < d.r; i++) if (d(i, i) != K(1)) return false; return true; }
static bool is_perm(const DM &d) { return d.r == d.c && d * d.T() == DM::I(d.r) && [&] { for (auto &x : d.a) if (!x.zero() && x != K(1)) return false; return true; }(); }
static bool is_ech(const DM &d) { long last = -1; bool gone = false; for (size_t j = 0; j < d.c; j++) { long p = -1, c = 0; for (size_t i = 0; i < d.r; i++) if (!d(i, j).zero()) { p = i; c++; if (d(i, j) != K(1)) return false; } if (c == 0) { gone = true; continue; } if (c > 1 || gone || p <= last) return false; last = p; } return true; }
static size_t nz(const DM &d) { size_t c = 0; for (auto &x : d.a) c += !x.zero(); return c; }
template <class G> void layout(Rng &r, G go) { switch (r.r(0, 3)) { case 0: go(RowMaj()); break; case 1: go(ColMaj()); break; case 2: go(RevRowMaj()); break; default: go(RevColMaj()); } }
#define LAYOUT(r, Acc, ...) layout(r, [&](auto acc_) { using Acc = decltype(acc_); __VA_ARGS__ })
FAMILY(layouts, 1500, 30000) {
  Rng &r = C.rng; size_t n = side(r, 6), m = side(r, 6); DM d = any(r, n, m); C.desc << d.str(); C.nontrivial();
  LAYOUT(r, Acc, {
    auto a = put<Mt<Acc>>(d); same(a, d, "access"); REQUIRE(a.size() == n * m, "size", a.size()); std::vector<K> flat, all; for (size_t k = 0; k < n * m; k++) flat.push_back(toK(a(k))); for (auto &x : d.a) all.push_back(x); auto key = [](const K &x) { DM o1(1, 1); o1(0, 0) = x; return o1.str(); }; std::multiset<std::string> s1, s2; for (auto &x : flat) s1.insert(key(x)); for (auto &x : all) s2.insert(key(x)); REQUIRE(s1 == s2, "storage", "single elements differ");
    same(a.Trp(), d.T(), "Trp"); same(a.JConj(), rev(d), "JConj"); same(a.TJConj(), rev(d).T(), "TJConj"); { auto t = a.Trp(); same(t.JConj(), rev(d).T(), "Trp-JConj"); same(t.Trp(), d, "Trp-Trp"); auto u = a.JConj(); same(u.TJConj(), d.T(), "JConj-TJConj"); }
    for (size_t j = 0; j < m; j++) { auto v = a[j]; REQUIRE(v.size() == n, "column-size", v.size()); size_t i = 0; for (auto x : v) { REQUIRE(i < n && toK(x) == d(i, j) && toK(v[i]) == d(i, j), "column", i << "," << j); i++; } REQUIRE(i == n, "column", i); }
    for (size_t i = 0; i < n; i++) { auto v = a.r(i); REQUIRE(v.size() == m, "row-size", v.size()); size_t j = 0; for (auto x : v) { REQUIRE(j < m && toK(x) == d(i, j) && toK(v(j)) == d(i, j), "row", i << "," << j); j++; } REQUIRE(j == m, "row", j); }
    auto b = a.copy(); same(b, d, "copy"); REQUIRE(a == b, "equal", "copy differs"); DM e = d;
    for (int t = r.r(1, 6); t--;) { size_t i = r.r(0, n - 1), i2 = r.r(0, n - 1), j = r.r(0, m - 1), j2 = r.r(0, m - 1); K k = randK(r); C.count("dense_steps");
      switch (r.r(0, 7)) { case 0: b.swap_rows(i, i2); for (size_t q = 0; q < m; q++) std::swap(e(i, q), e(i2, q)); break; case 1: b.swap_cols(j, j2); for (size_t q = 0; q < n; q++) std::swap(e(q, j), e(q, j2)); break;
        case 2: b.add_row_to(i, i2, toF(k)); for (size_t q = 0; q < m; q++) e(i, q) = e(i, q) + k * e(i2, q); break; case 3: b.add_col_to(j, j2, toF(k)); for (size_t q = 0; q < n; q++) e(q, j) = e(q, j) + k * e(q, j2); break;
        case 4: b.r(i) = a.r(i2); for (size_t q = 0; q < m; q++) e(i, q) = d(i2, q); break; case 5: { auto v = b[j]; v = a[j2]; for (size_t q = 0; q < n; q++) e(q, j) = d(q, j2); break; }
        case 6: b[j].axpy(toF(k), a[j2]); for (size_t q = 0; q < n; q++) e(q, j) = e(q, j) + k * d(q, j2); break; default: { K z = randK_nz(r); auto v = b.r(i); v /= toF(z); for (size_t q = 0; q < m; q++) e(i, q) = e(i, q) / z; } } same(b, e, "step"); }
    same(a, d, "original"); bool eq = e == d; REQUIRE((a == b) == eq, "equal", "after changes"); DM w = d; if (n > 1) { DM v(n - 1, m); auto c = put<Mt<Acc>>(v); REQUIRE(!(a == c), "equal", "shapes differ"); c.free(); } same(Mt<Acc>::identity(n), DM::I(n), "identity"); b.free(); a.free();
  });
}
FAMILY(products, 1500, 30000) {
  Rng &r = C.rng; size_t n = side(r, 6), k = side(r, 6), m = side(r, 6); DM x = any(r, n, k), y = any(r, k, m), s = any(r, k, k), p = x * y; C.desc << x.str() << " times " << y.str(); C.nontrivial();
  LAYOUT(r, A1, { LAYOUT(r, A2, {
    auto a = put<Mt<A1>>(x); auto b = put<Mt<A2>>(y); auto q = put<Mt<A1>>(s); auto c = matmul(a, b); same(c, p, "matmul"); same(a, x, "operand"); same(b, y, "operand");
    auto sl = matmul(q, b); same(sl, s * y, "matmul"); same(apply_matmul_on_left(q, b), s * y, "on-left"); same(q, s, "operand"); same(apply_matmul_on_right(a, q), x * s, "on-right"); same(q, s, "operand"); }); });
}
FAMILY(commutations, 1500, 30000) {
  Rng &r = C.rng; size_t n = side(r, 6), m = side(r, 6); DM e = echelon(r, n, m), l = lower(r, m, true); C.desc << "echelon " << e.str() << " lower " << l.str(); C.nontrivial();
  LAYOUT(r, A1, { LAYOUT(r, A2, {
    { auto E_ = put<EL<Dense<F, A1>>>(e); auto L_ = put<L<Dense<F, A2>>>(l); auto R = commute(E_, L_); DM g = dd(R); REQUIRE(is_upper(g.T()) && unit(g), "EL-L", "not lower triangular " << g.str()); REQUIRE(g * e == e * l, "EL-L", g.str()); same(E_, e, "operand"); same(L_, l, "operand"); }
    { DM h = rev(e).T(), l2 = rev(l).T(); auto E_ = put<ELH<Dense<F, A1>>>(h); auto L_ = put<L<Dense<F, A2>>>(l2); auto R = commute(L_, E_); DM g = dd(R); REQUIRE(is_upper(g.T()) && unit(g), "L-ELH", "not lower triangular " << g.str()); REQUIRE(h * g == l2 * h, "L-ELH", g.str()); }
    { DM h = rev(e), u = rev(l); auto E_ = put<EUH<Dense<F, A1>>>(h); auto U_ = put<U<Dense<F, A2>>>(u); auto R = commute(E_, U_); DM g = dd(R); REQUIRE(is_upper(g) && unit(g), "EUH-U", "not upper triangular " << g.str()); REQUIRE(g * h == h * u, "EUH-U", g.str()); }
    { DM h = e.T(), u = l.T(); auto E_ = put<EU<Dense<F, A1>>>(h); auto U_ = put<U<Dense<F, A2>>>(u); auto R = commute(U_, E_); DM g = dd(R); REQUIRE(is_upper(g) && unit(g), "U-EU", "not upper triangular " << g.str()); REQUIRE(h * g == u * h, "U-EU", g.str()); } }); });
}
FAMILY(solves, 1500, 30000) {
  Rng &r = C.rng; size_t n = side(r, HI), m = side(r, 6); DM l = lower(r, n, r.chance(.3)), u = lower(r, n, r.chance(.3)).T(), x = any(r, n, m), y = x.T(); C.desc << l.str() << " and " << u.str() << " solve " << x.str(); C.nontrivial();
  LAYOUT(r, A1, { LAYOUT(r, A2, { auto L_ = put<L<Dense<F, A1>>>(l); auto U_ = put<U<Dense<F, A1>>>(u);
    same(apply_inverse_on_left(L_, put<Mt<A2>>(l * x)), x, "L-left"); same(apply_inverse_on_left(U_, put<Mt<A2>>(u * x)), x, "U-left"); same(apply_inverse_on_right(put<Mt<A2>>(y * l), L_), y, "L-right"); same(apply_inverse_on_right(put<Mt<A2>>(y * u), U_), y, "U-right"); same(L_, l, "operand"); same(U_, u, "operand"); }); });
}
FAMILY(factor, 1500, 30000) {
  Rng &r = C.rng; size_t n = side(r, HI), m = side(r, HI); DM d = any(r, n, m); size_t rk = orc::rank(d); C.desc << d.str(); C.nontrivial();
  LAYOUT(r, Acc, { auto a = put<Mt<Acc>>(d);
    { auto [l, e, u, p] = LEUP_fact(a); DM L_ = dd(l), E_ = dd(e), U_ = dd(u), P_ = dd(p); REQUIRE(is_upper(L_.T()) && unit(L_) && is_upper(U_) && unit(U_) == unit(U_) && is_perm(P_), "LEUP", "shapes " << L_.str() << U_.str() << P_.str()); REQUIRE(is_ech(E_) && nz(E_) == rk, "LEUP", "echelon " << E_.str()); REQUIRE(L_ * E_ * U_ * P_ == d, "LEUP", L_.str() << E_.str() << U_.str() << P_.str()); }
    { auto [p, l, e, u] = PLEU_fact(a); DM L_ = dd(l), E_ = dd(e), U_ = dd(u), P_ = dd(p); REQUIRE(is_upper(L_.T()) && is_upper(U_) && unit(U_) && is_perm(P_) && is_ech(E_.T()) && nz(E_) == rk, "PLEU", "shapes"); REQUIRE(P_ * L_ * E_ * U_ == d, "PLEU", "product"); }
    { auto [u, e, l, p] = UELP_fact(a); DM L_ = dd(l), E_ = dd(e), U_ = dd(u), P_ = dd(p); REQUIRE(is_upper(L_.T()) && is_upper(U_) && unit(U_) && is_perm(P_) && is_ech(rev(E_)) && nz(E_) == rk, "UELP", "shapes"); REQUIRE(U_ * E_ * L_ * P_ == d, "UELP", "product"); }
    { auto [p, u, e, l] = PUEL_fact(a); DM L_ = dd(l), E_ = dd(e), U_ = dd(u), P_ = dd(p); REQUIRE(is_upper(L_.T()) && unit(L_) && is_upper(U_) && is_perm(P_) && is_ech(rev(E_.T())) && nz(E_) == rk, "PUEL", "shapes"); REQUIRE(P_ * U_ * E_ * L_ == d, "PUEL", "product"); }
    same(a, d, "operand"); });
}
typedef fu::Matrix<F> FM;
static FM fput(Rng &r, const DM &d, int major = -1) { if (major < 0) major = r.r(0, 2); FM a = major == 0 ? FM(d.r, d.c, fu::RowMajor()) : major == 1 ? FM(d.r, d.c, fu::ColumnMajor()) : FM(d.r, d.c, F(1)); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) a(i, j) = toF(d(i, j)); return a; }
FAMILY(future_matrices, 1500, 30000) {
  Rng &r = C.rng; size_t n = side(r, 6), m = side(r, 6), k = side(r, 6); DM d = any(r, n, m), b = any(r, m, k); C.desc << d.str() << " and " << b.str(); C.nontrivial(); FM a = fput(r, d), c = fput(r, b); same(a, d, "access"); REQUIRE(a.len() == n * m && a.dims() == std::make_pair(n, m), "size", a.len());
  same(FM(n, m, toF(K(1))), [&] { DM o(n, m); for (auto &x : o.a) x = K(1); return o; }(), "fill"); same(a.transpose(), d.T(), "transpose"); same(a * c, d * b, "product"); same(FM::identity(n), DM::I(n), "identity"); FM cm(a, fu::ColumnMajor()); same(cm, d, "column-major"); for (size_t j = 0; j < m; j++) for (size_t i = 0; i < n; i++) REQUIRE(toK(cm[j * n + i]) == d(i, j) && toK(cm(j * n + i)) == d(i, j), "column-major", "storage");
  { std::vector<F> x; DM y(m, 1); for (size_t i = 0; i < m; i++) { y(i, 0) = randK(r); x.push_back(toF(y(i, 0))); } same(a.mv(x), d * y, "matrix-vector"); std::vector<F> z(n, F(1)); fu::gemv(a, x, z); for (size_t i = 0; i < n; i++) REQUIRE(toK(z[i]) == (d * y)(i, 0), "gemv", i); }
  { std::vector<size_t> rs, cs; for (int t = r.r(0, 5); t--;) rs.push_back(r.r(0, n - 1)); size_t c0 = r.r(0, m), c1 = r.r(c0, m); fu::range<size_t> rg(c0, c1); REQUIRE(rg.size() == c1 - c0 && rg.first() == c0 && rg.last() == c1 && rg.stride() == 1, "range", c0 << ":" << c1); size_t q = c0; for (auto x : rg) REQUIRE(x == q++, "range", x); REQUIRE(q == c1, "range", q); auto v = a.view(rs, rg); DM w(rs.size(), c1 - c0); for (size_t i = 0; i < w.r; i++) for (size_t j = 0; j < w.c; j++) w(i, j) = d(rs[i], c0 + j); same(v, w, "view");
    { int b = r.r(-4, 4), e = r.r(-4, 4), k = 0; fu::range<int> h(b, e); REQUIRE((long)h.size() == std::abs(b - e), "range", "size " << h.size() << " of " << b << ":" << e); for (auto it = h.begin(); it != h.end() && k < 20; it++, k++) REQUIRE(*it == (b < e ? b + k : b - k) && h[k] == *it, "range", *it); REQUIRE(k == std::abs(b - e), "range", k << " steps for " << b << ":" << e); auto it = h.cbegin(); REQUIRE(*it-- == b && *it == b - (e < b ? -1 : 1) && *++it == b, "range", "postfix"); }
    size_t st = r.r(1, 3), cnt = r.r(0, 5), b0 = r.r(0, 9); fu::range<size_t> g(b0, b0 + st * cnt, st); REQUIRE(g.size() == cnt, "range", g.size()); size_t i = 0; for (auto x : g) { REQUIRE(x == b0 + st * i && g[i] == x, "range", x); i++; } REQUIRE(i == cnt, "range", i); }
  DM e = d; FM f = a; same(f, d, "copy");
  for (int t = r.r(1, 8); t--;) { size_t i = r.r(0, n - 1), i2 = r.r(0, n - 1), j = r.r(0, e.c - 1), j2 = r.r(0, e.c - 1); K x = randK(r); C.count("future_steps");
    switch (r.r(0, 8)) { case 0: f.swap_rows(i, i2); for (size_t q = 0; q < e.c; q++) std::swap(e(i, q), e(i2, q)); break; case 1: f.swap_columns(j, j2); for (size_t q = 0; q < n; q++) std::swap(e(q, j), e(q, j2)); break;
      case 2: f.add_row(toF(x), i2, i); { DM o = e; for (size_t q = 0; q < e.c; q++) e(i, q) = o(i, q) + x * o(i2, q); } break; case 3: f.add_column(toF(x), j2, j); { DM o = e; for (size_t q = 0; q < n; q++) e(q, j) = o(q, j) + x * o(q, j2); } break;
      case 4: f.scale_row(toF(x), i); for (size_t q = 0; q < e.c; q++) e(i, q) = x * e(i, q); break; case 5: f.scale_column(toF(x), j); for (size_t q = 0; q < n; q++) e(q, j) = x * e(q, j); break;
      case 6: if (f.append_column(toF(x))) { DM o(n, e.c + 1); for (size_t q = 0; q < n; q++) { for (size_t p = 0; p < e.c; p++) o(q, p) = e(q, p); o(q, e.c) = x; } e = o; C.count("future_appended"); } break; case 7: if (e.c > 1 && f.delete_column()) { DM o(n, e.c - 1); for (size_t q = 0; q < n; q++) for (size_t p = 0; p + 1 < e.c; p++) o(q, p) = e(q, p); e = o; } break;
      default: { auto v = f.row(i); auto w = f.column(j); for (size_t q = 0; q < e.c; q++) REQUIRE(toK(v[q]) == e(i, q), "row-view", q); size_t q = 0; for (auto it = w.begin(); it != w.end(); ++it, ++q) REQUIRE(q < n && toK(*it) == e(q, j), "column-view", q); REQUIRE(q == n, "column-view", q); } } same(f, e, "step"); }
  same(a, d, "original");
}
FAMILY(lu, 2000, 40000) {
  Rng &r = C.rng; size_t n = side(r, HI), m = r.chance(.5) ? n : side(r, HI); DM d = any(r, n, m); C.desc << d.str(); C.nontrivial(); FM a = fput(r, d); auto f = fu::LU(a); DM p = dd(f.P), l = dd(f.L), u = dd(f.U), q = dd(f.Q);
  if (n >= m) { DM w = DM(n, m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m && j <= i; j++) w(i, j) = i == j ? K(1) : FIELD == 0 ? randK(r, 1) : randK(r); DM x(m, 1), y(n, 1); for (auto &z : x.a) z = randK(r); y = w * x; bool off = n > m && r.chance(.5); size_t oi = n - 1; if (off) y(oi, 0) = y(oi, 0) + K(1); FM W = fput(r, w); std::vector<F> yy, xx(m, F(1)), zz; for (auto &z : y.a) yy.push_back(toF(z)); zz = yy; fu::l_solve(W, yy, xx); for (size_t i = 0; i < m; i++) REQUIRE(toK(xx[i]) == x(i, 0), "l-solve", i << " of " << w.str()); fu::l_residual(W, zz); for (size_t i = 0; i < n; i++) { K e = off && i == oi ? K(1) : K(0); REQUIRE(toK(yy[i]) == e && toK(zz[i]) == e, "l-residual", i << " of " << w.str()); } C.count("triangular_solves"); }
  REQUIRE(is_perm(p) && p.r == n && is_perm(q) && q.r == m, "LU", "permutations " << p.str() << q.str()); REQUIRE(l.r == n && is_upper(l.T()) && unit(l) && u.r == n && u.c == m && is_upper(u), "LU", "triangular " << l.str() << u.str()); REQUIRE(p * l * u * q == d, "LU", "product " << (p * l * u * q).str()); same(f.prod(), d, "LU-prod"); size_t rk = orc::rank(d), pv = 0; for (size_t i = 0; i < n && i < m; i++) pv += !u(i, i).zero(); REQUIRE(pv == rk, "LU", "rank " << pv << " expected " << rk); same(a, d, "operand");
}
FAMILY(spans, 1500, 30000) {
  Rng &r = C.rng; size_t n = r.r(1, 7); fu::Span<F> S(n, F()); DM B(n, 0); C.desc << "dimension " << n; C.nontrivial();
  for (int t = r.r(1, 12); t--;) { DM v = randM(r, n, 1, r.chance(.1) ? 0 : .5); if (B.c && r.chance(.4)) { v = DM(n, 1); for (size_t j = 0; j < B.c; j++) { K k = randK(r); for (size_t i = 0; i < n; i++) v(i, 0) = v(i, 0) + k * B(i, j); } } std::vector<F> x; for (size_t i = 0; i < n; i++) x.push_back(toF(v(i, 0))); DM W = hcat(B, v); bool in = orc::rank(W) == B.c; C.desc << (in ? " in " : " new ") << v.T().str();
    const auto &cS = S; bool got = cS.contains(x); REQUIRE(got == in, "contains", "says " << got << " expected " << in); if (r.chance(.6)) { bool nw = S.add(x); REQUIRE(nw == !in, "add", "says " << nw << " expected " << !in); if (!in) B = W; C.count("span_added"); } REQUIRE(S.dim() == B.c && S.vdim() == n, "dimension", S.dim() << " expected " << B.c); }
}
FAMILY(similarity, 1000, 20000) {
  Rng &r = C.rng; size_t n = r.r(1, 5); DM d = any(r, n, n); C.desc << d.str(); C.nontrivial(); fu::SimilarityTransform<F> T(fput(r, d)); DM a = d, s = DM::I(n), si = s; REQUIRE(T.size() == n, "size", T.size());
  for (int t = r.r(1, 6); t--;) { size_t i = r.r(0, n - 1), j = r.r(0, n - 1); K k = FIELD == 0 ? K(r.chance(.5) ? 1 : -1) : randK_nz(r); DM g = DM::I(n), gi = g; int op = r.r(0, 4); if (op == 2 && i == j) op = 0;
    switch (op) { case 0: T.swap_rows(i, j); std::swap(g(i, i), g(i, j)); if (i != j) { std::swap(g(j, j), g(j, i)); } gi = g; break; case 1: T.swap_columns(i, j); std::swap(g(i, i), g(i, j)); if (i != j) std::swap(g(j, j), g(j, i)); gi = g; break; case 2: T.add_row(toF(k), j, i); g(i, j) = k; gi(i, j) = K(0) - k; break; case 3: T.scale_row(toF(k), i); g(i, i) = k; gi(i, i) = K(1) / k; break; default: T.scale_column(toF(k), i); g(i, i) = K(1) / k; gi(i, i) = k; }
    a = g * a * gi; s = s * gi; si = g * si; C.desc << " op " << op << " " << i << "," << j; same(T.A, a, "similar"); same(T.S, s, "S"); same(T.Sinv, si, "Sinv"); same(T.prod(), d, "invariant"); REQUIRE(toK(T(i, j)) == a(i, j), "access", "(" << i << "," << j << ")"); C.count("similarity_steps"); }
}
FAMILY(permutations, 1000, 20000) {
  Rng &r = C.rng; size_t n = r.r(1, 8); C.nontrivial(); std::vector<std::pair<size_t, size_t>> seq; fu::CompositePermutation p, q; std::vector<std::pair<size_t, size_t>> sq; std::ostringstream pr;
  for (int t = r.r(0, 8); t--;) { size_t i = r.r(0, n - 1), j = r.r(0, n - 1); C.desc << "(" << i << "," << j << ")"; fu::ElementaryPermutation e(i, j); switch (r.r(0, 3)) { case 0: p.append(e); seq.push_back({i, j}); break; case 1: p.swap(i, j); seq.push_back({i, j}); break; case 2: e(p); seq.push_back({i, j}); break; default: p(e); seq.insert(seq.begin(), {i, j}); } if (r.chance(.4)) { q.swap(j, i); sq.push_back({j, i}); } }
  auto ref = [&](std::vector<int> v, const std::vector<std::pair<size_t, size_t>> &s) { for (auto &x : s) std::swap(v[x.first], v[x.second]); return v; }; std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(r.r(0, 99)); auto w = v; auto &z = p(w); REQUIRE(w == ref(v, seq) && &z == &w, "apply", vh::show(w) << " expected " << vh::show(ref(v, seq))); for (auto &x : seq) pr << "(" << x.first << "," << x.second << ")"; std::ostringstream o; o << p; REQUIRE(o.str() == (seq.empty() ? "()" : pr.str()), "print", o.str());
  p(q); sq.insert(sq.end(), seq.begin(), seq.end()); w = v; q(w); REQUIRE(w == ref(v, sq), "compose", vh::show(w) << " expected " << vh::show(ref(v, sq)));
}
