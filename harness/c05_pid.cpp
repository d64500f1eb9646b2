// C05: polynomials, Smith forms, rational canonical form.
#include "bridge.hpp"
using namespace vh;
typedef UnivariatePolynomial<F> UP;
typedef ColumnMatrix<SparseVector<UP>> PM;

// ---- reference polynomials: coefficient vectors without trailing zeros -----
typedef std::vector<K> OP;
static void trim(OP &p) { while (!p.empty() && p.back().zero()) p.pop_back(); }
static OP padd(const OP &a, const OP &b, K s = K(1)) { OP c(std::max(a.size(), b.size()), K(0)); for (size_t i = 0; i < a.size(); i++) c[i] = a[i]; for (size_t i = 0; i < b.size(); i++) c[i] = c[i] + s * b[i]; trim(c); return c; }
static OP pmul(const OP &a, const OP &b) { if (a.empty() || b.empty()) return {}; OP c(a.size() + b.size() - 1, K(0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] = c[i + j] + a[i] * b[j]; trim(c); return c; }
static std::pair<OP, OP> pdiv(OP a, const OP &b) { OP q; if (a.size() >= b.size()) q.assign(a.size() - b.size() + 1, K(0)); while (a.size() >= b.size() && !a.empty()) { K f = a.back() / b.back(); size_t s = a.size() - b.size(); q[s] = f; for (size_t i = 0; i < b.size(); i++) a[i + s] = a[i + s] - f * b[i]; trim(a); } trim(q); return {q, a}; }
static OP monic(OP a) { if (a.empty()) return a; K f = a.back().inv(); for (auto &x : a) x = x * f; return a; }
static OP pgcd(OP a, OP b) { while (!b.empty()) { OP r = pdiv(a, b).second; a = b; b = r; } return monic(a); }
static bool divides(const OP &a, const OP &b) { return a.empty() ? b.empty() : pdiv(b, a).second.empty(); }
typedef std::vector<std::vector<OP>> OPM;   // rows of polynomials
static OPM pmm(const OPM &A, const OPM &B, size_t q) { OPM Cc(A.size(), std::vector<OP>(q)); for (size_t i = 0; i < A.size(); i++) for (size_t k = 0; k < B.size(); k++) for (size_t j = 0; j < q; j++) Cc[i][j] = padd(Cc[i][j], pmul(A[i][k], B[k][j])); return Cc; }
// monic invariant factors by straightforward Euclidean elimination
static std::vector<OP> pfactors(OPM A, size_t c) {
  size_t r = A.size(); std::vector<OP> d;
  for (size_t k = 0; k < std::min(r, c); k++) {
    while (true) {
      size_t bi = r, bj = c; for (size_t i = k; i < r; i++) for (size_t j = k; j < c; j++) if (!A[i][j].empty() && (bi == r || A[i][j].size() < A[bi][bj].size())) { bi = i; bj = j; }
      if (bi == r) return d;
      std::swap(A[k], A[bi]); for (size_t i = 0; i < r; i++) std::swap(A[i][k], A[i][bj]);
      bool clean = true;
      for (size_t i = k + 1; i < r; i++) { auto [q, rem] = pdiv(A[i][k], A[k][k]); if (!q.empty()) for (size_t j = k; j < c; j++) A[i][j] = padd(A[i][j], pmul(q, A[k][j]), K(-1)); clean = clean && A[i][k].empty(); }
      for (size_t j = k + 1; j < c; j++) { auto [q, rem] = pdiv(A[k][j], A[k][k]); if (!q.empty()) for (size_t i = k; i < r; i++) A[i][j] = padd(A[i][j], pmul(q, A[i][k]), K(-1)); clean = clean && A[k][j].empty(); }
      if (!clean) continue;
      for (size_t i = k + 1; i < r && clean; i++) for (size_t j = k + 1; j < c; j++) if (!divides(A[k][k], A[i][j])) { for (size_t t = k; t < c; t++) A[k][t] = padd(A[k][t], A[i][t]); clean = false; break; }
      if (clean) break;
    }
    d.push_back(monic(A[k][k]));
  }
  return d;
}
static std::string show(const OP &p) { return vh::show(p); }
static std::string show(const OPM &A) { std::string s = "{"; for (auto &r : A) { for (auto &p : r) s += vh::show(p); s += ";"; } return s + "}"; }

static OP toO(const UP &p) {
  OP o; for (size_t i = 0; i < p.size(); i++) o.push_back(toK(p[i]));
  REQUIRE(o.empty() || !o.back().zero(), "trailing-zero", "polynomial stored with a zero leading coefficient");
  return o;
}
static UP toP(const OP &p) { std::vector<F> c; for (auto &x : p) c.push_back(toF(x)); return UP(c); }
static OP randP(Rng &r, int maxdeg, double pz = .15) { if (r.chance(pz)) return {}; OP p(r.r(0, maxdeg) + 1, K(0)); for (auto &x : p) x = FIELD == 0 ? K((long long)r.r(-1, 1)) : randK(r); trim(p); return p; }
#define EQ(GOT, WANT, SIG) do { OP g__ = toO(GOT), w__ = WANT; REQUIRE(g__ == w__, SIG, SIG << " gives " << vh::show(g__) << " want " << vh::show(w__)); } while (0)

FAMILY(poly, 6000, 80000) {
  Rng &r = C.rng; int D = FIELD == 0 ? 3 : r.chance(.02) ? 45 : 7; OP a = randP(r, D), b = randP(r, D), c = randP(r, D); if (r.chance(.3)) a = pmul(b, c); if (r.chance(.1)) b = a;
  C.desc << "a=" << show(a) << " b=" << show(b) << " c=" << show(c); C.nontrivial();
  UP A = toP(a), B = toP(b), Cc = toP(c);
  EQ(A, a, "construct"); EQ(A + B, padd(a, b), "a+b"); EQ(A - B, padd(a, b, K(-1)), "a-b"); EQ(A * B, pmul(a, b), "a*b"); EQ(-A, padd({}, a, K(-1)), "-a");
  { UP x = A; x += B; EQ(x, padd(a, b), "a+=b"); } { UP x = A; x -= B; EQ(x, padd(a, b, K(-1)), "a-=b"); }
  { UP x = A; x -= x; EQ(x, OP(), "a-=a"); } { UP x = A; x += x; EQ(x, padd(a, a), "a+=a"); }
  EQ((A + B) * Cc, padd(pmul(a, c), pmul(b, c)), "distributive");
  REQUIRE((A == B) == (a == b) && (A != B) == (a != b), "equality", "equality"); REQUIRE(A.is_zero() == a.empty() && (A == 0) == a.empty() && (A != 0) == !a.empty(), "zero-test", "zero test");
  REQUIRE(A.size() == a.size(), "size", "size"); if (!a.empty()) { REQUIRE(A.degree() == a.size() - 1 && A.dim() == a.size() - 1 && toK(A.leading_coeff()) == a.back(), "degree", "degree"); }
  REQUIRE(A.is_monic() == (!a.empty() && a.back() == K(1)), "is_monic", "is_monic");
  { K k = randK(r); bool w = k.zero() ? a.empty() : (a.size() == 1 && a[0] == k); REQUIRE((A == toF(k)) == w && (A != toF(k)) == !w, "equality-constant", "comparison with the constant " << k); EQ(UP(toF(k)), k.zero() ? OP() : OP{k}, "constant"); }
  EQ(UP::identity(), OP{K(1)}, "identity"); EQ(UP::zero(), OP(), "zero"); { size_t d = r.r(0, 5); K k = randK(r); OP w(d + 1, K(0)); w[d] = k; trim(w); EQ(UP::monomial(d, toF(k)), w, "monomial"); }
  { K v = randK(r), s(0), pw(1); for (auto &x : a) { s = s + x * pw; pw = pw * v; } REQUIRE(toK(A(toF(v))) == s, "evaluate", "a(" << v << ")=" << toK(A(toF(v))) << " want " << s); }
  if (!b.empty()) {
    auto [q, rem] = A.divrem(B); auto w = pdiv(a, b);
    EQ(q, w.first, "quotient"); EQ(rem, w.second, "remainder"); EQ(A / B, w.first, "a/b"); EQ(A.remainder(B), w.second, "remainder()");
  }
  if (FIELD != 0 || D <= 3) {
    OP g = pgcd(a, b); EQ(UP(toP(monic(toO(A.gcd(B))))), g, "gcd");
    auto [x, y, gg, w, z] = extended_euclidean(A, B); OP og = toO(gg);
    REQUIRE(monic(og) == g, "ext-gcd", "extended gcd " << show(og) << " want " << show(g));
    REQUIRE(padd(pmul(a, toO(x)), pmul(b, toO(y))) == og, "bezout", "a x + b y != g: x=" << show(toO(x)) << " y=" << show(toO(y)) << " g=" << show(og));
    if (!g.empty()) REQUIRE(pmul(og, toO(w)) == a && pmul(og, toO(z)) == b, "cofactor", "cofactors a/g=" << show(toO(w)) << " b/g=" << show(toO(z)) << " g=" << show(og));
  }
  { std::ostringstream o; o << A; REQUIRE(o.str().empty() == a.empty(), "print", "prints '" << o.str() << "'"); }
}
// p(A) v
FAMILY(apply, 800, 8000) {
  Rng &r = C.rng; size_t n = r.r(0, 4); OP p = randP(r, 4, .1); DM a = randM(r, n, n, .4); DV v(n); for (auto &x : v) x = r.chance(.6) ? randK(r) : K(0);
  C.desc << "p=" << show(p) << " A=" << a.str() << " v=" << vh::show(v); if (n) C.nontrivial();
  DM s(n, 1), w(n, 1); w.setcol(0, v); for (auto &c : p) { for (size_t i = 0; i < n; i++) s(i, 0) = s(i, 0) + c * w(i, 0); w = a * w; }
  REQUIRE(dense(toP(p)(sparse(a), sparse(v)), n, "p(A)v") == (n ? s.col(0) : DV()), "apply", "p(A)v gives " << vh::show(dense(toP(p)(sparse(a), sparse(v)), n)));
}
static PM toPM(const OPM &A, size_t c) { std::vector<SparseVector<UP>> cols; for (size_t j = 0; j < c; j++) { std::vector<size_t> ind; std::vector<UP> val; for (size_t i = 0; i < A.size(); i++) if (!A[i][j].empty()) { ind.push_back(i); val.push_back(toP(A[i][j])); } cols.push_back(SparseVector<UP>(ind, val)); } return PM(A.size(), c, cols); }
static OPM toOM(const PM &A, const char *what) {
  OPM m(A.nrow(), std::vector<OP>(A.ncol()));
  for (size_t j = 0; j < A.ncol(); j++) { size_t last = 0; bool first = true; for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) { REQUIRE(it->ind < A.nrow() && (first || it->ind > last), "poly-canonical", what << " column " << j << " not canonical"); first = false; last = it->ind; m[it->ind][j] = toO(it->val); REQUIRE(!it->val.is_zero(), "poly-stored-zero", what << " stores a zero polynomial"); } }
  return m;
}
static void check_diag(const OPM &S, const std::vector<OP> &want, const char *what) {
  for (size_t i = 0; i < S.size(); i++) for (size_t j = 0; j < S[i].size(); j++) {
    OP w = (i == j && i < want.size()) ? want[i] : OP();
    REQUIRE(S[i][j] == w, std::string("smith:") + what, what << " entry " << i << "," << j << " is " << show(S[i][j]) << " want " << show(w) << "; form " << show(S));
  }
}
static bool unimodular(const OPM &A) { if (A.empty()) return true; auto f = pfactors(A, A.size()); if (f.size() != A.size()) return false; for (auto &x : f) if (x.size() != 1) return false; return true; }
static void smith_poly(Case &C, const OPM &a, size_t c) {
  size_t n = a.size(); auto want = pfactors(a, c);
  PM A = toPM(a, c);
  { PM B = A; smith_normal_form(B); REQUIRE(B.nrow() == n && B.ncol() == c, "smith-shape", "shape"); check_diag(toOM(B, "smith_normal_form"), want, "smith_normal_form"); }
  { auto Fc = smith_factorization(A); OPM R = toOM(Fc.R, "R"), S = toOM(Fc.S, "S"), Co = toOM(Fc.C, "C"); check_diag(S, want, "smith_factorization");
    REQUIRE(R.size() == n && Co.size() == c, "smith-shape", "shape");
    if (n && c) REQUIRE(pmm(pmm(R, S, c), Co, c) == a, "smith-product", "R S C != A: R=" << show(R) << " S=" << show(S) << " C=" << show(Co));
    REQUIRE(unimodular(R) && unimodular(Co), "smith-unimodular", "a factor is not invertible: R=" << show(R) << " C=" << show(Co)); }
  { auto [R_, S_] = smith_rows(A); OPM R = toOM(R_, "R"), S = toOM(S_, "S"); check_diag(S, want, "smith_rows"); REQUIRE(unimodular(R), "smith-unimodular", "smith_rows factor is not invertible: " << show(R));
    // R S and A have the same column module: A = R S C with C unimodular
    OPM RS = pmm(R, S, c); OPM both = RS; for (size_t i = 0; i < n; i++) both[i].insert(both[i].end(), a[i].begin(), a[i].end());
    REQUIRE(pfactors(both, 2 * c) == want, "smith_rows", "columns of R S do not generate the columns of A: R=" << show(R)); }
}
FAMILY(smith_poly, 900, 12000) {
  Rng &r = C.rng; size_t n = r.chance(.07) ? 0 : r.r(1, 3), c = r.chance(.07) ? 0 : r.r(1, FIELD == 0 ? 2 : 3); if (FIELD == 0 && n > 2) n = 2; bool big = FIELD && r.chance(.04); if (big) { n = r.r(3, 6); c = r.r(3, 6); }
  OPM a(n, std::vector<OP>(c)); int deg = FIELD == 0 ? 1 : 2; double pz = big ? .7 : r.chance(.5) ? .2 : .6;
  for (auto &row : a) for (auto &p : row) p = randP(r, deg, pz);
  if (r.chance(.4) && n && c) { // equal, associate and proportional entries
    OP f = randP(r, deg, 0); for (auto &row : a) for (auto &p : row) { int t = r.r(0, 3); if (t == 0) p = f; else if (t == 1) { p = f; K k = randK_nz(r); for (auto &x : p) x = x * k; } } }
  C.desc << "A=" << show(a); if (n && c) C.nontrivial(); smith_poly(C, a, c);
}
static void check_rcf(Case &C, const DM &a) {
  size_t n = a.r; CM A = sparse(a);
  PM X = characteristic_matrix(A); OPM x = toOM(X, "characteristic"); OPM w(n, std::vector<OP>(n));
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { w[i][j] = i == j ? OP{-a(i, j), K(1)} : OP{-a(i, j)}; trim(w[i][j]); }
  REQUIRE(x == w, "characteristic", "characteristic matrix " << show(x));
  auto want = pfactors(w, n); REQUIRE(want.size() == n, "oracle", "oracle rank");
  C.count("nonconstant_factors", std::count_if(want.begin(), want.end(), [](const OP &p) { return p.size() > 1; }));
  auto [R, S] = smith_rows(X); check_diag(toOM(S, "S"), want, "smith_rows(xI-A)");
  CM G = generating_basis(R, A); DM g = dense(G, "generating_basis");
  REQUIRE(g.r == n && g.c == n, "generating-shape", "generating basis shape");
  for (size_t j = 0; j < n; j++) if (want[j].size() == 1) for (size_t i = 0; i < n; i++) REQUIRE(g(i, j).zero(), "generating-unit", "generator of a trivial summand is not zero");
  CM B = RCF_basis(S, A, G); DM b = dense(B, "RCF_basis");
  REQUIRE(b.r == n && b.c == n && orc::invertible(b), "rcf-basis", "RCF basis is not a basis: " << b.str());
  // B^{-1} A B is the block sum of the companion matrices
  DM cf(n, n); size_t o = 0;
  for (auto &p : want) if (p.size() > 1) { size_t d = p.size() - 1; for (size_t i = 0; i + 1 < d; i++) cf(o + i + 1, o + i) = K(1); for (size_t i = 0; i < d; i++) cf(o + i, o + d - 1) = -p[i]; o += d; }
  REQUIRE(a * b == b * cf, "rcf", "A B != B C, B=" << b.str() << " C=" << cf.str());
}
FAMILY(rcf, 700, 9000) {
  Rng &r = C.rng; size_t n = r.chance(.05) ? 0 : r.r(1, FIELD == 0 ? 3 : r.chance(.04) ? 12 : 5); DM a(n, n); int kind = r.r(0, 4);
  if (kind == 0) a = randM(r, n, n, .3); else if (kind == 1) a = randM(r, n, n, .8);
  else if (kind == 2) { for (size_t i = 0; i < n; i++) a(i, i) = K((long long)r.r(0, 1)); if (r.chance(.5)) for (size_t i = 0; i + 1 < n; i++) if (r.chance(.5)) a(i, i + 1) = K(1); auto p = r.perm(n); a = a.rows(p).cols(p); if (!n) a = DM(0, 0); }
  else if (kind == 3) { K k = randK(r); for (size_t i = 0; i < n; i++) a(i, i) = k; }
  else { auto p = r.perm(n); for (size_t i = 0; i < n; i++) if (r.chance(.85)) a(p[i], i) = K(1); }
#if FIELD == 0
  for (auto &x : a.a) if (x.n > 1 || x.n < -1) x = K(1);
#endif
  C.desc << "A=" << a.str(); if (n > 1) C.nontrivial(); check_rcf(C, a);
}
FAMILY(companion, 600, 6000) {
  Rng &r = C.rng; OP p = randP(r, FIELD == 0 ? 3 : r.chance(.1) ? 16 : 6, 0); p.push_back(K(1)); if (r.chance(.1)) p = {K(1)}; size_t d = p.size() - 1;
  C.desc << "p=" << show(p); C.nontrivial();
  DM c = dense(toP(p).companion_matrix(), "companion"); REQUIRE(c.r == d && c.c == d, "companion-shape", "shape");
  OPM x(d, std::vector<OP>(d)); for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) { x[i][j] = i == j ? OP{-c(i, j), K(1)} : OP{-c(i, j)}; trim(x[i][j]); }
  auto f = pfactors(x, d); for (size_t i = 0; i + 1 < d; i++) REQUIRE(f[i].size() == 1, "companion", "companion matrix has a nontrivial early invariant factor"); if (d) REQUIRE(f[d - 1] == p, "companion", "companion matrix of " << show(p) << " has invariant factor " << show(f[d - 1]));
  OP q = p; K k = randK_nz(r); if (k != K(1)) { for (auto &y : q) y = y * k; MUST_THROW(toP(q).companion_matrix(), "companion-nonmonic", "non-monic accepted"); }
  MUST_THROW(UP().companion_matrix(), "companion-zero", "zero polynomial accepted");
}

#if FIELD == 0
typedef int64_t I;
typedef ColumnMatrix<SparseVector<I>> ZM;
typedef std::vector<std::vector<I>> OZ;
static std::vector<I> zfactors(OZ A, size_t c) {
  size_t r = A.size(); std::vector<I> d;
  for (size_t k = 0; k < std::min(r, c); k++) {
    while (true) {
      size_t bi = r, bj = c; for (size_t i = k; i < r; i++) for (size_t j = k; j < c; j++) if (A[i][j] && (bi == r || std::abs(A[i][j]) < std::abs(A[bi][bj]))) { bi = i; bj = j; }
      if (bi == r) return d;
      std::swap(A[k], A[bi]); for (size_t i = 0; i < r; i++) std::swap(A[i][k], A[i][bj]);
      bool clean = true;
      for (size_t i = k + 1; i < r; i++) { I q = A[i][k] / A[k][k]; for (size_t j = k; j < c; j++) A[i][j] -= q * A[k][j]; clean = clean && !A[i][k]; }
      for (size_t j = k + 1; j < c; j++) { I q = A[k][j] / A[k][k]; for (size_t i = k; i < r; i++) A[i][j] -= q * A[i][k]; clean = clean && !A[k][j]; }
      if (!clean) continue;
      for (size_t i = k + 1; i < r && clean; i++) for (size_t j = k + 1; j < c; j++) if (A[i][j] % A[k][k]) { for (size_t t = k; t < c; t++) A[k][t] += A[i][t]; clean = false; break; }
      if (clean) break;
    }
    d.push_back(std::abs(A[k][k]));
  }
  return d;
}
static OZ toOZ(const ZM &A, const char *what) {
  OZ m(A.nrow(), std::vector<I>(A.ncol(), 0));
  for (size_t j = 0; j < A.ncol(); j++) { size_t last = 0; bool first = true; for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) { REQUIRE(it->ind < A.nrow() && (first || it->ind > last) && it->val != 0, "int-canonical", what << " column not canonical"); first = false; last = it->ind; m[it->ind][j] = it->val; } }
  return m;
}
static OZ zmm(const OZ &A, const OZ &B, size_t q) { OZ Cc(A.size(), std::vector<I>(q, 0)); for (size_t i = 0; i < A.size(); i++) for (size_t k = 0; k < B.size(); k++) for (size_t j = 0; j < q; j++) Cc[i][j] += A[i][k] * B[k][j]; return Cc; }
static void check_zdiag(const OZ &S, const std::vector<I> &want, const char *what) {
  for (size_t i = 0; i < S.size(); i++) for (size_t j = 0; j < S[i].size(); j++) REQUIRE(std::abs(S[i][j]) == ((i == j && i < want.size()) ? want[i] : 0), std::string("smith-int:") + what, what << " gives " << vh::show2(S) << " want diagonal " << vh::show(want));
}
static bool zunimod(const OZ &A) { auto f = zfactors(A, A.size()); return f.size() == A.size() && std::all_of(f.begin(), f.end(), [](I x) { return x == 1; }); }
FAMILY(euclid_int, 4000, 60000) {
  Rng &r = C.rng; int lim = r.chance(.5) ? 6 : 3000; int a = r.r(-lim, lim), b = r.r(-lim, lim); if (r.chance(.1)) b = a * (int)r.r(-3, 3);
  C.desc << "a=" << a << " b=" << b; C.nontrivial();
  auto [x, y, g, w, z] = extended_euclidean(a, b); int og = std::gcd(a, b);
  REQUIRE(std::abs(g) == og, "ext-gcd", "gcd " << g); REQUIRE(a * x + b * y == g, "bezout", "x=" << x << " y=" << y << " g=" << g); if (og) REQUIRE(w * g == a && z * g == b, "cofactor", "a/g=" << w << " b/g=" << z << " g=" << g);
}
FAMILY(smith_int, 4000, 60000) {
  Rng &r = C.rng; size_t n = r.chance(.07) ? 0 : r.r(1, 4), c = r.chance(.07) ? 0 : r.r(1, 4); OZ a(n, std::vector<I>(c, 0)); double p = r.chance(.5) ? .4 : .9; int lim = r.chance(.5) ? 2 : 6; bool big = r.chance(.05); if (big) { n = r.r(4, r.chance(.2) ? 24 : 10); c = r.r(4, n > 10 ? 24 : 10); p = 0; a = OZ(n, std::vector<I>(c, 0)); }
  for (auto &row : a) for (auto &x : row) if (r.chance(p)) x = r.r(-lim, lim); if (big) { auto rp = r.perm(n), cp = r.perm(c); for (size_t i = 0; i < std::min(n, c); i++) if (r.chance(.8)) a[rp[i]][cp[i]] = r.pick(std::vector<I>{1, -1, 2, 3, 4, 6, -6, 10, 12, 15}); for (size_t k = r.r(0, 4); k--;) a[r.r(0, n - 1)][r.r(0, c - 1)] = r.r(-2, 2); }
  I s = r.r(1, 3); if (r.chance(.2)) for (auto &row : a) for (auto &x : row) x *= s;
  C.desc << "A=" << vh::show2(a); if (n && c) C.nontrivial(); auto want = zfactors(a, c);
  std::vector<SparseVector<I>> cols; for (size_t j = 0; j < c; j++) { std::vector<size_t> ind; std::vector<I> val; for (size_t i = 0; i < n; i++) if (a[i][j]) { ind.push_back(i); val.push_back(a[i][j]); } cols.push_back(SparseVector<I>(ind, val)); } ZM A(n, c, cols);
  { ZM B = A; smith_normal_form(B); check_zdiag(toOZ(B, "smith_normal_form"), want, "smith_normal_form"); }
  { auto Fc = smith_factorization(A); OZ R = toOZ(Fc.R, "R"), S = toOZ(Fc.S, "S"), Co = toOZ(Fc.C, "C"); check_zdiag(S, want, "smith_factorization");
    if (n && c) REQUIRE(zmm(zmm(R, S, c), Co, c) == a, "smith-int-product", "R S C != A: R=" << vh::show2(R) << " S=" << vh::show2(S) << " C=" << vh::show2(Co));
    REQUIRE(zunimod(R) && zunimod(Co), "smith-int-unimodular", "a factor is not invertible over Z: R=" << vh::show2(R) << " C=" << vh::show2(Co)); }
  { auto [R_, S_] = smith_rows(A); OZ R = toOZ(R_, "R"), S = toOZ(S_, "S"); check_zdiag(S, want, "smith_rows"); REQUIRE(zunimod(R), "smith-int-unimodular", "smith_rows R=" << vh::show2(R));
    OZ RS = zmm(R, S, c), both = RS; for (size_t i = 0; i < n; i++) both[i].insert(both[i].end(), a[i].begin(), a[i].end()); REQUIRE(zfactors(both, 2 * c) == want, "smith_rows-int", "columns of R S do not generate those of A"); }
}
#endif
