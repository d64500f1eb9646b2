// C04: triangular systems, inverses, factorisations, commutations.
#include "bridge.hpp"
using namespace vh;

static size_t dim(Rng &r, int hi) { return r.chance(.1) ? 0 : (size_t)r.r(1, hi); }
static int HI = FIELD == 0 ? 5 : 9;
// over a finite field a few cases are large enough for any size threshold in the code to matter
static void set_size(Rng &r) { if (FIELD) HI = r.chance(.006) ? (r.chance(.3) ? 80 : 40) : 9; }
static DM randA(Rng &r, size_t n, size_t m) {
  switch (r.r(0, 6)) {
  case 0: return randM(r, n, m, .15);
  case 1: return randM(r, n, m, .35);
  case 2: return randM(r, n, m, FIELD == 0 ? .6 : 1);
  case 3: return randM_rank(r, n, m, std::min(n, m) ? r.r(0, std::min(n, m)) : 0);
  case 4: { DM d = randM(r, n, m, .4); if (m > 1) for (int t = 0; t < 2; t++) d.setcol(r.r(0, m - 1), d.col(r.r(0, m - 1))); return d; }   // repeated columns
  case 5: { DM d = randM(r, n, m, .4); for (size_t i = 0; i < n; i++) if (r.chance(.3)) for (size_t j = 0; j < m; j++) d(i, j) = K(0); for (size_t j = 0; j < m; j++) if (r.chance(.3)) for (size_t i = 0; i < n; i++) d(i, j) = K(0); return d; }
  default: { DM d = randM(r, n, m, .2); if (n && r.chance(.7)) for (size_t j = 0; j < m; j++) d(0, j) = randK_nz(r); return d; }
  }
}
// nonsingular upper triangular
static DM randU(Rng &r, size_t n, bool unit) {
  DM d(n, n); double p = r.chance(.3) ? .15 : r.chance(.5) ? .4 : .8;
  for (size_t i = 0; i < n; i++) { d(i, i) = unit ? K(1) : (FIELD == 0 && r.chance(.6)) ? K(r.chance(.5) ? 1 : -1) : randK_nz(r); for (size_t j = i + 1; j < n; j++) if (r.chance(p)) d(i, j) = FIELD == 0 ? K(r.chance(.5) ? 1 : -1) : randK_nz(r); }
  return d;
}
static bool upper(const DM &d) { for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c && j < i; j++) if (!d(i, j).zero()) return false; return true; }
static bool unit_diag(const DM &d) { for (size_t i = 0; i < d.r && i < d.c; i++) if (d(i, i) != K(1)) return false; return true; }
static bool nonsing_diag(const DM &d) { if (d.r != d.c) return false; for (size_t i = 0; i < d.r; i++) if (d(i, i).zero()) return false; return true; }
static bool perm_mat(const DM &d) {
  if (d.r != d.c) return false; std::vector<int> cr(d.r), cc(d.c);
  for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) if (!d(i, j).zero()) { if (d(i, j) != K(1)) return false; cr[i]++; cc[j]++; }
  for (auto x : cr) if (x != 1) return false; for (auto x : cc) if (x != 1) return false; return true;
}
static size_t nz(const DM &d) { size_t c = 0; for (auto &x : d.a) c += !x.zero(); return c; }
static bool pivot_mat(const DM &d) {
  for (size_t j = 0; j < d.c; j++) { int c = 0; for (size_t i = 0; i < d.r; i++) c += !d(i, j).zero(); if (c > 1) return false; }
  for (size_t i = 0; i < d.r; i++) { int c = 0; for (size_t j = 0; j < d.c; j++) c += !d(i, j).zero(); if (c > 1) return false; }
  return true;
}
static DM J(const DM &d) { DM e(d.r, d.c); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) e(d.r - 1 - i, d.c - 1 - j) = d(i, j); return e; }
static bool EL_shape(const DM &d) { if (!pivot_mat(d)) return false; long last = -1; bool gone = false;
  for (size_t j = 0; j < d.c; j++) { long p = -1; for (size_t i = 0; i < d.r; i++) if (!d(i, j).zero()) p = i; if (p < 0) { gone = true; continue; } if (gone || p <= last) return false; last = p; } return true; }
static void shape(const DM &d, size_t r, size_t c, const char *what) { REQUIRE(d.r == r && d.c == c, std::string("shape:") + what, what << " is " << d.r << "x" << d.c << " want " << r << "x" << c); }

static void check_fact(const char *nm, int kind, const SparseFact<SV> &F, const CM &prod, const DM &a, size_t rk) {
  std::string S = nm; DM l = dense(F.L, S + ".L"), e = dense(F.E, S + ".E"), u = dense(F.U, S + ".U");
  size_t n = a.r, m = a.c;
  bool Lfirst = kind == 0 || kind == 1 || kind == 4;   // L on the left of E
  shape(l, Lfirst ? n : m, Lfirst ? n : m, "L"); shape(u, Lfirst ? m : n, Lfirst ? m : n, "U"); shape(e, n, m, "E");
  REQUIRE(upper(l.T()) && nonsing_diag(l), S + ":L", nm << " L is not lower triangular and invertible: " << l.str());
  REQUIRE(upper(u) && nonsing_diag(u), S + ":U", nm << " U is not upper triangular and invertible: " << u.str());
  if (kind < 4) REQUIRE(unit_diag(l) && unit_diag(u), S + ":unit", nm << " factor without unit diagonal: L=" << l.str() << " U=" << u.str());
  REQUIRE(pivot_mat(e), S + ":E", nm << " E is not a pivot matrix: " << e.str());
  REQUIRE(nz(e) == rk, S + ":rank", nm << " rank " << nz(e) << " want " << rk << " E=" << e.str());
  bool ok = true;
  if (kind == 0) ok = EL_shape(e); else if (kind == 1) ok = EL_shape(e.T()); else if (kind == 2) ok = EL_shape(J(e)); else if (kind == 3) ok = EL_shape(J(e.T()));
  else for (auto &x : e.a) ok = ok && (x.zero() || x == K(1));
  REQUIRE(ok, S + ":echelon", nm << " E has not the advertised shape: " << e.str());
  DM p; if (kind < 4) { p = dense(F.P, S + ".P"); size_t w = (kind == 0 || kind == 2) ? m : n; shape(p, w, w, "P"); REQUIRE(perm_mat(p), S + ":P", nm << " P is not a permutation: " << p.str()); }
  DM q = kind == 0 ? l * e * u * p : kind == 1 ? p * l * e * u : kind == 2 ? u * e * l * p : kind == 3 ? p * u * e * l : kind == 4 ? l * e * u : u * e * l;
  REQUIRE(q == a, S + ":product", nm << " factors multiply to " << q.str() << " want " << a.str());
  REQUIRE(dense(prod, S + "_prod") == a, S + ":prod", nm << "_prod differs");
}
FAMILY(factor, 4000, 80000) {
  Rng &r = C.rng; set_size(r); size_t n = dim(r, HI), m = dim(r, HI); DM a = randA(r, n, m); size_t rk = orc::rank(a);
  C.desc << "A=" << a.str() << " rank " << rk; if (rk) C.nontrivial(); C.count("rank_deficient", rk < std::min(n, m));
  CM A = sparse(a);
  { auto F = LEUP(A); check_fact("LEUP", 0, F, F.LEUP_prod(), a, rk); }
  { auto F = PLEU(A); check_fact("PLEU", 1, F, F.PLEU_prod(), a, rk); }
  { auto F = UELP(A); check_fact("UELP", 2, F, F.UELP_prod(), a, rk); }
  { auto F = PUEL(A); check_fact("PUEL", 3, F, F.PUEL_prod(), a, rk); }
  { auto F = LQU(A); check_fact("LQU", 4, F, F.LQU_prod(), a, rk); }
  { auto F = UQL(A); check_fact("UQL", 5, F, F.UQL_prod(), a, rk); }
  REQUIRE(dense(A, "input") == a, "input-changed", "the input was modified");
  // in-place forms started from identity factors
  auto start = [&](size_t l, size_t u, size_t p) { SparseFact<SV> F; F.E = A; F.L = CM::identity(l); F.U = CM::identity(u); F.P = CM::identity(p); return F; };
  { auto F = start(n, m, m); LEUP_inplace(F); check_fact("LEUP_inplace", 0, F, F.LEUP_prod(), a, rk); }
  { auto F = start(m, n, n); PLEU_inplace(F); check_fact("PLEU_inplace", 1, F, F.PLEU_prod(), a, rk); }
  { auto F = start(n, m, m); UELP_inplace(F); check_fact("UELP_inplace", 2, F, F.UELP_prod(), a, rk); }
  { auto F = start(m, n, n); PUEL_inplace(F); check_fact("PUEL_inplace", 3, F, F.PUEL_prod(), a, rk); }
  { auto F = start(n, m, m); LQU_inplace(F); check_fact("LQU_inplace", 4, F, F.LQU_prod(), a, rk); }
}
template <class S> void shape2(const S &A, size_t n, size_t m) { REQUIRE(A.nrow() == n && A.ncol() == m && A.get_colptr().size() == m + 1 && A.get_colptr().back() == A.get_rowind().size(), "csc-shape", A.nrow() << "x" << A.ncol()); }
FAMILY(triangular, 4000, 60000) {
  Rng &r = C.rng; set_size(r); if (FIELD && r.chance(.02)) HI = r.chance(.5) ? 80 : 50; size_t n = dim(r, HI + 1), m = r.r(0, 4); DM u = randU(r, n, r.chance(.3)), l = randU(r, n, r.chance(.3)).T();
  DM b(n, m); double p = r.chance(.3) ? .1 : .5; for (auto &x : b.a) if (r.chance(p)) x = randK_nz(r);
  C.desc << "U=" << u.str() << " L=" << l.str() << " B=" << b.str(); if (n > 1) C.nontrivial();
  CM U = sparse(u), L = sparse(l), B = sparse(b);
  for (size_t j = 0; j < m; j++) {
    DM x(n, 1); x.setcol(0, dense(u_solve(U, B[j]), n, "u_solve")); REQUIRE((u * x).col(0) == b.col(j), "u_solve", "U x = " << (u * x).str() << " want column " << j);
    x.setcol(0, dense(l_solve(L, B[j]), n, "l_solve")); REQUIRE((l * x).col(0) == b.col(j), "l_solve", "L x = " << (l * x).str() << " want column " << j);
  }
  DM X = dense(u_solve(U, B), "u_solve"); shape(X, n, m, "u_solve"); REQUIRE(u * X == b, "u_solve", "U X != B");
  X = dense(l_solve(L, B), "l_solve"); shape(X, n, m, "l_solve"); REQUIRE(l * X == b, "l_solve", "L X != B");
  X = dense(u_inv(U), "u_inv"); REQUIRE(u * X == DM::I(n) && upper(X), "u_inv", "u_inv gives " << X.str());
  X = dense(l_inv(L), "l_inv"); REQUIRE(l * X == DM::I(n) && upper(X.T()), "l_inv", "l_inv gives " << X.str());
  // the same solve on compressed columns
  { typedef CSCMatrix<F, size_t> CF; auto csc = [&](const DM &d) { std::vector<size_t> cp{0}, ri; std::vector<F> v; for (size_t j = 0; j < d.c; j++) { for (size_t i = 0; i < d.r; i++) if (!d(i, j).zero()) { ri.push_back(i); v.push_back(toF(d(i, j))); } cp.push_back(ri.size()); } return CF(d.r, d.c, cp, ri, v); };
    CF S = r.chance(.5) ? CF() : csc(u); trilu(csc(u), csc(b), S); shape2(S, n, m); DM Y(n, m); for (size_t j = 0; j < m; j++) for (size_t t = S.get_colptr()[j]; t < S.get_colptr()[j + 1]; t++) { size_t i = S.get_rowind()[t]; REQUIRE(i < n && (t == S.get_colptr()[j] || S.get_rowind()[t - 1] < i), "csc-unsorted", "trilu column " << j); Y(i, j) = toK(S.get_val()[t]); } REQUIRE(u * Y == b, "trilu", "A C != B, C = " << Y.str()); }
  // a missing diagonal entry below which nothing is stored is reported
  if (n) { size_t k = r.r(0, n - 1); DM s = u; s(k, k) = K(0); DV e(n, K(0)); e[k] = K(1); MUST_THROW(u_solve(sparse(s), sparse(e)), "u_solve-singular", "u_solve accepts a zero on the diagonal"); }
}
FAMILY(inverse, 2000, 30000) {
  Rng &r = C.rng; set_size(r); size_t n = dim(r, FIELD == 0 ? 4 : HI); DM a;
  if (r.chance(.7)) { // product of triangular and permutation
    DM u = randU(r, n, FIELD == 0), l = randU(r, n, FIELD == 0).T(); auto p = r.perm(n); a = (l * u).cols(p); if (!n) a = DM(0, 0);
  } else a = randM(r, n, n, .6);
  if (!orc::invertible(a)) throw Skip();
  C.desc << "A=" << a.str(); if (n > 1) C.nontrivial();
  DM x = dense(inv(sparse(a)), "inv"); REQUIRE(a * x == DM::I(n) && x * a == DM::I(n), "inv", "inverse is " << x.str());
}
FAMILY(commute, 4000, 60000) {
  Rng &r = C.rng; set_size(r); size_t n = dim(r, HI - 1), m = dim(r, HI - 1), k = std::min(n, m); k = k ? r.r(0, k) : 0; bool unit = r.chance(.4);
  auto rs = r.subset(n, k); DM e(n, m); for (size_t t = 0; t < k; t++) e(rs[t], t) = unit ? K(1) : FIELD == 0 ? K(r.chance(.5) ? 1 : -1) : randK_nz(r);
  DM l = randU(r, m, r.chance(.5)).T();
  C.desc << "EL=" << e.str() << " L=" << l.str(); if (k) C.nontrivial();
  { DM t = dense(EL_L_commute(sparse(e), sparse(l)), "EL_L_commute"); shape(t, n, n, "EL_L"); REQUIRE(upper(t.T()) && nonsing_diag(t), "EL_L:shape", "Ltilde " << t.str()); REQUIRE(t * e == e * l, "EL_L", "Ltilde=" << t.str()); }
  { DM eu = e.T(), u = l.T(); DM t = dense(U_EU_commute(sparse(u), sparse(eu)), "U_EU_commute"); shape(t, n, n, "U_EU"); REQUIRE(upper(t) && nonsing_diag(t), "U_EU:shape", "Utilde " << t.str()); REQUIRE(u * eu == eu * t, "U_EU", "Utilde=" << t.str()); }
  { DM eh = J(e), u = J(l); DM t = dense(EU_U_commute(sparse(eh), sparse(u)), "EU_U_commute"); shape(t, n, n, "EU_U"); REQUIRE(upper(t) && nonsing_diag(t), "EU_U:shape", "Utilde " << t.str()); REQUIRE(eh * u == t * eh, "EU_U", "Utilde=" << t.str()); }
  { DM eh = J(e.T()), ll = J(l.T()); DM t = dense(L_EL_commute(sparse(ll), sparse(eh)), "L_EL_commute"); shape(t, n, n, "L_EL"); REQUIRE(upper(t.T()) && nonsing_diag(t), "L_EL:shape", "Ltilde " << t.str()); REQUIRE(ll * eh == eh * t, "L_EL", "Ltilde=" << t.str()); }
}
