// C03: sparse matrices against dense matrices.
#include "bridge.hpp"
using namespace vh;

static double density(Rng &r) { static const double ps[] = {0, .15, .35, .7, 1}; return ps[r.r(0, 4)]; }
static size_t HID = 7; // most cases are small; a few are large enough for any size threshold in the code to matter
static void set_size(Rng &r) { HID = r.chance(.015) ? (r.chance(.3) ? 100 : 40) : 7; }
static size_t dim(Rng &r) { return r.chance(.12) ? 0 : (size_t)r.r(1, HID); }
static void same(const CM &A, const DM &d, const char *op) {
  REQUIRE(A.nrow() == d.r && A.ncol() == d.c, std::string("shape:") + op, op << " gives " << A.nrow() << "x" << A.ncol() << " want " << d.r << "x" << d.c);
  DM g = dense(A, op); REQUIRE(g == d, std::string("value:") + op, op << " gives " << g.str() << " want " << d.str());
}
static DM permR(const DM &d, const std::vector<size_t> &p) { DM e(d.r, d.c); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) e(p[i], j) = d(i, j); return e; }
static DM permC(const DM &d, const std::vector<size_t> &p) { return permR(d.T(), p).T(); }
static std::vector<size_t> inv(const std::vector<size_t> &p) { std::vector<size_t> q(p.size()); for (size_t i = 0; i < p.size(); i++) q[p[i]] = i; return q; }

// structural predicates of the dense matrix
static bool d_upper(const DM &d) { for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) if (i > j && !d(i, j).zero()) return false; return true; }
static bool d_upinv(const DM &d) { if (d.r != d.c || !d_upper(d)) return false; for (size_t i = 0; i < d.r; i++) if (d(i, i).zero()) return false; return true; }
static long low(const DM &d, size_t j) { for (size_t i = d.r; i-- > 0;) if (!d(i, j).zero()) return i; return -1; }
static bool d_reduced(const DM &d) { std::set<long> s; for (size_t j = 0; j < d.c; j++) { long p = low(d, j); if (p >= 0 && !s.insert(p).second) return false; } return true; }
static bool d_pivot(const DM &d) {
  for (size_t j = 0; j < d.c; j++) { int c = 0; for (size_t i = 0; i < d.r; i++) c += !d(i, j).zero(); if (c > 1) return false; }
  for (size_t i = 0; i < d.r; i++) { int c = 0; for (size_t j = 0; j < d.c; j++) c += !d(i, j).zero(); if (c > 1) return false; }
  return true;
}
// echelon with nonzeros in the first columns, rows strictly increasing
static bool d_EL(const DM &d) { if (!d_pivot(d)) return false; long last = -1; bool gone = false;
  for (size_t j = 0; j < d.c; j++) { long p = low(d, j); if (p < 0) { gone = true; continue; } if (gone || p <= last) return false; last = p; } return true; }
static DM J(const DM &d) { DM e(d.r, d.c); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) e(d.r - 1 - i, d.c - 1 - j) = d(i, j); return e; }

static void predicates(const CM &A, const DM &d) {
  size_t z = 0; for (auto &x : d.a) z += !x.zero();
  REQUIRE(A.nnz() == z, "nnz", "nnz " << A.nnz() << " of " << d.str());
  REQUIRE(A.is_zero() == (z == 0), "is_zero", d.str());
  REQUIRE(A.is_upper() == d_upper(d), "is_upper", "is_upper=" << A.is_upper() << " for " << d.str());
  REQUIRE(A.is_lower() == d_upper(d.T()), "is_lower", "is_lower=" << A.is_lower() << " for " << d.str());
  REQUIRE(A.is_upper_invert() == d_upinv(d), "is_upper_invert", "is_upper_invert=" << A.is_upper_invert() << " for " << d.str());
  REQUIRE(A.is_reduced() == d_reduced(d), "is_reduced", "is_reduced=" << A.is_reduced() << " for " << d.str());
  REQUIRE(A.is_pivot_matrix() == d_pivot(d), "is_pivot_matrix", "is_pivot_matrix=" << A.is_pivot_matrix() << " for " << d.str());
  REQUIRE(A.is_EL() == d_EL(d), "is_EL", "is_EL=" << A.is_EL() << " for " << d.str());
  REQUIRE(A.is_EU() == d_EL(d.T()), "is_EU", "is_EU=" << A.is_EU() << " for " << d.str());
  REQUIRE(A.is_ELhat() == d_EL(J(d).T()), "is_ELhat", "is_ELhat=" << A.is_ELhat() << " for " << d.str());
  REQUIRE(A.is_EUhat() == d_EL(J(d)), "is_EUhat", "is_EUhat=" << A.is_EUhat() << " for " << d.str());
}
static void reads(const CM &A, const DM &d, Rng &r) {
  same(A, d, "contents");
  for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++)
    REQUIRE(toK(A.getval(i, j)) == d(i, j) && toK(A(i, j)) == d(i, j), "entry", "entry " << i << "," << j);
  auto ra = A.to_row_array(); REQUIRE(ra.size() == d.r, "to_row_array", "rows");
  for (size_t i = 0; i < d.r; i++) { REQUIRE(ra[i].size() == d.c, "to_row_array", "cols"); for (size_t j = 0; j < d.c; j++) REQUIRE(toK(ra[i][j]) == d(i, j), "to_row_array", "value"); }
  F *arr = A.dump_dense(); bool ok = true;
  for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) ok = ok && toK(arr[i + j * d.r]) == d(i, j);
  delete[] arr; REQUIRE(ok, "dump_dense", "dump_dense " << d.str());
  CM B = sparse(d); REQUIRE(A == B, "equality", "equal matrices compare unequal");
  if (d.r && d.c) { DM e = d; auto &x = e(r.r(0, d.r - 1), r.r(0, d.c - 1)); x = x + K(1); REQUIRE(!(A == sparse(e)), "equality", "different matrices compare equal"); }
  DM w(d.r + 1, d.c); REQUIRE(!(A == sparse(w)) , "equality", "different shapes compare equal");
  predicates(A, d);
}

FAMILY(algebra, 1500, 20000) {
  Rng &r = C.rng; set_size(r); size_t n = dim(r), m = dim(r), q = dim(r);
  DM a = randM(r, n, m, density(r)), b = randM(r, n, m, density(r)), c = randM(r, m, q, density(r));
  if (r.chance(.2)) b = a;
  CM A = sparse(a), B = sparse(b), Cc = sparse(c);
  C.desc << "A=" << a.str() << " B=" << b.str() << " C=" << c.str(); if (n * m) C.nontrivial();
  reads(A, a, r);
  same(A + B, a + b, "A+B"); same(A - B, a - b, "A-B"); same(A * Cc, a * c, "A*C");
  { CM D = A; D += B; same(D, a + b, "A+=B"); }
  { K s = randK(r); DM e = a; for (auto &x : e.a) x = x * s; C.desc << " s=" << s; same(A * toF(s), e, "A*s"); }
  same(A.transpose(), a.T(), "transpose"); same(A.T(), a.T(), "T");
  DV x(m), y(n); for (auto &v : x) v = r.chance(.6) ? randK(r) : K(0); for (auto &v : y) v = r.chance(.6) ? randK(r) : K(0);
  DM xm(m, 1), ym(n, 1); xm.setcol(0, x); ym.setcol(0, y);
  C.desc << " x=" << show(x) << " y=" << show(y);
  DV ax = n ? (a * xm).col(0) : DV();
  REQUIRE(dense(A.gemv(sparse(x)), n, "gemv") == ax, "gemv", "gemv");
  REQUIRE(dense(A * sparse(x), n, "A*x") == ax, "gemv", "A*x");
  REQUIRE(dense(gemv(A, sparse(x)), n, "gemv") == ax, "gemv", "gemv(A,x)");
  { std::vector<nzpair<size_t, F>> t; if (r.chance(.5)) t.emplace_back(5, F(1)); REQUIRE(dense(A.gemv(sparse(x), t), n, "gemv") == ax, "gemv", "gemv tmp"); }
  DV yx = m ? (ym.T() * a).T().col(0) : DV();
  REQUIRE(dense(sparse(y) * A, m, "y^T A") == yx, "vecmat", "y^T A gives " << show(dense(sparse(y) * A, m)) << " want " << show(yx));
  // J conjugations
  DM jr(n, m), jl(n, m);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) { jr(i, m - 1 - j) = a(i, j); jl(n - 1 - i, j) = a(i, j); }
  same(A.J_right(), jr, "J_right"); same(A.J_left(), jl, "J_left"); same(A.J_conjugation(), J(a), "J_conjugation");
  DM ds(n + m, m + q);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) ds(i, j) = a(i, j);
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < q; j++) ds(n + i, m + j) = c(i, j);
  same(direct_sum(A, Cc), ds, "direct_sum");
#ifndef NO_TENSOR
  if (HID == 7) {
  DM kr(n * m, m * q);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) for (size_t k = 0; k < m; k++) for (size_t l = 0; l < q; l++) kr(i * m + k, j * q + l) = a(i, j) * c(k, l);
  same(tensor_product(A, Cc), kr, "tensor_product"); }
#endif
  same(CM::identity(n), DM::I(n), "identity");
  { DM z(n, m); same(CM(n, m), z, "zero matrix"); K s = randK(r); for (auto &v : z.a) v = s; same(CM(n, m, toF(s)), z, "constant matrix"); }
  C.count("nnz", A.nnz());
}
// the predicates on matrices that nearly have the shape
FAMILY(shapes, 2500, 30000) {
  Rng &r = C.rng; set_size(r); size_t n = dim(r), m = r.chance(.5) ? n : dim(r); DM d(n, m);
  int kind = r.r(0, 6);
  if (kind == 0) d = randM(r, n, m, .15);
  else if (kind == 1) { for (size_t i = 0; i < n; i++) for (size_t j = i; j < m; j++) if (i == j ? r.chance(.95) : r.chance(.4)) d(i, j) = randK_nz(r); }
  else if (kind == 2) { for (size_t j = 0; j < m; j++) for (size_t i = j; i < n; i++) if (i == j ? r.chance(.95) : r.chance(.4)) d(i, j) = randK_nz(r); }
  else if (kind == 3) { size_t k = std::min(n, m); k = k ? r.r(0, k) : 0; auto rs = r.subset(n, k), cs = r.subset(m, k); if (r.chance(.5)) r.shuffle(cs); for (size_t t = 0; t < k; t++) d(rs[t], cs[t]) = K(1); }
  else if (kind == 4) { size_t k = std::min(n, m); k = k ? r.r(0, k) : 0; auto rs = r.subset(n, k); for (size_t t = 0; t < k; t++) d(rs[t], t) = K(1); if (r.chance(.5)) d = J(d); }
  else if (kind == 5) { size_t k = std::min(n, m); k = k ? r.r(0, k) : 0; auto cs = r.subset(m, k); for (size_t t = 0; t < k; t++) d(t, cs[t]) = K(1); if (r.chance(.5)) d = J(d); }
  else { auto ps = r.perm(n); for (size_t j = 0; j < m && j < n; j++) if (r.chance(.8)) { d(ps[j], j) = randK_nz(r); for (size_t i = 0; i < ps[j]; i++) if (r.chance(.3)) d(i, j) = randK_nz(r); } }
  if (n && m && r.chance(.3)) d(r.r(0, n - 1), r.r(0, m - 1)) = randK(r);
  C.desc << "kind " << kind << " " << d.str(); if (n && m) C.nontrivial();
  CM A = sparse(d); same(A, d, "contents"); predicates(A, d);
}
static DV drow(Rng &r, size_t n) { double p = density(r); DV d(n, K(0)); for (auto &x : d) if (r.chance(p)) x = randK_nz(r); return d; }
static DM insR(const DM &d, const std::vector<size_t> &at, const std::vector<DV> &rows) {
  DM e(d.r + at.size(), d.c); size_t o = 0, k = 0;
  for (size_t i = 0; i < e.r; i++) { if (k < at.size() && at[k] == i) { for (size_t j = 0; j < d.c; j++) e(i, j) = rows[k][j]; k++; } else { for (size_t j = 0; j < d.c; j++) e(i, j) = d(o, j); o++; } }
  return e;
}
static std::vector<size_t> seq(size_t a, size_t b) { std::vector<size_t> v; for (; a < b; a++) v.push_back(a); return v; }

FAMILY(history, 2500, 40000) {
  Rng &r = C.rng; set_size(r); DM d = randM(r, dim(r), dim(r), density(r)); CM A = sparse(d);
  C.desc << "start " << d.str(); int steps = r.r(1, 10); C.count("ops", steps);
  for (int s = 0; s < steps; s++) {
    size_t n = d.r, m = d.c; int op = r.r(0, 36); C.desc << " |" << op << ":"; const char *nm = "?";
    if (n > 2 * HID || m > 2 * HID) { // bring it back to size
      auto ri = r.subset(n, std::min<size_t>(n, HID - 2)), ci = r.subset(m, std::min<size_t>(m, HID - 2)); A = A.submatrix(ri, ci); d = d.rows(ri).cols(ci); continue; }
    switch (op) {
    case 0: { auto p = r.perm(n); nm = "permute_rows"; C.desc << show(p); A.permute_rows(p); d = permR(d, p); break; }
    case 1: { auto p = r.perm(n); nm = "ipermute_rows"; C.desc << show(p); A.ipermute_rows(p); d = permR(d, inv(p)); break; }
    case 2: { auto p = r.perm(m); nm = "permute_cols"; C.desc << show(p); A.permute_cols(p); d = permC(d, p); break; }
    case 3: { auto p = r.perm(m); nm = "ipermute_cols"; C.desc << show(p); A.ipermute_cols(p); d = permC(d, inv(p)); break; }
    case 4: { auto p = r.perm(n), q = r.perm(m); nm = "permute"; C.desc << show(p) << show(q); A.permute(p, q); d = permC(permR(d, p), q); break; }
    case 5: { DV v = drow(r, n); nm = "append_column"; C.desc << show(v); SV sv = sparse(v); A.append_column(sv); DM e(n, 1); e.setcol(0, v); d = hcat(d, e); d.r = n; break; }
    case 6: { nm = "append_zero_column"; A.append_column(); DM e(n, m + 1); for (size_t j = 0; j < m; j++) e.setcol(j, d.col(j)); d = e; break; }
    case 7: { nm = "append_row"; A.append_row(); d = insR(d, {n}, {DV(m, K(0))}); break; }
    case 8: { DV v = drow(r, m); std::vector<F> f; for (auto &x : v) f.push_back(toF(x)); nm = "append_row(v)"; C.desc << show(v); A.append_row(f); d = insR(d, {n}, {v}); break; }
    case 9: { DV v = drow(r, m); nm = "append_sparse_row"; C.desc << show(v); A.append_sparse_row(sparse(v)); d = insR(d, {n}, {v}); break; }
    case 10: { size_t i = r.r(0, n); DV v = drow(r, m); std::vector<F> f; for (auto &x : v) f.push_back(toF(x)); nm = "insert_row(v)"; C.desc << i << show(v); A.insert_row(i, f); d = insR(d, {i}, {v}); break; }
    case 11: { size_t i = r.r(0, n); nm = "insert_row"; C.desc << i; A.insert_row(i); d = insR(d, {i}, {DV(m, K(0))}); break; }
    case 12: { size_t i = r.r(0, m); nm = "insert_column"; C.desc << i; A.insert_column(i); d = insR(d.T(), {i}, {DV(n, K(0))}).T(); break; }
    case 13: { size_t i = r.r(0, m); DV v = drow(r, n); nm = "insert_column(v)"; C.desc << i << show(v); A.insert_column(i, sparse(v)); d = insR(d.T(), {i}, {v}).T(); break; }
    case 14: case 15: case 16: case 17: {
      size_t k = r.r(0, 4); bool rows = op != 14; size_t base = rows ? n : m, len = rows ? m : n;
      auto at = r.subset(base + k, k); std::vector<DV> v(k); for (auto &x : v) { x = drow(r, len); if (op == 15) x.assign(len, K(0)); }
      C.desc << show(at) << show2(v); std::vector<SV> sv; for (auto &x : v) sv.push_back(sparse(x));
      if (op == 14) { nm = "insert_columns"; A.insert_columns(at, sv); d = insR(d.T(), at, v).T(); }
      else { if (op == 15) { nm = "insert_rows"; A.insert_rows(at); } else if (op == 16) { nm = "insert_sparse_rows"; A.insert_sparse_rows(at, sv); } else { nm = "insert_rows(v)"; A.insert_rows(at, sv); } d = insR(d, at, v); }
      break; }
    case 18: { if (!m) continue; nm = "erase_column"; size_t j = r.r(0, m - 1); C.desc << j; auto js = seq(0, m); if (r.chance(.5)) { A.erase_column(j); js.erase(js.begin() + j); } else { A.erase_column(); js.pop_back(); } d = d.cols(js); break; }
    case 19: { size_t k = m ? r.r(0, m) : 0; nm = "erase_final_columns"; C.desc << k; A.erase_final_columns(k); d = d.cols(seq(0, m - k)); break; }
    case 20: { size_t k = m ? r.r(0, m) : 0; nm = "erase_initial_cols"; C.desc << k; A.erase_initial_cols(k); d = d.cols(seq(k, m)); break; }
    case 21: { if (!n) continue; nm = "erase_row"; size_t i = r.r(0, n - 1); C.desc << i; auto is = seq(0, n); if (r.chance(.6)) { A.erase_row(i); is.erase(is.begin() + i); } else { C.desc << "last"; A.erase_row(); is.pop_back(); } d = d.rows(is); break; }
    case 22: { size_t k = n ? r.r(0, n) : 0; nm = "erase_rows"; C.desc << k; A.erase_rows(k); d = d.rows(seq(0, n - k)); break; }
    case 23: { size_t k = n ? r.r(0, n) : 0; nm = "erase_initial_rows"; C.desc << k; A.erase_initial_rows(k); d = d.rows(seq(k, n)); break; }
    case 24: { auto ri = r.subset(n, n ? r.r(0, n) : 0), ci = r.subset(m, m ? r.r(0, m) : 0); if (r.chance(.5)) { r.shuffle(ri); r.shuffle(ci); }
      nm = "submatrix"; C.desc << show(ri) << show(ci); A = A.submatrix(ri, ci); d = d.rows(ri).cols(ci); break; }
    case 25: { size_t i0 = r.r(0, n), i1 = r.r(i0, n), j0 = r.r(0, m), j1 = r.r(j0, m); nm = "block"; C.desc << i0 << "," << i1 << "," << j0 << "," << j1; same(A.block(i0, i1, j0, j1), d.rows(seq(i0, i1)).cols(seq(j0, j1)), nm); break; }
    case 26: { size_t i0 = r.r(0, n), i1 = r.r(i0, n), j0 = r.r(0, m), j1 = r.r(j0, m); DM b = randM(r, i1 - i0, j1 - j0, density(r)); nm = "set_block"; C.desc << i0 << "," << i1 << "," << j0 << "," << j1 << b.str();
      A.set_block(i0, i1, j0, j1, sparse(b)); for (size_t i = i0; i < i1; i++) for (size_t j = j0; j < j1; j++) d(i, j) = b(i - i0, j - j0); break; }
    case 27: { std::vector<bool> c(n), c2(m); for (size_t i = 0; i < n; i++) c[i] = r.chance(.4); for (size_t i = 0; i < m; i++) c2[i] = r.chance(.4); nm = "clear"; C.desc << "rows";
      for (size_t i = 0; i < n; i++) if (c[i]) { C.desc << i << ","; for (size_t j = 0; j < m; j++) d(i, j) = K(0); } A.clear_rows(c);
      C.desc << "cols"; for (size_t j = 0; j < m; j++) if (c2[j]) { C.desc << j << ","; for (size_t i = 0; i < n; i++) d(i, j) = K(0); } A.clear_cols(c2);
      std::vector<bool> bad(n + 1); MUST_THROW(A.clear_rows(bad), "clear_rows-accepts", "clear_rows with a wrong length"); break; }
    case 28: { if (!n) continue; size_t i = r.r(0, n - 1), k = r.r(0, n - 1); nm = "swap_rows"; C.desc << i << "," << k; A.swap_rows(i, k); for (size_t j = 0; j < m; j++) std::swap(d(i, j), d(k, j)); break; }
    case 29: { if (!m) continue; size_t i = r.r(0, m - 1), k = r.r(0, m - 1); nm = "swap_cols"; C.desc << i << "," << k; A.swap_cols(i, k); for (size_t j = 0; j < n; j++) std::swap(d(j, i), d(j, k)); break; }
    case 30: { if (n < 2) continue; auto ik = r.perm(n); size_t i = ik[0], k = ik[1]; K a = randK(r), b = randK(r), c = randK(r), e = randK(r); nm = "mix_rows"; C.desc << i << "," << k << ":" << a << " " << b << " " << c << " " << e;
      if (FIELD == 0 && s > 4) continue;
      A.mix_rows(i, k, toF(a), toF(b), toF(c), toF(e)); for (size_t j = 0; j < m; j++) { K x = d(i, j), y = d(k, j); d(i, j) = a * x + b * y; d(k, j) = c * x + e * y; } break; }
    case 31: { if (m < 2) continue; auto ik = r.perm(m); size_t i = ik[0], k = ik[1]; K a = randK(r), b = randK(r), c = randK(r), e = randK(r); nm = "mix_cols"; C.desc << i << "," << k << ":" << a << " " << b << " " << c << " " << e;
      if (FIELD == 0 && s > 4) continue;
      A.mix_cols(i, k, toF(a), toF(b), toF(c), toF(e)); for (size_t j = 0; j < n; j++) { K x = d(j, i), y = d(j, k); d(j, i) = a * x + c * y; d(j, k) = b * x + e * y; } break; }
    case 32: { nm = "row_scale"; DV c(n); std::vector<F> f; for (auto &x : c) { x = randK_nz(r); f.push_back(toF(x)); } C.desc << show(c); A.row_scale(f); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) d(i, j) = d(i, j) * c[i]; break; }
    case 33: { nm = "col_inv_scale"; DV c(m); std::vector<F> f; for (auto &x : c) { x = FIELD == 0 ? K(r.chance(.5) ? -1 : 1) : randK_nz(r); f.push_back(toF(x)); } C.desc << show(c); A.col_inv_scale(f); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) d(i, j) = d(i, j) * c[j].inv(); break; }
    case 34: { if (!n) continue; size_t i = r.r(0, n - 1), k = r.r(0, n - 1); K c = randK(r); nm = "add_rows"; C.desc << i << "," << c << "*" << k; if (FIELD == 0 && s > 4) continue; A.add_rows(i, toF(c), k); for (size_t j = 0; j < m; j++) d(i, j) = d(i, j) + c * d(k, j); break; }
    case 35: { if (!n || !m) continue; size_t i = r.r(0, n - 1), j = r.r(0, m - 1); nm = "schur_complement"; if (d(i, j).zero() || (FIELD == 0 && (s > 2 || !(d(i, j) == K(1) || d(i, j) == K(-1))))) continue; C.desc << i << "," << j; A.schur_complement(i, j); DM o = d; for (size_t q = j + 1; q < m; q++) for (size_t p = i + 1; p < n; p++) d(p, q) = o(p, q) - o(p, j) * o(i, j).inv() * o(i, q); break; }
    case 36: { size_t z = r.r(0, 3); nm = "last rows"; C.desc << z; for (size_t t = 0; t < z; t++) A.append_row(); DM o(n + z, m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) o(i, j) = d(i, j); same(A, o, "append_row"); size_t e = 0; while (e < o.r) { bool zero = true; for (size_t j = 0; j < m; j++) zero = zero && o(o.r - 1 - e, j).zero(); if (!zero) break; e++; } e = r.r(0, e); if (e && r.chance(.4)) { A.erase_row_unsafe(); e--; d = DM(o.r - 1, m); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < m; j++) d(i, j) = o(i, j); o = d; } if (r.chance(.3)) A.set_nrow(o.r - e); else A.erase_final_rows_unsafe(e); d = DM(o.r - e, m); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < m; j++) d(i, j) = o(i, j); break; }
    }
    C.desc << " " << nm;
    same(A, d, nm);
  }
  reads(A, d, r); C.nontrivial();
}

// ---- CSC matrices of integers ----------------------------------------------
typedef CSCMatrix<int, size_t> CSC;
typedef orc::M<orc::Q> IM;
struct CscIn { std::vector<size_t> cp, ri; std::vector<int> v; };
static CscIn csc_of(Rng &r, const IM &d, bool shuffled) {
  CscIn o; o.cp.push_back(0);
  for (size_t j = 0; j < d.c; j++) {
    std::vector<size_t> is; for (size_t i = 0; i < d.r; i++) if (!d(i, j).zero()) is.push_back(i);
    if (shuffled) r.shuffle(is);
    for (auto i : is) { o.ri.push_back(i); o.v.push_back((int)d(i, j).n); }
    o.cp.push_back(o.ri.size());
  }
  return o;
}
static IM randI(Rng &r, size_t n, size_t m) { IM d(n, m); double p = density(r); for (auto &x : d.a) if (r.chance(p)) x = orc::Q((long long)r.r(-3, 3)); return d; }
static void same_csc(const CSC &A, const IM &d, const char *op, bool nozeros) {
  REQUIRE(A.nrow() == d.r && A.ncol() == d.c, std::string("csc-shape:") + op, op << " shape " << A.nrow() << "x" << A.ncol());
  auto &cp = A.get_colptr(); REQUIRE((cp.size() == d.c + 1 && cp[0] == 0 && cp[d.c] == A.get_rowind().size() && A.get_rowind().size() == A.get_val().size()), std::string("csc-structure:") + op, op << " column pointers");
  for (size_t j = 0; j < d.c; j++) {
    REQUIRE(cp[j] <= cp[j + 1], std::string("csc-structure:") + op, op << " column pointers");
    for (size_t p = cp[j]; p < cp[j + 1]; p++) {
      REQUIRE(A.get_rowind()[p] < d.r, std::string("csc-structure:") + op, op << " row index out of range");
      REQUIRE(p == cp[j] || A.get_rowind()[p - 1] < A.get_rowind()[p], std::string("csc-unsorted:") + op, op << " column " << j << " is not strictly increasing");
      if (nozeros) REQUIRE(A.get_val()[p] != 0, std::string("csc-zero:") + op, op << " stores a zero in column " << j);
    }
    for (size_t i = 0; i < d.r; i++) REQUIRE(orc::Q((long long)A.getval(i, j)) == d(i, j), std::string("csc-value:") + op, op << " entry " << i << "," << j << " is " << A.getval(i, j) << " want " << d(i, j));
  }
}
FAMILY(csc, 2500, 30000) {
  Rng &r = C.rng; set_size(r); size_t n = dim(r), m = dim(r), q = dim(r);
  IM a = randI(r, n, m), b = randI(r, n, m), c = randI(r, m, q); if (r.chance(.2)) for (size_t i = 0; i < a.a.size(); i++) b.a[i] = -a.a[i];
  C.desc << "A=" << a.str() << " B=" << b.str() << " C=" << c.str(); if (n * m) C.nontrivial();
  auto mk = [&](const IM &d) { auto o = csc_of(r, d, r.chance(.6)); return CSC(d.r, d.c, o.cp, o.ri, o.v); };
  CSC A = mk(a), B = mk(b), Cc = mk(c);
  same_csc(A, a, "construct", true); same_csc(A * Cc, a * c, "A*C", true);
  CSC S = r.chance(.5) ? CSC() : Cc; gemm(A, Cc, S); same_csc(S, a * c, "gemm", true);
  sum(A, B, S); same_csc(S, a + b, "sum", true);
  int al = r.r(-2, 2); IM e(n, m); for (size_t i = 0; i < e.a.size(); i++) e.a[i] = a.a[i] * orc::Q((long long)al) + b.a[i];
  C.desc << " alpha=" << al; sum(al, A, B, S); same_csc(S, e, "alpha-sum", true);
  auto ri = r.subset(n, n ? r.r(0, n) : 0), ci = r.subset(m, m ? r.r(0, m) : 0); if (r.chance(.5)) { r.shuffle(ri); r.shuffle(ci); }
  C.desc << " rows " << show(ri) << " cols " << show(ci);
  same_csc(A.submatrix(ri, ci), a.rows(ri).cols(ci), "submatrix", true);
  auto prow = bats::util::partial_perm(ri, n);
  CSC Bl; block_select(A, ci, prow, ri.size(), Bl); same_csc(Bl, a.rows(ri).cols(ci), "block_select", true);
  { // complementary row blocks in one pass
    std::vector<char> in(n, 0); for (auto i : ri) in[i] = 1; std::vector<size_t> rest; for (size_t i = 0; i < n; i++) if (!in[i]) rest.push_back(i); if (r.chance(.5)) r.shuffle(rest);
    auto prow2 = bats::util::partial_perm(rest, n); CSC B1, B2;
    block_select(A, ci, {&prow, &prow2}, {ri.size(), rest.size()}, {&B1, &B2});
    same_csc(B1, a.rows(ri).cols(ci), "block_select-multi", true); same_csc(B2, a.rows(rest).cols(ci), "block_select-multi", true);
  }
  // into a field
  DM f(n, m); for (size_t i = 0; i < f.a.size(); i++) f.a[i] = K((long long)a.a[i].n); CM Af(A); same(Af, f, "field-of-csc");
  // through integer columns
  ColumnMatrix<SparseVector<int, size_t>> Ai(A); CM Af2(Ai); same(Af2, f, "field-of-int-columns");
}
