// Conversions between library values and the reference model.
#pragma once
#include <bats.hpp>
#include "oracle.hpp"

#ifndef FIELD
#define FIELD 2
#endif
#if FIELD == 0
typedef Rational<int64_t> F;
typedef orc::Q K;
#else
typedef ModP<int, FIELD> F;
typedef orc::Z<FIELD> K;
#endif
typedef SparseVector<F, size_t> SV;
typedef ColumnMatrix<SV> CM;
typedef orc::M<K> DM;
typedef orc::V<K> DV;

template <class X> struct ToK;
template <class I, unsigned P> struct ToK<ModP<I, P>> { static K go(const ModP<I, P> &x) { return K((long long)x.to_int()); } };
#if FIELD == 0
inline K parse_q(const std::string &s) {
  auto p = s.find('/');
  if (p == std::string::npos) return K((long long)std::stoll(s));
  return K((__int128)std::stoll(s.substr(0, p)), (__int128)std::stoll(s.substr(p + 1)));
}
template <class I> struct ToK<Rational<I>> {
  static K go(const Rational<I> &x) {
    // read the exact value through public operations only
    I t = x.to_int(); if (x == Rational<I>(t)) return K((long long)t);
    std::ostringstream o; o << x; return parse_q(o.str());
  }
};
#endif
template <> struct ToK<int> { static K go(int x) { return K((long long)x); } };
template <class X> K toK(const X &x) { return ToK<X>::go(x); }

#if FIELD == 0
inline F toF(const K &k) { return F((int64_t)k.n, (int64_t)k.d); }
inline K randK(vh::Rng &r, int lim = 2) { return K((long long)r.r(-lim, lim)); }
#else
inline F toF(const K &k) { return F(k.v); }
inline K randK(vh::Rng &r, int = 2) { return K((long long)r.r(0, FIELD - 1)); }
#endif
inline K randK_nz(vh::Rng &r) { while (true) { K k = randK(r); if (!k.zero()) return k; } }

// canonical form: strictly increasing indices below n, no zero stored
template <class VecT> void canonical(const VecT &v, size_t n, const std::string &what) {
  bool first = true; size_t last = 0;
  for (auto it = v.nzbegin(); it != v.nzend(); ++it) {
    size_t i = it->ind;
    REQUIRE(first || i > last, "not-canonical", what << ": indices not strictly increasing at " << i);
    REQUIRE(i < n, "index-out-of-range", what << ": index " << i << " not below " << n);
    REQUIRE(!toK(it->val).zero(), "stored-zero", what << ": stored zero at " << i);
    first = false; last = i;
  }
}
// dense value; repeated indices add up, so that non-canonical storage is still judged by value
template <class VecT> DV dense(const VecT &v, size_t n, const std::string &what = "vector") {
  canonical(v, n, what);
  DV d(n, K(0));
  for (auto it = v.nzbegin(); it != v.nzend(); ++it) d[it->ind] = d[it->ind] + toK(it->val);
  return d;
}
inline SV sparse(const DV &d) {
  std::vector<size_t> ind; std::vector<F> val;
  for (size_t i = 0; i < d.size(); i++) if (!d[i].zero()) { ind.push_back(i); val.push_back(toF(d[i])); }
  return SV(ind, val);
}
template <class TC> DM dense(const ColumnMatrix<TC> &A, const std::string &what = "matrix") {
  DM m(A.nrow(), A.ncol());
  REQUIRE(A.cols().size() == A.ncol(), "shape", what << ": ncol " << A.ncol() << " but " << A.cols().size() << " columns stored");
  for (size_t j = 0; j < A.ncol(); j++) m.setcol(j, dense(A[j], A.nrow(), what + " column " + std::to_string(j)));
  return m;
}
inline CM sparse(const DM &d) {
  std::vector<SV> c; for (size_t j = 0; j < d.c; j++) c.push_back(sparse(d.col(j)));
  return CM(d.r, d.c, c);
}
inline DM randM(vh::Rng &r, size_t n, size_t m, double p) {
  DM d(n, m); for (auto &x : d.a) if (r.chance(p)) x = randK_nz(r); return d;
}
// random matrix of rank at most k
inline DM randM_rank(vh::Rng &r, size_t n, size_t m, size_t k) {
  DM A(n, k), B(k, m);
  for (auto &x : A.a) if (r.chance(.5)) x = K((long long)r.r(0, 1));
  for (auto &x : B.a) if (r.chance(.5)) x = K((long long)r.r(0, 1));
  return A * B;
}
// integer CSC of a complex's boundary, as the reference sees it
template <class TV> DM dense_csc(const CSCMatrix<TV, size_t> &A) {
  DM m(A.nrow(), A.ncol());
  for (size_t j = 0; j < A.ncol(); j++)
    for (size_t p = A.get_colptr()[j]; p < A.get_colptr()[j + 1]; p++) {
      REQUIRE(A.get_rowind()[p] < A.nrow(), "index-out-of-range", "CSC row index");
      m(A.get_rowind()[p], j) = m(A.get_rowind()[p], j) + K((long long)A.get_val()[p]);
    }
  return m;
}
