// Reference arithmetic and algorithms used to judge the library.  Nothing here
// includes or calls the library except the value conversions in bridge.hpp.
#pragma once
#include "common.hpp"
#include <map>

namespace orc {

typedef __int128 i128;
inline i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }

// exact rationals; refuses (vh::Skip) rather than overflow
struct Q {
  i128 n, d;
  static constexpr i128 LIM = (i128)1 << 62;
  Q(long long a = 0) : n(a), d(1) {}
  Q(i128 a, i128 b) : n(a), d(b) { norm(); }
  void norm() {
    if (d < 0) { n = -n; d = -d; }
    i128 g = gcd128(n, d); if (g > 1) { n /= g; d /= g; }
    if (n > LIM || n < -LIM || d > LIM) throw vh::Skip();
  }
  Q operator+(const Q &o) const { return Q(n * o.d + o.n * d, d * o.d); }
  Q operator-(const Q &o) const { return Q(n * o.d - o.n * d, d * o.d); }
  Q operator*(const Q &o) const { return Q(n * o.n, d * o.d); }
  Q operator/(const Q &o) const { return Q(n * o.d, d * o.n); }
  Q operator-() const { return Q(-n, d); }
  Q inv() const { return Q(d, n); }
  bool operator==(const Q &o) const { return n == o.n && d == o.d; }
  bool operator!=(const Q &o) const { return !(*this == o); }
  bool operator<(const Q &o) const { return n * o.d < o.n * d; }
  bool zero() const { return n == 0; }
};
inline std::ostream &operator<<(std::ostream &os, const Q &q) { os << (long long)q.n; if (q.d != 1) os << "/" << (long long)q.d; return os; }

template <int P> struct Z {
  int v;
  Z(long long a = 0) : v((int)(((a % P) + P) % P)) {}
  Z operator+(const Z &o) const { return Z((long long)v + o.v); }
  Z operator-(const Z &o) const { return Z((long long)v - o.v); }
  Z operator*(const Z &o) const { return Z((long long)v * o.v); }
  Z operator-() const { return Z(-(long long)v); }
  Z inv() const { for (int i = 1; i < P; i++) if ((long long)i * v % P == 1) return Z(i); throw std::logic_error("oracle: inverse of zero"); }
  Z operator/(const Z &o) const { return *this * o.inv(); }
  bool operator==(const Z &o) const { return v == o.v; }
  bool operator!=(const Z &o) const { return v != o.v; }
  bool operator<(const Z &o) const { return v < o.v; }
  bool zero() const { return v == 0; }
};
template <int P> std::ostream &operator<<(std::ostream &os, const Z<P> &z) { return os << z.v; }

template <class K> using V = std::vector<K>;

// dense matrix, row major
template <class K> struct M {
  size_t r = 0, c = 0;
  std::vector<K> a;
  M() {}
  M(size_t r, size_t c) : r(r), c(c), a(r * c, K(0)) {}
  K &operator()(size_t i, size_t j) { return a[i * c + j]; }
  const K &operator()(size_t i, size_t j) const { return a[i * c + j]; }
  static M I(size_t n) { M m(n, n); for (size_t i = 0; i < n; i++) m(i, i) = K(1); return m; }
  bool operator==(const M &o) const { return r == o.r && c == o.c && a == o.a; }
  bool operator!=(const M &o) const { return !(*this == o); }
  M operator*(const M &o) const {
    if (c != o.r) throw std::logic_error("oracle: shape");
    M m(r, o.c);
    for (size_t i = 0; i < r; i++) for (size_t k = 0; k < c; k++) if (!(*this)(i, k).zero())
      for (size_t j = 0; j < o.c; j++) if (!o(k, j).zero()) m(i, j) = m(i, j) + (*this)(i, k) * o(k, j);
    return m;
  }
  M operator+(const M &o) const { M m(*this); for (size_t i = 0; i < a.size(); i++) m.a[i] = a[i] + o.a[i]; return m; }
  M operator-(const M &o) const { M m(*this); for (size_t i = 0; i < a.size(); i++) m.a[i] = a[i] - o.a[i]; return m; }
  M T() const { M m(c, r); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m(j, i) = (*this)(i, j); return m; }
  bool zero() const { for (auto &x : a) if (!x.zero()) return false; return true; }
  V<K> col(size_t j) const { V<K> v(r); for (size_t i = 0; i < r; i++) v[i] = (*this)(i, j); return v; }
  void setcol(size_t j, const V<K> &v) { for (size_t i = 0; i < r; i++) (*this)(i, j) = v[i]; }
  M cols(const std::vector<size_t> &js) const { M m(r, js.size()); for (size_t k = 0; k < js.size(); k++) for (size_t i = 0; i < r; i++) m(i, k) = (*this)(i, js[k]); return m; }
  M rows(const std::vector<size_t> &is) const { M m(is.size(), c); for (size_t k = 0; k < is.size(); k++) for (size_t j = 0; j < c; j++) m(k, j) = (*this)(is[k], j); return m; }
  std::string str() const {
    std::ostringstream o; o << r << "x" << c << "[";
    for (size_t i = 0; i < r; i++) { if (i) o << ";"; for (size_t j = 0; j < c; j++) { if (j) o << " "; o << (*this)(i, j); } }
    o << "]"; return o.str();
  }
};
template <class K> M<K> hcat(const M<K> &A, const M<K> &B) {
  size_t r = A.c ? A.r : (B.c ? B.r : std::max(A.r, B.r)); M<K> m(r, A.c + B.c);
  for (size_t i = 0; i < r; i++) { for (size_t j = 0; j < A.c; j++) m(i, j) = A(i, j); for (size_t j = 0; j < B.c; j++) m(i, A.c + j) = B(i, j); }
  return m;
}
template <class K> M<K> vcat(const M<K> &A, const M<K> &B) { return hcat(A.T(), B.T()).T(); }

// reduced row echelon form in place; returns pivot columns
template <class K> std::vector<size_t> rref(M<K> &A) {
  std::vector<size_t> piv; size_t row = 0;
  for (size_t j = 0; j < A.c && row < A.r; j++) {
    size_t p = row; while (p < A.r && A(p, j).zero()) p++;
    if (p == A.r) continue;
    if (p != row) for (size_t k = 0; k < A.c; k++) std::swap(A(p, k), A(row, k));
    K iv = A(row, j).inv();
    for (size_t k = j; k < A.c; k++) A(row, k) = A(row, k) * iv;
    for (size_t i = 0; i < A.r; i++) if (i != row && !A(i, j).zero()) {
      K f = A(i, j);
      for (size_t k = j; k < A.c; k++) if (!A(row, k).zero()) A(i, k) = A(i, k) - f * A(row, k);
    }
    piv.push_back(j); row++;
  }
  return piv;
}
template <class K> size_t rank(M<K> A) { return rref(A).size(); }
// columns span the kernel
template <class K> M<K> kernel(M<K> A) {
  auto piv = rref(A); std::vector<bool> isp(A.c, false); for (auto j : piv) isp[j] = true;
  std::vector<size_t> fr; for (size_t j = 0; j < A.c; j++) if (!isp[j]) fr.push_back(j);
  M<K> N(A.c, fr.size());
  for (size_t k = 0; k < fr.size(); k++) { N(fr[k], k) = K(1); for (size_t i = 0; i < piv.size(); i++) N(piv[i], k) = -A(i, fr[k]); }
  return N;
}
// independent subset of the columns
template <class K> M<K> image(const M<K> &A) { M<K> B = A; auto piv = rref(B); return A.cols(piv); }
template <class K> bool in_span(const M<K> &A, const V<K> &v) {
  M<K> B(v.size(), 1); B.setcol(0, v); return rank(hcat(A, B)) == rank(A);
}
// some X with A X = B (throws logic_error if none)
template <class K> M<K> solve(const M<K> &A, const M<K> &B) {
  M<K> W = hcat(A, B); size_t n = A.c; auto piv = rref(W);
  M<K> X(n, B.c);
  for (size_t i = 0; i < piv.size(); i++) { if (piv[i] >= n) throw std::logic_error("oracle: inconsistent"); for (size_t j = 0; j < B.c; j++) X(piv[i], j) = W(i, n + j); }
  return X;
}
template <class K> bool invertible(const M<K> &A) { return A.r == A.c && rank(A) == A.r; }

// ---- homology of a chain complex given by its boundary matrices -----------
// D[k] : C_k -> C_{k-1}; D[0] has zero rows
template <class K> std::vector<size_t> betti(const std::vector<M<K>> &D) {
  std::vector<size_t> rk(D.size() + 1, 0), b(D.size());
  for (size_t k = 1; k < D.size(); k++) rk[k] = rank(D[k]);
  for (size_t k = 0; k < D.size(); k++) b[k] = D[k].c - (k ? rk[k] : 0) - rk[k + 1];
  return b;
}
// basis of H_k: Z = boundaries followed by chosen cycle representatives
template <class K> struct HBasis {
  M<K> B, R;                       // boundaries (independent), representatives
  size_t dim() const { return R.c; }
  // coordinates of cycles in the representatives
  M<K> coords(const M<K> &Zc) const {
    M<K> X = solve(hcat(B, R), Zc); M<K> Y(R.c, Zc.c);
    for (size_t i = 0; i < R.c; i++) for (size_t j = 0; j < Zc.c; j++) Y(i, j) = X(B.c + i, j);
    return Y;
  }
};
template <class K> HBasis<K> hbasis(const std::vector<M<K>> &D, size_t k) {
  HBasis<K> h; size_t n = D[k].c;
  M<K> Zk = (k == 0) ? M<K>::I(n) : kernel(D[k]);
  h.B = (k + 1 < D.size()) ? image(D[k + 1]) : M<K>(n, 0);
  if (h.B.r != n) h.B = M<K>(n, 0);
  M<K> W = hcat(h.B, Zk); M<K> E = W; auto piv = rref(E);
  std::vector<size_t> pick; for (auto j : piv) if (j >= h.B.c) pick.push_back(j);
  h.R = W.cols(pick); if (h.R.r != n) h.R = M<K>(n, pick.size());
  return h;
}

// ---- linear relations (for zigzags and quivers) ---------------------------
// a relation in U + W is the column span of [A; B], A: rows of U, B: rows of W
template <class K> struct Rel { M<K> A, B; };
template <class K> Rel<K> rel_map(const M<K> &F) { return {M<K>::I(F.c), F}; }       // forward
template <class K> Rel<K> rel_inv(const M<K> &F) { return {F, M<K>::I(F.c)}; }       // backward
template <class K> Rel<K> compose(const Rel<K> &R, const Rel<K> &S) {                // R then S
  M<K> N(R.B.r, R.B.c + S.A.c);
  for (size_t i = 0; i < R.B.r; i++) { for (size_t j = 0; j < R.B.c; j++) N(i, j) = R.B(i, j); for (size_t j = 0; j < S.A.c; j++) N(i, R.B.c + j) = -S.A(i, j); }
  M<K> Ker = kernel(N);
  M<K> Kt(R.B.c, Ker.c), Kb(S.A.c, Ker.c);
  for (size_t j = 0; j < Ker.c; j++) { for (size_t i = 0; i < R.B.c; i++) Kt(i, j) = Ker(i, j); for (size_t i = 0; i < S.A.c; i++) Kb(i, j) = Ker(R.B.c + i, j); }
  Rel<K> out{R.A * Kt, S.B * Kb};
  // keep an independent generating set
  M<K> W = vcat(out.A, out.B); if (W.r == 0) return {M<K>(R.A.r, 0), M<K>(S.B.r, 0)};
  W = image(W);
  Rel<K> o{M<K>(R.A.r, W.c), M<K>(S.B.r, W.c)};
  for (size_t j = 0; j < W.c; j++) { for (size_t i = 0; i < R.A.r; i++) o.A(i, j) = W(i, j); for (size_t i = 0; i < S.B.r; i++) o.B(i, j) = W(R.A.r + i, j); }
  return o;
}
// number of bars covering the whole range of the composed relation:
// dim Rel - dim{(u,0)} - dim{(0,w)}
template <class K> size_t rel_rank(const Rel<K> &R) {
  size_t d = rank(vcat(R.A, R.B));
  // pairs with w = 0: coefficient kernels of B mapped through A
  size_t ku = rank(R.A * kernel(R.B)), kw = rank(R.B * kernel(R.A));
  return d - ku - kw;
}

// ---- persistence: textbook column reduction over the whole filtration -----
struct Bar { size_t dim; double b, d; bool operator<(const Bar &o) const { return std::tie(dim, b, d) < std::tie(o.dim, o.b, o.d); } bool operator==(const Bar &o) const { return dim == o.dim && b == o.b && d == o.d; } };
inline std::ostream &operator<<(std::ostream &os, const Bar &x) { return os << x.dim << ":[" << x.b << "," << x.d << ")"; }

// cells of dimension k have values val[k][i]; D[k] boundary matrices.
// zero-length bars included unless drop
template <class K> std::vector<Bar> barcode(const std::vector<M<K>> &D, const std::vector<std::vector<double>> &val, bool drop_zero) {
  std::vector<Bar> out; size_t n = D.size();
  std::vector<std::vector<size_t>> ord(n), pos(n);
  for (size_t k = 0; k < n; k++) {
    ord[k].resize(val[k].size()); for (size_t i = 0; i < ord[k].size(); i++) ord[k][i] = i;
    std::stable_sort(ord[k].begin(), ord[k].end(), [&](size_t a, size_t b) { return val[k][a] < val[k][b]; });
    pos[k].resize(ord[k].size()); for (size_t i = 0; i < ord[k].size(); i++) pos[k][ord[k][i]] = i;
  }
  std::vector<std::vector<char>> negative(n), killed(n);
  for (size_t k = 0; k < n; k++) { negative[k].assign(ord[k].size(), 0); killed[k].assign(ord[k].size(), 0); }
  const double inf = std::numeric_limits<double>::infinity();
  for (size_t k = 1; k < n; k++) {
    std::map<size_t, V<K>> bypiv;
    for (size_t jj = 0; jj < ord[k].size(); jj++) {
      V<K> c(ord[k - 1].size(), K(0));
      for (size_t i = 0; i < c.size(); i++) c[i] = D[k](ord[k - 1][i], ord[k][jj]);
      long p = (long)c.size() - 1;
      while (true) {
        while (p >= 0 && c[p].zero()) p--;
        if (p < 0) break;
        auto it = bypiv.find(p); if (it == bypiv.end()) break;
        K f = c[p] / it->second[p];
        for (long i = 0; i <= p; i++) if (!it->second[i].zero()) c[i] = c[i] - f * it->second[i];
      }
      if (p >= 0) {
        bypiv[p] = c; negative[k][jj] = 1; killed[k - 1][p] = 1;
        double b = val[k - 1][ord[k - 1][p]], d = val[k][ord[k][jj]];
        if (!drop_zero || b != d) out.push_back({k - 1, b, d});
      }
    }
  }
  for (size_t k = 0; k < n; k++) for (size_t i = 0; i < ord[k].size(); i++)
    if (!negative[k][i] && !killed[k][i]) { double b = val[k][ord[k][i]]; if (!drop_zero || b != inf) out.push_back({k, b, inf}); }
  std::sort(out.begin(), out.end());
  return out;
}
} // namespace orc
