// C02: sparse vectors against a dense model, over operation histories.
#include "bridge.hpp"
using namespace vh;

static DV randV(Rng &r, size_t n, double p) { DV d(n, K(0)); for (auto &x : d) if (r.chance(p)) x = randK_nz(r); return d; }
static size_t nnz(const DV &d) { size_t c = 0; for (auto &x : d) c += !x.zero(); return c; }
static double density(Rng &r) { static const double ps[] = {0, .1, .3, .6, 1}; return ps[r.r(0, 4)]; }

static void queries(const SV &v, const DV &d, Rng &r) {
  size_t n = d.size();
  DV got = dense(v, n);
  REQUIRE(got == d, "value", "vector is " << show(got) << " want " << show(d));
  REQUIRE(v.nnz() == nnz(d), "nnz", "nnz " << v.nnz());
  std::vector<size_t> ni; for (size_t i = 0; i < n; i++) if (!d[i].zero()) ni.push_back(i);
  REQUIRE(v.nzinds() == ni, "nzinds", "nzinds");
  auto vals = v.nzvals(); REQUIRE(vals.size() == ni.size(), "nzvals", "nzvals length");
  for (size_t k = 0; k < ni.size(); k++) REQUIRE(toK(vals[k]) == d[ni[k]], "nzvals", "nzvals value");
  auto [ti, tv] = v.nzs(); REQUIRE(ti == ni && tv.size() == ni.size(), "nzs", "nzs");
  for (size_t i = 0; i < n; i++) {
    REQUIRE(toK(v.getval(i)) == d[i], "getval", "getval(" << i << ")");
    REQUIRE(toK(v[i]) == d[i], "index", "[" << i << "]");
    auto lb = v.lower_bound(i); auto w = std::lower_bound(ni.begin(), ni.end(), i);
    REQUIRE((size_t)(lb - v.nzbegin()) == (size_t)(w - ni.begin()), "lower_bound", "lower_bound(" << i << ")");
    auto ub = v.upper_bound(i); auto w2 = std::upper_bound(ni.begin(), ni.end(), i);
    REQUIRE((size_t)(ub - v.nzbegin()) == (size_t)(w2 - ni.begin()), "upper_bound", "upper_bound(" << i << ")");
  }
  if (!ni.empty()) {
    REQUIRE(v.lastnz().ind == ni.back() && toK(v.lastnz().val) == d[ni.back()], "lastnz", "lastnz");
    REQUIRE(v.firstnz().ind == ni[0] && toK(v.firstnz().val) == d[ni[0]], "firstnz", "firstnz");
  }
  // equality with a freshly built equal vector and a different one
  SV e = sparse(d);
  REQUIRE(v == e && !(v != e), "equality", "equal vectors compare unequal");
  if (n) { DV d2 = d; size_t i = r.r(0, n - 1); d2[i] = d2[i] + K(1); REQUIRE(!(v == sparse(d2)) && v != sparse(d2), "equality", "different vectors compare equal"); }
  size_t i0 = n ? r.r(0, n) : 0, i1 = i0 + r.r(0, n - i0);
  DV bd(d.begin() + i0, d.begin() + i1);
  REQUIRE(dense(v.block(i0, i1), i1 - i0, "block") == bd, "block", "block [" << i0 << "," << i1 << ")");
  // gather by an increasing index set
  auto sel = r.subset(n, n ? r.r(0, n) : 0); DV g; for (auto i : sel) g.push_back(d[i]);
  REQUIRE(dense(v[sel], sel.size(), "gather") == g, "gather", "v[" << show(sel) << "]");
  // subvector by partial map
  std::vector<size_t> pind(n, bats::NO_IND); auto p = r.perm(sel.size()); for (size_t k = 0; k < sel.size(); k++) pind[sel[k]] = p[k];
  DV sd(sel.size(), K(0)); for (size_t k = 0; k < sel.size(); k++) sd[p[k]] = d[sel[k]];
  REQUIRE(dense(v.subvector(pind), sel.size(), "subvector") == sd, "subvector", "subvector");
}

static void ops_case(Case &C, int nops, size_t lo = 0, size_t hi = 12) {
  Rng &r = C.rng; size_t n = r.r(lo, hi), grow = hi + 18;
  DV d = randV(r, n, density(r)); SV v = sparse(d); std::vector<nzpair<size_t, F>> tmp;
  C.desc << "n=" << n << " start " << show(d);
  queries(v, d, r);
  for (int s = 0; s < nops; s++) {
    size_t n = d.size(); int op = r.r(0, 26); C.desc << " |" << op << ":";
    switch (op) {
    case 0: case 1: case 2: { // axpy with and without scratch space
      K a = randK(r); DV x = randV(r, n, density(r));
      if (r.chance(.3) && n) { x = d; if (r.chance(.5)) a = K(-1); if (r.chance(.5)) x[r.r(0, n - 1)] = randK(r); }
      C.desc << "axpy a=" << a << " x=" << show(x);
      SV sx = sparse(x); if (op == 0) v.axpy(toF(a), sx); else { if (r.chance(.5)) tmp.emplace_back(3, F(1)); v.axpy(toF(a), sx, tmp); }
      for (size_t i = 0; i < n; i++) d[i] = d[i] + a * x[i];
      break; }
    case 3: { // y += a*y
      K a = randK(r); C.desc << "self axpy " << a; v.axpy(toF(a), v, tmp);
      if (!a.zero()) for (auto &x : d) x = x + a * x; break; }
    case 4: case 5: { // ranged
      size_t lo = n ? r.r(0, n) : 0, hi = r.r(0, n); K a = randK(r); DV x = randV(r, n, density(r));
      C.desc << "axpy a=" << a << " x=" << show(x) << "[" << lo << "," << hi << ")";
      v.axpy(toF(a), sparse(x), lo, hi, tmp);
      for (size_t i = lo; i < hi && i < n; i++) d[i] = d[i] + a * x[i];
      break; }
    case 6: { // gathered: y[k] += coeff[k] x[inds[k]], x supported on inds
      size_t m = r.r(n, n + 6); auto inds = r.subset(m, n); DV x(m, K(0)); DV co(n);
      for (auto i : inds) if (r.chance(.5)) x[i] = randK_nz(r);
      std::vector<F> cf; for (auto &c : co) { c = randK_nz(r); cf.push_back(toF(c)); }
      C.desc << "gather axpy x=" << show(x) << " inds=" << show(inds) << " c=" << show(co);
      v.axpy(sparse(x), cf, inds, tmp);
      for (size_t k = 0; k < n; k++) d[k] = d[k] + co[k] * x[inds[k]];
      break; }
    case 7: { auto p = r.perm(n); C.desc << "permute " << show(p); v.permute(p); DV e(n); for (size_t i = 0; i < n; i++) e[p[i]] = d[i]; d = e; break; }
    case 8: { auto p = r.perm(n); C.desc << "permute,ipermute " << show(p); SV w = v; w.permute(p); w.ipermute(p);
      REQUIRE(dense(w, n) == d, "ipermute", "permute then inverse permute gives " << show(dense(w, n)) << " want " << show(d) << " perm " << show(p));
      break; }
    case 9: { size_t i0 = n ? r.r(0, n) : 0, i1 = i0 + r.r(0, n - i0); DV b = randV(r, i1 - i0, density(r)); C.desc << "set_block " << i0 << "," << i1 << " " << show(b);
      v.set_block(i0, i1, sparse(b)); for (size_t k = 0; k < b.size(); k++) d[i0 + k] = b[k]; break; }
    case 10: { C.desc << "J"; if (n && r.chance(.4)) v.reverse_inds(n - 1); else v.J(n); std::reverse(d.begin(), d.end()); break; }
    case 11: { if (!n) break; size_t i = r.r(0, n - 1), j = r.r(0, n - 1); C.desc << "swap_rows " << i << "," << j; v.swap_rows(i, j); std::swap(d[i], d[j]); break; }
    case 12: { if (!n) break; size_t i = r.r(0, n - 1); K c = randK(r); C.desc << "scale entry " << i << " by " << c; v.scale_inplace(i, toF(c)); d[i] = c * d[i]; break; }
    case 13: { K c = randK(r); C.desc << "scale by " << c; if (r.chance(.5)) v.scale_inplace(toF(c)); else v = v.scale(toF(c)); for (auto &x : d) x = c * x; break; }
    case 14: { std::vector<F> cf; C.desc << "scale entries"; for (auto &x : d) { K c = randK_nz(r); C.desc << " " << c; cf.push_back(toF(c)); x = x * c; } v.scale_inplace(cf); break; }
    case 15: { if (!n) break; C.desc << "erase last row"; v.erase_last_row_of_matrix(n - 1); d.pop_back(); break; }
    case 16: { if (!n) break; size_t m = r.r(0, n - 1); C.desc << "erase rows after " << m; v.erase_rows_after(m); d.resize(m + 1); break; }
    case 17: { size_t m = r.r(0, n); C.desc << "erase first " << m; v.erase_initial_rows(m); d.erase(d.begin(), d.begin() + m); break; }
    case 18: { size_t m = r.r(0, n); if (!n) break; C.desc << "erase last " << m; v.erase_last_rows_of_matrix(n - 1, m); d.resize(n - m); break; }
    case 19: { if (!n) break; size_t i = r.r(0, n - 1); C.desc << "erase row " << i; v.erase_for_matrix(i); d.erase(d.begin() + i); break; }
    case 20: { if (n < 2) break; size_t i = r.r(0, n - 1), j = r.r(0, n - 1); if (i == j) break; K a = randK(r), b = randK(r), c = randK(r), e = randK(r);
      C.desc << "mix " << i << "," << j << " [" << a << " " << b << ";" << c << " " << e << "]";
      v.mix_rows(i, j, toF(a), toF(b), toF(c), toF(e)); K vi = d[i], vj = d[j]; d[i] = a * vi + b * vj; d[j] = c * vi + e * vj; break; }
    case 21: case 22: { // insert rows at final positions
      if (n > grow) break; size_t m = r.r(0, 5); auto pos = r.subset(n + m, m); C.desc << "insert rows " << show(pos); DV e(n + m, K(0)); std::vector<F> vals; size_t q = 0;
      std::vector<char> isnew(n + m, 0); for (auto p : pos) isnew[p] = 1;
      for (size_t i = 0; i < n + m; i++) if (!isnew[i]) e[i] = d[q++];
      if (op == 21) { // allocate the index list tightly so that over-reads are seen
        std::vector<size_t> tight(pos); tight.shrink_to_fit(); v.insert_rows(tight);
      } else { C.desc << " with"; for (auto p : pos) { K k = randK_nz(r); e[p] = k; C.desc << " " << k; vals.push_back(toF(k)); } std::vector<size_t> tight(pos); tight.shrink_to_fit(); v.insert_rows(tight, vals); }
      d = e; break; }
    case 23: { DV x = randV(r, n, density(r)); C.desc << "sum/dot " << show(x); SV sx = sparse(x); K dot(0); for (size_t i = 0; i < n; i++) dot = dot + d[i] * x[i];
      REQUIRE(toK(v * sx) == dot, "dot", "inner product"); size_t ci = 0; for (size_t i = 0; i < n; i++) ci += !d[i].zero() && !x[i].zero();
      REQUIRE(v.nnz_intersection(sx) == ci, "nnz_intersection", "nnz_intersection " << v.nnz_intersection(sx) << " want " << ci);
      std::map<F, size_t> ct; v.coeff_intersection(sx, ct); size_t tot = 0; for (auto &kv : ct) { size_t w = 0; for (size_t i = 0; i < n; i++) w += !d[i].zero() && !x[i].zero() && d[i] == toK(kv.first) * x[i]; REQUIRE(w == kv.second, "coeff_intersection", "coeff_intersection"); tot += kv.second; } REQUIRE(tot == ci, "coeff_intersection", "coeff total");
      v = v + sx; for (size_t i = 0; i < n; i++) d[i] = d[i] + x[i]; break; }
    case 24: { K a = randK(r); C.desc << "times " << a; v = v * toF(a); for (auto &x : d) x = x * a; break; }
    case 25: { size_t sh = r.r(0, 3); C.desc << "shift " << sh; if (n > grow) break; v = v.shift_inds(sh); d.insert(d.begin(), sh, K(0)); break; }
    case 26: { std::vector<bool> c(n); C.desc << "clear"; for (size_t i = 0; i < n; i++) { c[i] = r.chance(.4); if (c[i]) { d[i] = K(0); C.desc << " " << i; } } if (r.chance(.5)) v.clear_inds(c); else v.clear_inds(c, tmp); break; }
    }
    queries(v, d, r);
  }
  C.count("operations", nops); C.nontrivial();
}
FAMILY(history, 3000, 120000) { ops_case(C, C.rng.r(1, 10)); }
FAMILY(single_op, 6000, 100000) { ops_case(C, 1); }
FAMILY(long_history, 150, 4000) { bool huge = C.rng.chance(.1); ops_case(C, C.rng.r(3, 12), huge ? 500 : 25, huge ? 1500 : 300); }

FAMILY(kron, 800, 20000) {
  Rng &r = C.rng; size_t n = r.r(0, 6), m = r.r(0, 6); DV a = randV(r, n, density(r)), b = randV(r, m, density(r));
  C.desc << show(a) << " x " << show(b); C.nontrivial();
  DV w; for (auto &x : a) for (auto &y : b) w.push_back(x * y);
  REQUIRE(dense(sparse(a).kron(sparse(b), m), n * m, "kron") == w, "kron", "kron");
  REQUIRE(dense(sparse(a).tensor(sparse(b), m), n * m, "tensor") == w, "kron", "tensor");
}
FAMILY(find_last, 800, 20000) {
  Rng &r = C.rng; size_t n = r.r(1, 10); DV d = randV(r, n, density(r)); SV v = sparse(d); size_t i = r.r(0, n); C.desc << show(d) << " before " << i; C.nontrivial();
  long want = -1; for (size_t k = 0; k < i; k++) if (!d[k].zero()) want = k;
  auto it = v.find_last_nz(i); const SV &cv = v;
  if (want < 0) REQUIRE(it == cv.nzend(), "find_last_nz", "no entry below " << i << " but not the end");
  else REQUIRE(it != cv.nzend() && (long)it->ind == want, "find_last_nz", "want " << want);
}
// vectors built from integer data: entries that vanish in the field must not be stored
FAMILY(construct, 1500, 30000) {
  Rng &r = C.rng; size_t n = r.r(0, 9); std::vector<size_t> ind; std::vector<int> val; DV d(n, K(0)); std::vector<std::tuple<size_t, int>> tup;
  for (size_t i = 0; i < n; i++) if (r.chance(.6)) { int x = r.r(-7, 7); if (!x) x = 3; ind.push_back(i); val.push_back(x); d[i] = K(x); tup.emplace_back(i, x); }
  C.desc << "ints " << show(ind) << " " << show(val); C.nontrivial();
  SparseVector<int, size_t> vi(ind, val); SV a(vi); r.shuffle(tup); SV b(tup); SV c(ind.begin(), val.begin(), ind.size());
  REQUIRE(dense(a, n, "from int vector") == d, "construct", "cast"); REQUIRE(dense(b, n, "from tuples") == d, "construct", "tuples"); REQUIRE(dense(c, n, "from iterators") == d, "construct", "iterators");
  SV e = vi.cast_values(F()); REQUIRE(dense(e, n, "cast_values") == d, "construct", "cast_values");
  if (n) { size_t i = r.r(0, n - 1); DV u(n, K(0)); u[i] = K(1); REQUIRE(dense(SV(i), n) == u, "construct", "indicator"); K k = randK_nz(r); u[i] = k; REQUIRE(dense(SV(i, toF(k)), n) == u, "construct", "indicator"); }
  K k = randK_nz(r); REQUIRE(dense(SV::dense(toF(k), n), n) == DV(n, k), "construct", "dense");
  std::default_random_engine g(r.next()); SV w = SV::random(n, r.u01(), r.r(1, 6), g); canonical(w, n, "random");
}

typedef SetVector<F, size_t> TV;
FAMILY(set_vector, 3000, 60000) {
  Rng &r = C.rng; size_t n = r.r(1, 10); auto mk = [&](const DV &d) { SV s = sparse(d); return TV(s.nzinds(), s.nzvals()); };
  DV d = randV(r, n, density(r)); TV v = mk(d); C.desc << "set vector " << show(d);
  int nops = r.r(1, 6);
  for (int s = 0; s < nops; s++) {
    K a = randK(r); DV x = randV(r, n, density(r));
    switch (r.r(0, 4)) {
    case 0: C.desc << " |axpy " << a << " " << show(x); if (r.chance(.5)) v.axpy(toF(a), sparse(x)); else v.axpy(toF(a), mk(x)); for (size_t i = 0; i < n; i++) d[i] = d[i] + a * x[i]; break;
    case 1: { size_t lo = r.r(0, n), hi = r.r(0, n); C.desc << " |axpy " << a << " " << show(x) << "[" << lo << "," << hi << ")"; if (r.chance(.5)) v.axpy(toF(a), sparse(x), lo, hi); else v.axpy(toF(a), mk(x), lo, hi); for (size_t i = lo; i < hi; i++) d[i] = d[i] + a * x[i]; break; }
    case 2: { size_t i = r.r(0, n - 1); K k = randK_nz(r); C.desc << " |set " << i << "," << k; v.set(i, toF(k)); d[i] = k; break; }
    case 3: { auto p = r.perm(n); C.desc << " |permute " << show(p); v.permute(p); DV e(n); for (size_t i = 0; i < n; i++) e[p[i]] = d[i]; d = e; break; }
    case 4: { C.desc << " |replace"; if (v.nnz()) { auto it = v.nzbegin(); size_t i = it->ind; K k = randK_nz(r); v.replace(it, toF(k)); d[i] = k; } break; }
    }
    REQUIRE(dense(v, n) == d, "set-value", "set vector is " << show(dense(v, n)) << " want " << show(d));
    for (size_t i = 0; i < n; i++) REQUIRE(toK(v.get(i)) == d[i], "set-get", "get " << i);
    if (nnz(d)) { size_t l = 0; for (size_t i = 0; i < n; i++) if (!d[i].zero()) l = i; REQUIRE(v.lastnz().ind == l, "set-lastnz", "lastnz"); }
    REQUIRE(v == mk(d) && v == sparse(d), "set-eq", "==");
  }
  C.nontrivial();
}
