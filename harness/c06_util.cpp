// C06: permutations, sorted sequences, sets, tries, simplex helpers.
#include <bats.hpp>
#include "common.hpp"
using namespace vh;
using namespace bats::util;
typedef std::vector<size_t> Vs;

static std::vector<int> randv(Rng &r, size_t n, int lim) { std::vector<int> v(n); for (auto &x : v) x = r.r(-lim, lim); return v; }
static bool is_perm(const Vs &p, size_t n) { if (p.size() != n) return false; std::vector<char> s(n, 0); for (auto x : p) { if (x >= n || s[x]) return false; s[x] = 1; } return true; }
static size_t inversions(const Vs &p) { size_t c = 0; for (size_t i = 0; i < p.size(); i++) for (size_t j = i + 1; j < p.size(); j++) c += p[i] > p[j]; return c; }

FAMILY(perm, 8000, 120000) {
  Rng &r = C.rng; size_t n = r.chance(.1) ? r.r(0, 1) : r.r(2, r.chance(.1) ? r.chance(.05) ? 700 : 60 : 12); auto p = r.perm(n), q = r.perm(n); auto d = randv(r, n, 5);
  C.desc << "p=" << show(p) << " q=" << show(q) << " d=" << show(d); if (n > 1) C.nontrivial();
  Vs ip = inv_perm(p); for (size_t i = 0; i < n; i++) REQUIRE(ip[p[i]] == i && p[ip[i]] == i, "inv_perm", "inverse " << show(ip));
  { auto x = d; apply_perm(x, p); for (size_t i = 0; i < n; i++) REQUIRE(x[i] == d[p[i]], "apply_perm", show(x)); apply_perm(x, ip); REQUIRE(x == d, "apply-inverse", "apply then inverse is not the identity: " << show(x)); }
  { auto x = d; std::vector<int> tmp(r.r(0, 3)); apply_perm(x.data(), tmp, p); for (size_t i = 0; i < n; i++) REQUIRE(x[i] == d[p[i]], "apply_perm-tmp", show(x)); }
  { auto x = d; apply_perm_swap(x, p); for (size_t i = 0; i < n; i++) REQUIRE(x[p[i]] == d[i], "apply_perm_swap", show(x)); apply_iperm_swap(x, p); REQUIRE(x == d, "swap-inverse", "swap then inverse swap is not the identity: " << show(x)); }
  { auto x = d; apply_iperm_swap(x, p); for (size_t i = 0; i < n; i++) REQUIRE(x[i] == d[p[i]], "apply_iperm_swap", show(x)); }
  { // applying q after p is one application of the composite
    auto x = d, y = d; apply_perm(x, p); apply_perm(x, q); Vs pq(n); for (size_t i = 0; i < n; i++) pq[i] = p[q[i]]; apply_perm(y, pq); REQUIRE(x == y, "compose", show(x)); }
  REQUIRE(perm_inversions(p) == inversions(p), "perm_inversions", "inversions"); REQUIRE(perm_sign(p) == (inversions(p) % 2 ? -1 : 1), "perm_sign", "sign");
  { // sign is multiplicative
    Vs pq(n); for (size_t i = 0; i < n; i++) pq[i] = p[q[i]]; REQUIRE(perm_sign(pq) == perm_sign(p) * perm_sign(q), "perm_sign", "sign of a product"); }
  REQUIRE(bats::Kendall_tau(p) == inversions(p), "kendall", "Kendall tau " << bats::Kendall_tau(p) << " want " << inversions(p));
  { size_t w = 0; Vs iq = inv_perm(q); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) w += (ip[i] < ip[j]) != (iq[i] < iq[j]); REQUIRE(bats::Kendall_tau(p, q) == w, "kendall2", "Kendall tau of two " << bats::Kendall_tau(p, q) << " want " << w); REQUIRE(bats::Kendall_tau(p, p) == 0, "kendall2", "distance to itself"); }
  { std::vector<Vs> ps{p, q, bats::identity_perm(n)}; auto k = bats::Kendall_tau(ps); REQUIRE((k == Vs{inversions(p), inversions(q), 0}), "kendall-list", show(k)); }
  { auto id = bats::identity_perm(n); for (size_t i = 0; i < n; i++) REQUIRE(id[i] == i, "identity_perm", "identity"); }
  { auto rp = rand_perm(n); REQUIRE(is_perm(rp, n), "rand_perm", show(rp)); }
  { size_t L = n + r.r(0, 4); auto e = bats::extension_perm(p, L); REQUIRE(is_perm(e, L), "extension_perm", show(e)); for (size_t i = 0; i < L; i++) REQUIRE(e[i] == (i < n ? p[i] : i), "extension_perm", show(e)); }
  if (n) { size_t k = r.r(0, n - 1); auto e = bats::perm_to_the_end(k, n); REQUIRE(is_perm(e, n) && e.back() == k && std::is_sorted(e.begin(), e.end() - 1), "perm_to_the_end", show(e)); }
  { auto s = r.subset(n, n ? r.r(0, n) : 0); auto e = bats::perm_to_the_end(s, n); REQUIRE(is_perm(e, n) && std::is_sorted(e.begin(), e.end() - s.size()) && Vs(e.end() - s.size(), e.end()) == s, "perm_to_the_end-list", show(s) << " -> " << show(e)); }
  { // partial permutations
    auto s = r.subset(n, n ? r.r(0, n) : 0); r.shuffle(s); auto pp = partial_perm(s, n); REQUIRE(pp.size() == n, "partial_perm", "size"); std::vector<char> in(n, 0); for (size_t k = 0; k < s.size(); k++) { REQUIRE(pp[s[k]] == k, "partial_perm", show(s)); in[s[k]] = 1; } for (size_t i = 0; i < n; i++) if (!in[i]) REQUIRE(pp[i] == bats::NO_IND, "partial_perm", "missing index " << i);
    auto t = s; sort_ind_by_perm(t, p); auto w = s; std::sort(w.begin(), w.end(), [&](size_t a, size_t b) { return p[a] < p[b]; }); REQUIRE(t == w, "sort_ind_by_perm", show(t));
    Vs ip2; fill_partial_sortperm(s, p, ip2); REQUIRE(is_perm(ip2, s.size()), "fill_partial_sortperm", show(ip2)); for (size_t k = 0; k < s.size(); k++) REQUIRE(s[ip2[k]] == w[k], "fill_partial_sortperm", show(ip2));
    auto a = s; Vs b(s.size()); for (size_t k = 0; k < s.size(); k++) b[k] = 100 + s[k]; sort_ind_pair_by_perm(a, b, p); REQUIRE(a == w, "sort_ind_pair", show(a)); for (size_t k = 0; k < s.size(); k++) REQUIRE(b[k] == 100 + a[k], "sort_ind_pair", show(b)); }
}
FAMILY(sortperm, 8000, 120000) {
  Rng &r = C.rng; size_t n = r.chance(.1) ? r.r(0, 1) : r.r(2, r.chance(.15) ? r.chance(.05) ? 1500 : 80 : 12); auto d = randv(r, n, r.chance(.5) ? 2 : 50);
  C.desc << "d=" << show(d); if (n > 1) C.nontrivial();
  auto sorts = [&](const Vs &p, const char *what) { REQUIRE(is_perm(p, n), std::string("sortperm:") + what, what << " is not a permutation " << show(p)); for (size_t i = 1; i < n; i++) REQUIRE(!(d[p[i]] < d[p[i - 1]]), std::string("sortperm:") + what, what << " does not sort: " << show(p)); };
  auto stable = [&](const Vs &p, const char *what) { sorts(p, what); for (size_t i = 1; i < n; i++) REQUIRE(d[p[i]] != d[p[i - 1]] || p[i - 1] < p[i], std::string("stable:") + what, what << " is not stable " << show(p)); };
  sorts(sortperm(d), "sortperm"); sorts(sortperm(d.begin(), d.end()), "sortperm-range"); sorts(sortperm(d.begin(), d.end(), std::less<int>()), "sortperm-comp");
  { Vs p(r.r(0, 3)); fill_sortperm(d, p); sorts(p, "fill_sortperm"); fill_sortperm(d.begin(), d.end(), p); sorts(p, "fill_sortperm-range"); }
  { size_t o = r.r(0, 3); auto p = sortperm(o, n + o, [&](size_t a, size_t b) { return d[a - o] < d[b - o]; }); sorts(p, "sortperm-index"); }
  { auto p = sortperm(d.begin(), d.end(), std::greater<int>()); REQUIRE(is_perm(p, n), "sortperm-desc", "not a permutation"); for (size_t i = 1; i < n; i++) REQUIRE(d[p[i]] <= d[p[i - 1]], "sortperm-desc", show(p)); }
  stable(stable_sortperm(d), "stable_sortperm"); stable(bats::sort_indexes(d), "sort_indexes");
  { auto p = bats::find_perm_from_vector(d); stable(inv_perm(p), "find_perm_from_vector"); }
  auto w = d; std::sort(w.begin(), w.end());
  { size_t k = r.r(0, n); auto f = firstk(d.begin(), d.end(), k); REQUIRE(f.size() == k && std::set<size_t>(f.begin(), f.end()).size() == k, "firstk", show(f)); for (size_t i = 0; i < k; i++) REQUIRE(f[i] < n && d[f[i]] == w[i], "firstk", "k=" << k << " " << show(f));
    auto t = top_k(d, k); REQUIRE(t.size() == k && std::set<size_t>(t.begin(), t.end()).size() == k, "top_k", show(t)); std::vector<int> v; for (auto i : t) v.push_back(d[i]); std::sort(v.begin(), v.end()); REQUIRE(std::equal(v.begin(), v.end(), w.begin()), "top_k", "k=" << k << " " << show(t)); }
  { double pr = r.r(0, 8) / 8.0; auto t = top_p(d, pr); size_t k = (size_t)std::round(n * pr); REQUIRE(t.size() == k, "top_p", "p=" << pr << " returns " << t.size()); std::vector<int> v; for (auto i : t) v.push_back(d[i]); std::sort(v.begin(), v.end()); REQUIRE(std::equal(v.begin(), v.end(), w.begin()), "top_p", show(t)); }
}
template <class CT> static CT mk(const std::vector<int> &v) { return CT(v.begin(), v.end()); }
FAMILY(sorted, 10000, 150000) {
  Rng &r = C.rng; bool big = r.chance(.02); int lim = big ? 400 : r.chance(.5) ? 6 : 25; auto gen = [&]() { std::set<int> s; int k = r.chance(.12) ? 0 : r.r(1, big ? 300 : 9); for (int i = 0; i < k; i++) s.insert(r.r(-lim, lim)); return std::vector<int>(s.begin(), s.end()); };
  auto a = gen(), b = gen(); int mx = r.r(-lim - 2, lim + 2);
  C.desc << "a=" << show(a) << " b=" << show(b) << " max=" << mx; if (a.size() + b.size()) C.nontrivial();
  // exact-size heap copies, so that any read outside is seen
  std::vector<int> w, c{7, 8}, lt; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(w)); for (auto x : w) if (x < mx) lt.push_back(x);
  intersect_sorted(a, b, c); REQUIRE(c == w, "intersect_sorted", show(c) << " want " << show(w));
  { std::set<int> sc{5}; intersect_sorted(a, b, sc); REQUIRE(mk<std::vector<int>>(std::vector<int>(sc.begin(), sc.end())) == w, "intersect_sorted-set", show(sc)); }
  { auto sa = mk<std::set<int>>(a); intersect_sorted(sa, b, c); REQUIRE(c == w, "intersect_sorted-mixed", show(c)); REQUIRE(has_intersect_sorted(sa, b) == !w.empty(), "has_intersect_sorted", "mixed"); intersect_sorted_lt(sa, b, mx, c); REQUIRE(c == lt, "intersect_sorted_lt-mixed", show(c)); }
  REQUIRE(has_intersect_sorted(a, b) == !w.empty(), "has_intersect_sorted", "has_intersect");
  intersect_sorted_lt(a, b, mx, c); REQUIRE(c == lt, "intersect_sorted_lt", show(c) << " want " << show(lt));
  REQUIRE(has_intersect_sorted_lt(a, b, mx) == !lt.empty(), "has_intersect_sorted_lt", "has_intersect_lt");
  { // no smaller element: NO_IND, otherwise the position of the last smaller element
    auto ex = a; ex.shrink_to_fit(); size_t g = find_sorted_lt(ex.cbegin(), ex.cend(), mx); size_t k = std::lower_bound(a.begin(), a.end(), mx) - a.begin(); REQUIRE(g == (k ? k - 1 : bats::NO_IND), "find_sorted_lt", "find_sorted_lt gives " << g << " want " << (k ? (long)k - 1 : -1)); }
  { std::vector<size_t> ua, ub; for (auto x : a) ua.push_back(x + lim + 5); for (auto x : b) ub.push_back(x + lim + 5); std::set<size_t> un(ua.begin(), ua.end()), in; un.insert(ub.begin(), ub.end()); for (auto x : w) in.insert(x + lim + 5);
    REQUIRE(set_union(ua, ub) == un, "set_union", show(set_union(ua, ub))); REQUIRE(set_intersection(ua, ub) == in, "set_intersection", show(set_intersection(ua, ub))); REQUIRE(to_set(ua) == std::set<size_t>(ua.begin(), ua.end()), "to_set", "to_set");
    size_t n = 2 * lim + 6 + r.r(0, 3); std::vector<size_t> cw; for (size_t i = 0; i < n; i++) if (!std::binary_search(ua.begin(), ua.end(), i)) cw.push_back(i); REQUIRE(sorted_complement(ua, n) == cw, "sorted_complement", show(sorted_complement(ua, n))); }
  { auto s = a; r.shuffle(s); std::vector<int> y(r.r(0, 12)); auto s0 = s; sort_into(s, y); REQUIRE(y == a && s == s0, "sort_into", show(y)); }
  { size_t n = r.r(1, big ? 500 : 20), k = r.r(0, n); auto s = random_subset(n, k); REQUIRE(s.size() == k && (s.empty() || *s.rbegin() < n), "random_subset", show(s)); }
  { // sum-reduce the tail of a list of (index, value)
    size_t off = r.r(0, 3), k = r.r(0, big ? 400 : 10); std::vector<size_t> ind(off + k); std::vector<int> val(off + k); for (auto &x : ind) x = r.r(0, big ? 200 : 4); for (auto &x : val) x = r.r(-2, 2);
    auto i0 = ind; auto v0 = val; std::map<size_t, int> m; for (size_t t = off; t < ind.size(); t++) m[ind[t]] += val[t];
    std::vector<size_t> wi(ind.begin(), ind.begin() + off); std::vector<int> wv(val.begin(), val.begin() + off); for (auto &kv : m) if (kv.second) { wi.push_back(kv.first); wv.push_back(kv.second); }
    Vs pm, t1; std::vector<int> t2; ind.shrink_to_fit(); val.shrink_to_fit(); sort_sum_reduce(ind, val, off, pm, t1, t2);
    REQUIRE(ind == wi && val == wv, "sort_sum_reduce", "offset " << off << " of " << show(i0) << show(v0) << " gives " << show(ind) << show(val)); }
}
FAMILY(trie, 4000, 60000) {
  Rng &r = C.rng; typedef bats::SparseTrie<size_t, size_t> Tr; typedef std::map<Vs, size_t> Mo;
  std::vector<Tr> t(3); std::vector<Mo> m(3); bool big = r.chance(.05); int steps = r.r(1, big ? 120 : 25); size_t mul = big ? r.chance(.5) ? 70000 : size_t(1) << 33 : 1;
  auto key = [&]() { Vs k(r.r(0, big ? 9 : 4)); for (auto &x : k) x = r.r(0, 3) * mul; return k; };
  auto is_prefix = [&](const Mo &mo, const Vs &k) { for (auto &kv : mo) if (kv.first.size() > k.size() && std::equal(k.begin(), k.end(), kv.first.begin())) return true; return false; };
  for (int s = 0; s < steps; s++) {
    int i = r.r(0, 2), j = r.r(0, 2); switch (r.r(0, 8)) {
    case 0: case 1: case 2: case 3: { Vs k = key(); size_t v = r.r(1, 99); C.desc << "|t" << i << show(k) << "=" << v; if (r.chance(.5)) t[i].insert(k.cbegin(), k.cend(), v); else { if (r.chance(.5)) t[i].emplace(k, v); else t[i].emplace(k, size_t(v)); } m[i][k] = v; break; }
    case 4: C.desc << "|t" << i << ":=t" << j; t[i] = t[j]; m[i] = m[j]; break;
    case 5: { C.desc << "|t" << i << ":=move(t" << j << ")"; if (i == j) { Tr &self = t[j]; t[i] = std::move(self); } else { t[i] = std::move(t[j]); m[i] = m[j]; t[j] = Tr(); m[j].clear(); } break; }
    case 6: { C.desc << "|copy t" << i; Tr c(t[i]); Vs k = key(); c.emplace(k, size_t(77)); t[j] = c; Mo mm = m[i]; mm[k] = 77; m[j] = mm; break; }
    case 7: { C.desc << "|move-construct t" << i; Tr c(std::move(t[i])); t[i] = Tr(); t[i] = std::move(c); break; }
    case 8: C.desc << "|clear t" << i; t[i] = Tr(); m[i].clear(); break;
    }
    for (int a = 0; a < 3; a++) {
      const Tr &ct = t[a];
      for (auto &kv : m[a]) { REQUIRE(ct.get(kv.first, 1000) == kv.second && t[a].get(kv.first, 1000) == kv.second && t[a][kv.first] == kv.second && t[a].get(kv.first.cbegin(), kv.first.cend()) == kv.second, "trie-get", "key " << show(kv.first) << " of t" << a); REQUIRE(t[a].count(kv.first) == 1, "trie-count", "count of a member"); }
      for (int q = 0; q < 4; q++) { Vs k = key(); if (m[a].count(k) || k.empty() || is_prefix(m[a], k)) continue; REQUIRE(ct.get(k, 1000) == 1000 && t[a].get(k, 1000) == 1000, "trie-get-missing", "absent key " << show(k)); REQUIRE(t[a].count(k) == 0, "trie-count", "count of an absent key"); }
    }
  }
  C.nontrivial();
}
FAMILY(simplex, 5000, 60000) {
  Rng &r = C.rng; bool big = r.chance(.05); size_t n = r.r(0, big ? 24 : 6), mul = !big ? 1 : r.chance(.5) ? 70000 : size_t(1) << 33; Vs s(n); for (auto &x : s) x = r.r(0, big ? 99 : 9) * mul;
  C.desc << show(s); if (n) C.nontrivial(); auto w = s; std::sort(w.begin(), w.end()); bool deg = std::adjacent_find(w.begin(), w.end()) != w.end();
  REQUIRE(is_degenerate(w) == deg, "is_degenerate", show(w)); auto t = s; int sg = simplex_sign(t); REQUIRE(t == w, "simplex_sign-sorts", show(t)); REQUIRE(sg == (deg ? 0 : inversions(s) % 2 ? -1 : 1), "simplex_sign", "sign " << sg);
  { std::stringstream o; write_simplex(o, s); std::string line; std::getline(o, line); Vs u{1}; read_simplex(line, u); REQUIRE(u == s, "simplex-io", "'" << line << "' reads " << show(u)); }
  { std::stringstream o; write_simplex(o, s.begin(), s.end()); std::string line; std::getline(o, line); Vs u; read_simplex(line, u); REQUIRE(u == s, "simplex-io", "'" << line << "' reads " << show(u)); }
  { SimplexHasher h; auto u = s; REQUIRE(h(u) == h(s), "hash", "equal simplices hash differently"); }
  if (n) { SimplexContainer sc(n - 1); REQUIRE(sc.dim() == n - 1 && sc.size() == 0, "container", "new container"); int k = r.r(1, 4); for (int i = 0; i < k; i++) { auto u = s; sc.emplace_back(u); } REQUIRE((int)sc.size() == k, "container", "size " << sc.size()); bool th = false; Vs bad(n + 1); try { sc.emplace_back(bad); } catch (...) { th = true; } REQUIRE(th && (int)sc.size() == k, "container", "wrong simplex size accepted"); }
}
