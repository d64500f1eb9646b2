// C07: simplicial complexes against a closed-set model.
#include "bridge.hpp"
#include "spaces.hpp"
using namespace vh; using sp::Sx;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t> LC;
template <class X> std::vector<DM> bounds(const X &x) { std::vector<DM> D; D.push_back(DM(0, x.ncells(0))); for (size_t k = 1; k <= x.maxdim(); k++) D.push_back(dense_csc(x.boundary_csc(k))); return D; }
// order[k] = the model's list of simplices of dimension k in the library's numbering
template <class X> void same(Case &C, const X &x, const std::vector<std::vector<Sx>> &order, const std::string &w) {
  size_t tot = 0; for (size_t k = 0; k <= x.maxdim(); k++) { size_t n = k < order.size() ? order[k].size() : 0; tot += n; REQUIRE(x.ncells(k) == n, "ncells", w << ": " << x.ncells(k) << " cells of dimension " << k << ", expected " << n); }
  for (size_t k = x.maxdim() + 1; k < order.size(); k++) REQUIRE(order[k].empty(), "maxdim", w << ": maxdim " << x.maxdim());
  REQUIRE(x.ncells() == tot, "ncells-total", w << ": " << x.ncells() << " vs " << tot);
  std::vector<Sx> flat;
  for (size_t k = 0; k < order.size(); k++) {
    if (k <= x.maxdim()) REQUIRE(x.get_simplices(k) == order[k], "get_simplices", w << " dimension " << k << ": " << show2(x.get_simplices(k)) << " vs " << show2(order[k]));
    for (size_t i = 0; i < order[k].size(); i++) { flat.push_back(order[k][i]);
      REQUIRE(x.get_simplex(k, i) == order[k][i] && x.get_cell(k, i) == order[k][i], "get_simplex", w << " " << k << "," << i << ": " << show(x.get_simplex(k, i)) << " vs " << show(order[k][i]));
      Sx s{7, 7, 7, 7, 7, 7, 7}; x.get_simplex(k, i, s); REQUIRE(s == order[k][i], "get_simplex-into", w << " " << show(s)); s = {9, 9}; x.get_cell(k, i, s); REQUIRE(s == order[k][i], "get_cell-into", w << " " << show(s));
      REQUIRE(x.find_idx(order[k][i]) == i, "find", w << ": " << show(order[k][i]) << " found at " << x.find_idx(order[k][i]) << ", is " << i); }
  }
  REQUIRE(x.get_simplices() == flat, "get_simplices-all", w);
  for (size_t k = 1; k <= x.maxdim(); k++) {
    auto B = x.boundary_csc(k); REQUIRE(B.nrow() == x.ncells(k - 1) && B.ncol() == x.ncells(k), "boundary-shape", w << " dimension " << k); size_t n = x.ncells(k); if (!n) continue;
    auto want = sp::bd(order[k - 1], order[k]); std::vector<std::vector<int>> got(order[k - 1].size(), std::vector<int>(n, 0));
    for (size_t j = 0; j < n; j++) { size_t prev = 0; bool first = true; for (size_t p = B.get_colptr()[j]; p < B.get_colptr()[j + 1]; p++) { size_t i = B.get_rowind()[p]; REQUIRE(i < got.size(), "boundary-index", w << " row " << i); REQUIRE(first || i > prev, "boundary-order", w << " dimension " << k << " column " << j << " rows not increasing"); first = false; prev = i; got[i][j] += B.get_val()[p]; } }
    auto neg = want; for (auto &r : neg) for (auto &v : r) v = -v;    // the overall sign of a dimension is a convention
    REQUIRE(got == want || got == neg, "boundary", w << " dimension " << k << ": " << show2(got) << " vs +-" << show2(want));
    for (size_t j = 0; j < n; j++) { auto [ind, val] = x.boundary(k, j); std::map<size_t, int> m; for (size_t t = 0; t < ind.size(); t++) { REQUIRE(t == 0 || ind[t] > ind[t - 1], "boundary-single", w << " indices not increasing"); m[ind[t]] += val[t]; } for (size_t i = 0; i < got.size(); i++) REQUIRE(m[i] == got[i][j] , "boundary-single", w << " dimension " << k << " simplex " << j << " disagrees with the matrix"); }
  }
  auto D = bounds(x); for (size_t k = 2; k < D.size(); k++) REQUIRE((D[k - 1] * D[k]).zero(), "bd-squared", w << " dimension " << k);
  bats::ChainComplex<CM> CC(x); REQUIRE(CC.maxdim() == x.maxdim() && CC.is_valid_complex(), "chain-valid", w); for (size_t k = 1; k <= x.maxdim(); k++) REQUIRE(dense(CC[k]) == D[k], "chain-matrix", w << " dimension " << k);
  for (size_t k = 0; k <= x.maxdim(); k++) REQUIRE(CC.dim(k) == x.ncells(k), "chain-dim", w);
  C.count("complexes_checked");
}
struct Model { std::vector<std::vector<Sx>> order; std::map<Sx, size_t> ix;
  bool has(const Sx &s) const { return ix.count(s); }
  size_t put(const Sx &s) { size_t d = s.size() - 1; if (order.size() <= d) order.resize(d + 1); ix[s] = order[d].size(); order[d].push_back(s); return ix[s]; }
  bool ready(const Sx &s) const { for (auto &f : sp::facets_of(s)) if (!has(f)) return false; return true; }
  void closure(const Sx &s, std::set<Sx> &miss) const { if (has(s) || !miss.insert(s).second) return; for (auto &f : sp::facets_of(s)) closure(f, miss); } };
// add the reported new cells to the model, checking that they are exactly the missing faces
template <class X> void take_new(Model &m, const X &x, const Sx &s, const std::vector<cell_ind> &ci, const std::string &w) {
  std::set<Sx> miss; m.closure(s, miss); std::vector<size_t> base; for (auto &o : m.order) base.push_back(o.size());
  REQUIRE(ci.size() == miss.size(), "recursive-cells", w << ": " << ci.size() << " new cells reported, " << miss.size() << " missing");
  std::map<std::pair<size_t, size_t>, Sx> got;
  for (auto &c : ci) { Sx t = x.get_simplex(c.dim, c.ind); REQUIRE(miss.count(t), "recursive-cells", w << ": " << show(t) << " reported new"); got[{c.dim, c.ind}] = t; miss.erase(t); }
  REQUIRE(miss.empty(), "recursive-cells", w << ": missing cells"); REQUIRE(ci.empty() || x.get_simplex(ci.back().dim, ci.back().ind) == s, "recursive-last", w << ": last reported cell is not the simplex");
  for (auto &g : got) { size_t i = m.put(g.second); REQUIRE(i == g.first.second, "numbering", w << ": " << show(g.second) << " numbered " << g.first.second << ", expected " << i); }
}
static Sx rand_simplex(Rng &r, size_t nv, size_t maxd) { size_t d = std::min<size_t>(r.r(0, maxd), nv - 1); return r.subset(nv, d + 1); }
static void probe(Case &C, Rng &r, const Model &m, const std::function<size_t(const Sx &)> &find, size_t nv, const std::string &w) {
  for (int t = 0; t < 12; t++) { Sx s = rand_simplex(r, nv, 5); if (!m.has(s)) { REQUIRE(find(s) == bats::NO_IND, "find-nonmember", w << ": " << show(s) << " found at " << find(s)); C.count("nonmember_probes"); } }
}
// most complexes are small; a few have many cells, or a high dimension
static int sized(Rng &r, size_t &nv, size_t &maxd) { int big = r.chance(.99) ? 0 : r.chance(.6) ? 1 : 2; nv = big == 1 ? r.r(20, 70) : big == 2 ? r.r(8, 9) : r.r(1, 9); maxd = big == 1 ? r.r(1, 2) : big == 2 ? r.r(5, 8) : r.r(0, 4); return big == 1 ? r.r(30, 100) : big == 2 ? r.r(2, 8) : r.r(1, 25); }
FAMILY(trie, 5000, 20000) {
  Rng &r = C.rng; size_t nv, maxd, scale = r.chance(.2) ? 100003 : r.chance(.1) ? size_t(1) << 33 : 1; int steps = sized(r, nv, maxd);
  SC x; switch (r.r(0, 3)) { case 0: x = SC(maxd); break; case 1: x = SC(r.r(0, 9), maxd); break; case 2: { std::vector<size_t> v(r.r(1, 4)); for (auto &a : v) a = r.r(0, 8); x = SC(v); break; } default: break; }
  Model m; C.desc << "nv=" << nv << " ops:";
  for (int t = 0; t < steps; t++) {
    Sx s = rand_simplex(r, nv, maxd); for (auto &v : s) v *= scale; Sx sorted = s; r.shuffle(s); size_t d = s.size() - 1; int op = r.r(0, 3); C.desc << (op == 0 ? " R" : op == 1 ? " D" : op == 2 ? " a" : " A") << show(op == 1 ? sorted : s);
    if (op && d >= 3 && r.chance(d > 4 ? .7 : .2)) { bool past = m.has(sorted); for (auto &f : sp::facets_of(sorted)) if (!past && !m.has(f)) { auto ci = x.add_recursive(f); take_new(m, x, f, ci, "facet"); } }
    if (op == 0) { auto ci = r.chance(.5) ? x.add_recursive(s) : x.add_recursive(Sx(s)); if (m.has(sorted)) { REQUIRE(ci.size() == 1 && ci[0].dim == d && ci[0].ind == m.ix[sorted], "recursive-existing", "existing simplex reported otherwise"); } else take_new(m, x, sorted, ci, "add_recursive"); }
    else if (op == 1 && r.chance(.5)) { auto ci = x.add_directed_recursive(sorted); if (m.has(sorted)) REQUIRE(ci.size() == 1 && ci[0].ind == m.ix[sorted], "recursive-existing", "existing"); else take_new(m, x, sorted, ci, "add_directed_recursive"); }
    else { cell_ind c = op == 1 ? x.add_directed(sorted) : op == 2 ? x.add(s) : x.add(Sx(s)); REQUIRE(c.dim == d, "add-dim", c.dim);
      if (m.has(sorted)) REQUIRE(c.ind == m.ix[sorted], "add-existing", "existing simplex got index " << c.ind);
      else if (!m.ready(sorted)) { REQUIRE(c.ind == bats::NO_IND, "add-missing-face", show(sorted) << " accepted without its faces"); C.count("rejected_missing_face"); }
      else { size_t i = m.put(sorted); REQUIRE(c.ind == i, "add-index", "index " << c.ind << " expected " << i); } }
    if (t % (steps > 25 ? 25 : 6) == 0) same(C, x, m.order, "after step " + std::to_string(t));
  }
  same(C, x, m.order, "trie complex"); probe(C, r, m, [&](const Sx &s) { Sx t = s; for (auto &v : t) v *= scale; const SC &cx = x; return m.has(t) ? bats::NO_IND : std::min(x.find_idx(t), cx.find_idx(t)); }, nv + 2, "trie");
  for (size_t k = 1; k < m.order.size(); k++) for (size_t i = 0; i < m.order[k].size(); i++) { std::set<size_t> fs(x.faces_begin(k, i), x.faces_end(k, i)), want; for (auto &f : sp::facets_of(m.order[k][i])) want.insert(m.ix[f]); REQUIRE(fs == want, "faces", "faces_begin/end"); REQUIRE(Sx(x.simplex_begin(k, i), x.simplex_end(k, i)) == m.order[k][i], "simplex_begin", ""); }
  if (m.ix.size() > 3) C.nontrivial();
}
FAMILY(light, 5000, 20000) {
  Rng &r = C.rng; size_t nv, maxd; int steps = sized(r, nv, maxd); size_t n = nv + r.r(0, 3); if (r.chance(.2) && maxd <= 5) n = 1000; size_t mul = nv > 9 ? 14 : 111; LC x(n, maxd); Model m; C.desc << "n=" << n << " k=" << maxd << " ops:";
  REQUIRE(x.maxdim() == maxd, "maxdim", x.maxdim());
  for (int t = 0; t < steps; t++) {
    Sx s = rand_simplex(r, nv, maxd); if (n == 1000) { for (auto &v : s) v = v * mul; } size_t d = s.size() - 1; int op = r.r(0, 2); C.desc << (op ? " a" : " R") << show(s);
    if (op && d >= 3 && !m.has(s) && r.chance(d > 4 ? .7 : .2)) for (auto &f : sp::facets_of(s)) if (!m.has(f)) { auto ci = x.add_recursive(f); take_new(m, x, f, ci, "light facet"); }
    if (op == 0 || !m.ready(s)) { auto ci = r.chance(.5) ? x.add_recursive(s) : x.add_recursive(d, x.simplex_key(s)); if (m.has(s)) REQUIRE(ci.empty() || (ci.size() == 1 && ci[0].ind == m.ix[s]), "recursive-existing", "existing simplex reported new"); else take_new(m, x, s, ci, "light add_recursive"); }
    else { bool old = m.has(s); cell_ind c = op == 1 ? x.add(s) : old ? x.add(d, x.simplex_key(s)) : r.chance(.5) ? x.add_unsafe(s) : x.add_unsafe(d, x.simplex_key(s)); size_t i = old ? m.ix[s] : m.put(s); REQUIRE(c.dim == d && c.ind == i, "add-index", "index " << c.ind << " expected " << i); }
    REQUIRE(x.key_to_simplex(d, x.simplex_key(s)) == s, "key", show(s) << " key " << x.simplex_key(s)); REQUIRE(x.max_vertex(x.simplex_key(s), d) == s.back(), "max_vertex", show(s));
    if (t % (steps > 25 ? 25 : 6) == 0) same(C, x, m.order, "light after step " + std::to_string(t));
  }
  same(C, x, m.order, "light complex"); probe(C, r, m, [&](const Sx &s) { Sx t = s; if (n == 1000) for (auto &v : t) v *= mul; return m.has(t) ? bats::NO_IND : x.find_idx(t); }, nv + 2, "light");
  if (m.ix.size() > 3) C.nontrivial();
}
// other index types, as wide as the keys need, and other tables: the same complex
template <class X, class I> void narrow(Case &C, size_t n, size_t k, const std::vector<Sx> &seq, const std::vector<bool> &rec, const std::string &w) {
  LC x(n, k); X y(n, k); Rng &r = C.rng; auto cast = [](const Sx &s) { return std::vector<I>(s.begin(), s.end()); }; auto back = [](const std::vector<I> &s) { return Sx(s.begin(), s.end()); };
  for (size_t i = 0; i < seq.size(); i++) { auto s = seq[i]; auto t = cast(s); if (rec[i]) { auto a = x.add_recursive(s); auto b = y.add_recursive(t); REQUIRE(a.size() == b.size(), "narrow-add", w << " " << show(s)); for (size_t j = 0; j < a.size(); j++) REQUIRE(a[j].dim == b[j].dim && a[j].ind == b[j].ind, "narrow-add", w << " " << show(s)); } else { auto a = x.add(s); auto b = y.add(t); REQUIRE(a.dim == b.dim && a.ind == b.ind, "narrow-add", w << " " << show(s)); } REQUIRE((size_t)y.simplex_key(t) == (size_t)x.simplex_key(s) && back(y.key_to_simplex(s.size() - 1, y.simplex_key(t))) == s && (size_t)y.max_vertex(y.simplex_key(t), s.size() - 1) == s.back() && y.find_idx(t) == x.find_idx(s), "narrow-key", w << " " << show(s)); }
  REQUIRE(y.maxdim() == x.maxdim() && y.ncells() == x.ncells(), "narrow-cells", w); std::vector<Sx> all; for (auto &s : y.get_simplices()) all.push_back(back(s)); std::vector<Sx> ref; for (auto &s : x.get_simplices()) ref.push_back(Sx(s.begin(), s.end())); REQUIRE(all == ref, "narrow-simplices", w);
  for (size_t d = 0; d <= x.maxdim(); d++) { auto l = y.get_simplices(d); for (size_t i = 0; i < x.ncells(d); i++) { auto s = x.get_simplex(d, i); std::vector<I> b; y.get_cell(d, i, b = std::vector<I>(d + 1)); REQUIRE(back(y.get_simplex(d, i)) == s && back(l[i]) == s && back(b) == s, "narrow-cell", w << " " << show(s)); if (d) REQUIRE(x.boundary(d, i) == y.boundary(d, i), "narrow-boundary", w << " " << show(s)); } }
  auto D = bounds(x), E = bounds(y); REQUIRE(D.size() == E.size(), "narrow-boundary", w); for (size_t d = 0; d < D.size(); d++) REQUIRE(D[d] == E[d], "narrow-boundary", w << " dimension " << d); auto R = bats::Reduce(bats::Chain(y, F())); auto b = orc::betti(D); for (size_t d = 0; d < b.size(); d++) REQUIRE(R.hdim(d) == b[d], "narrow-betti", w << " dimension " << d); C.count("narrow");
}
FAMILY(index_types, 700, 8000) {
  Rng &r = C.rng; size_t nv = r.r(1, 9), k = r.r(0, 4), n = nv + r.r(0, 3); auto c = sp::random(r, nv, k, r.r(1, 8)); std::vector<Sx> seq; std::vector<bool> rec; if (r.chance(.5)) { seq = sp::random_order(r, c); rec.assign(seq.size(), false); } else for (auto &s : c.maximal()) { seq.push_back(s); rec.push_back(true); } C.desc << "n=" << n << " k=" << k << " " << sp::show(c); if (c.all.size() > 3) C.nontrivial();
  double keys = std::pow((double)(n + 1), (double)(k + 2)); narrow<bats::LightSimplicialComplex<unsigned>, unsigned>(C, n, k, seq, rec, "32 bits"); narrow<bats::LightSimplicialComplex<size_t, std::map<size_t, size_t>>, size_t>(C, n, k, seq, rec, "ordered table"); if (keys < 60000) narrow<bats::LightSimplicialComplex<unsigned short>, unsigned short>(C, n, k, seq, rec, "16 bits"); if (keys < 2e9) narrow<bats::LightSimplicialComplex<int>, int>(C, n, k, seq, rec, "signed");
}
// both representations from one insertion sequence, and set operations
FAMILY(both, 1500, 8000) {
  Rng &r = C.rng; auto a = r.chance(.4) ? sp::random_space(r) : sp::random(r, r.r(1, 8), r.r(0, 3), r.r(1, 8)); auto b = sp::random(r, r.r(1, 8), r.r(0, 3), r.r(1, 8)); C.desc << sp::show(a) << " | " << sp::show(b);
  if (a.all.size() > 3) C.nontrivial();
  auto ord = sp::random_order(r, a); size_t nv = a.nv(), md = a.dim(); SC x; LC y(nv, md); Model m;
  for (auto &s : ord) { auto c = x.add_directed(s); auto e = y.add(s); size_t i = m.put(s); REQUIRE(c.ind == i && e.ind == i && c.dim == e.dim, "both-index", show(s)); }
  same(C, x, m.order, "trie"); same(C, y, m.order, "light");
  auto dx = bounds(x), dy = bounds(y); REQUIRE(orc::betti(dx) == orc::betti(dy), "both-betti", "");
  // maximal simplices only, recursively, in random order
  { SC u; LC v(nv, md); auto mx = a.maximal(); r.shuffle(mx); for (auto &s : mx) { u.add_recursive(s); v.add_recursive(s); } std::set<Sx> U, V; for (auto &s : u.get_simplices()) U.insert(s); for (auto &s : v.get_simplices()) V.insert(s); REQUIRE(U == a.all && V == a.all && u.ncells() == a.all.size() && v.ncells() == a.all.size(), "closure", "maximal simplices do not generate the complex"); REQUIRE(orc::betti(bounds(u)) == orc::betti(dx), "closure-betti", ""); }
  auto build = [&](const sp::Cpx &c) { SC z; for (auto &s : sp::random_order(r, c)) z.add_directed(s); return z; };
  auto setof = [](const SC &z) { std::set<Sx> q; for (auto &s : z.get_simplices()) q.insert(s); return q; };
  SC B = build(b); auto un = sp::unite(a, b), in = sp::meet(a, b);
  { SC z = x; z.union_add(B); REQUIRE(setof(z) == un.all && z.ncells() == un.all.size(), "union_add", ""); std::vector<std::vector<Sx>> o; for (size_t k = 0; k <= z.maxdim(); k++) o.push_back(z.get_simplices(k)); same(C, z, o, "union_add"); same(C, x, m.order, "operand of union_add"); }
  { SC z = simplicial_union(x, B); REQUIRE(setof(z) == un.all && z.ncells() == un.all.size(), "simplicial_union", ""); std::vector<std::vector<Sx>> o; for (size_t k = 0; k <= z.maxdim(); k++) o.push_back(z.get_simplices(k)); same(C, z, o, "union"); }
  { SC z = intersection(x, B); REQUIRE(setof(z) == in.all && z.ncells() == in.all.size(), "intersection", ""); std::vector<std::vector<Sx>> o; for (size_t k = 0; k <= z.maxdim(); k++) o.push_back(z.get_simplices(k)); same(C, z, o, "intersection"); }
  { auto ix = x.get_indices(B); REQUIRE(ix.size() == x.maxdim() + 1, "get_indices", ix.size()); for (size_t k = 0; k <= x.maxdim(); k++) { auto o = B.maxdim() >= k ? B.get_simplices(k) : std::vector<Sx>(); REQUIRE(ix[k].size() == o.size() && x.get_indices(B, k) == ix[k], "get_indices", k); for (size_t i = 0; i < o.size(); i++) REQUIRE(ix[k][i] == (m.has(o[i]) ? m.ix[o[i]] : bats::NO_IND), "get_indices", show(o[i])); } }
  { auto cp = x; size_t n0 = x.ncells(); auto s = rand_simplex(r, nv + 3, 4); cp.add_recursive(s); REQUIRE(x.ncells() == n0, "copy-independent", ""); same(C, x, m.order, "original of a modified copy"); }
}
