// C18: zigzag barcodes against the interval decomposition computed from ranks of zigzag relations.
#include "filt.hpp"
using namespace vh;
typedef std::vector<std::vector<std::vector<std::pair<double, double>>>> Life;      // dimension, cell, lifetimes
typedef std::map<std::pair<size_t, size_t>, size_t> Ivl;                            // first and last level -> multiplicity
struct Ev { double t; bool in; size_t k, i; };
struct Hist { Life life; std::vector<double> vals; std::vector<Ev> ev; };
static const char *TN[] = {"random", "filtration", "thick", "one by one", "sliding"};
// random history of a complex with the given boundary; entries before removals at equal values
static Hist history(Case &C, const std::vector<SMx> &B, int mode) {
  Rng &r = C.rng; Hist h; h.life.resize(B.size()); std::vector<std::vector<char>> alive, ever; std::vector<std::vector<double>> since; size_t tot = 0, left; for (auto &b : B) { alive.push_back(std::vector<char>(b.size(), 0)); tot += b.size(); } ever = alive; for (auto &a : alive) since.push_back(std::vector<double>(a.size())); for (size_t k = 0; k < B.size(); k++) h.life[k].resize(B[k].size()); left = tot;
  double pe = r.pick(std::vector<double>{.2, .5, .8}), pr = mode == 1 ? 0 : r.pick(std::vector<double>{.1, .3, .6}); size_t T = mode == 3 ? r.r(3, 14) : r.r(1, 6); if (tot < 22 && r.chance(.04)) T = r.r(15, 45); double t = r.r(-4, 1); bool infend = r.chance(.3);
  auto enter = [&](size_t k, size_t i) { alive[k][i] = 1; if (!ever[k][i]) { ever[k][i] = 1; left--; } since[k][i] = t; h.ev.push_back({t, true, k, i}); };
  auto ok = [&](size_t k, size_t i) { if (k) for (auto &p : B[k][i]) if (!alive[k - 1][p.first]) return false; return true; };
  auto gone = [&](size_t k, size_t i) { alive[k][i] = 0; h.life[k][i].push_back({since[k][i], t}); h.ev.push_back({t, false, k, i}); };
  for (size_t s = 0; s <= T; s++) { h.vals.push_back(t); bool last = s == T;
    if (mode == 3 && !last) { std::vector<std::pair<size_t, size_t>> c; for (size_t k = 0; k < B.size(); k++) for (size_t i = 0; i < B[k].size(); i++) { if (!alive[k][i] && ok(k, i)) c.push_back({k, i}); if (alive[k][i] && pr > 0) { bool top = true; if (k + 1 < B.size()) for (size_t j = 0; j < B[k + 1].size(); j++) if (alive[k + 1][j] && B[k + 1][j].count(i)) top = false; if (top && r.chance(.4)) c.push_back({k, i}); } } if (!c.empty()) { auto p = r.pick(c); if (alive[p.first][p.second]) gone(p.first, p.second); else enter(p.first, p.second); } }
    else { for (size_t k = 0; k < B.size(); k++) for (size_t i = 0; i < B[k].size(); i++) if (!alive[k][i] && ok(k, i) && (last ? !ever[k][i] : r.chance(pe))) enter(k, i);
      if (last) for (size_t k = 0; k < B.size(); k++) for (size_t i = 0; i < B[k].size(); i++) if (!ever[k][i]) { // bring in what never entered, with its faces
        std::function<void(size_t, size_t)> need = [&](size_t d, size_t j) { if (alive[d][j]) return; if (d) for (auto &p : B[d][j]) need(d - 1, p.first); enter(d, j); }; need(k, i); }
      std::vector<std::vector<char>> out; for (auto &a : alive) out.push_back(std::vector<char>(a.size(), 0)); for (size_t k = 0; k < B.size(); k++) for (size_t i = 0; i < B[k].size(); i++) if (alive[k][i]) { bool o = !last && r.chance(mode == 4 ? (t - since[k][i] >= 2 ? 1 : 0) : pr * (mode == 2 ? .3 : 1)); if (k) for (auto &p : B[k][i]) o = o || out[k - 1][p.first]; out[k][i] = o; }
      for (size_t k = B.size(); k--;) for (size_t i = 0; i < B[k].size(); i++) if (out[k][i]) gone(k, i); }
    t += r.chance(.5) ? 1 : r.u(.1, 2); }
  if (infend) t = INF; if (t != h.vals.back()) h.vals.push_back(t); for (size_t k = B.size(); k--;) for (size_t i = 0; i < B[k].size(); i++) if (alive[k][i]) gone(k, i);
  C.desc << " " << TN[mode]; if (tot < 26) for (size_t k = 0; k < B.size(); k++) { C.desc << " |"; for (auto &l : h.life[k]) { C.desc << " "; for (auto &p : l) C.desc << "[" << p.first << "," << p.second << "]"; } } for (auto &k : h.life) for (auto &l : k) if (l.size() > 1) { C.count("repeated_lifetimes"); break; }
  (void)left; return h;
}
// level 2i+1 is the complex at vals[i], level 2i the one just before it
static std::vector<std::vector<std::vector<char>>> levels(const Hist &h) {
  std::vector<std::vector<std::vector<char>>> L(2 * h.vals.size() + 1); for (size_t l = 0; l < L.size(); l++) for (auto &d : h.life) { std::vector<char> a; for (auto &c : d) { bool in = false; for (auto &p : c) { if (l % 2) in = in || (p.first <= h.vals[l / 2] && h.vals[l / 2] <= p.second); else in = in || (l && l / 2 < h.vals.size() && p.first <= h.vals[l / 2 - 1] && h.vals[l / 2] <= p.second); } a.push_back(in); } L[l].push_back(a); } return L;
}
static Ivl decomposition(Case &C, const std::vector<SMx> &B, const Hist &h, size_t k) {
  auto L = levels(h); size_t n = L.size(); std::vector<orc::HBasis<K>> H; std::vector<std::vector<size_t>> cells;
  for (auto &l : L) { auto list = [&](size_t d) { std::vector<size_t> v; if (d < B.size()) for (size_t i = 0; i < B[d].size(); i++) if (l[d][i]) v.push_back(i); return v; }; auto lo = k ? list(k - 1) : std::vector<size_t>(), me = list(k), hi = list(k + 1); auto sub = [&](size_t d, const std::vector<size_t> &rows, const std::vector<size_t> &cols) { DM m(rows.size(), cols.size()); if (d < B.size()) for (size_t j = 0; j < cols.size(); j++) for (auto &p : B[d][cols[j]]) { auto it = std::lower_bound(rows.begin(), rows.end(), p.first); m(it - rows.begin(), j) = p.second; } return m; };
    std::vector<DM> D; for (size_t d = 0; d < k; d++) D.push_back(DM()); D.push_back(k ? sub(k, lo, me) : DM(0, me.size())); D.push_back(sub(k + 1, me, hi)); H.push_back(orc::hbasis(D, k)); cells.push_back(me); }
  auto push = [&](size_t a, size_t b) { DM m(cells[b].size(), H[a].R.c); for (size_t i = 0; i < cells[a].size(); i++) { size_t p = std::lower_bound(cells[b].begin(), cells[b].end(), cells[a][i]) - cells[b].begin(); for (size_t j = 0; j < m.c; j++) m(p, j) = H[a].R(i, j); } return H[b].coords(m); };
  std::vector<orc::Rel<K>> step; for (size_t l = 0; l + 1 < n; l++) step.push_back(l % 2 ? orc::rel_inv(push(l + 1, l)) : orc::rel_map(push(l, l + 1)));
  std::vector<std::vector<size_t>> rk(n, std::vector<size_t>(n, 0)); for (size_t a = 0; a < n; a++) { rk[a][a] = H[a].R.c; if (!rk[a][a]) continue; auto R = orc::rel_map(DM::I(H[a].R.c)); for (size_t b = a + 1; b < n; b++) { R = orc::compose(R, step[b - 1]); rk[a][b] = orc::rel_rank(R); if (!rk[a][b]) break; } }
  Ivl out; auto at = [&](long a, long b) { return a < 0 || b >= (long)n ? 0 : (long)rk[a][b]; }; for (long a = 0; a < (long)n; a++) for (long b = a; b < (long)n; b++) { long m = at(a, b) - at(a - 1, b) - at(a, b + 1) + at(a - 1, b + 1); REQUIRE(m >= 0, "oracle", "negative multiplicity"); if (m) out[{a, b}] = m; } return out;
}
static std::string shi(const Ivl &v, const Hist &h) { std::ostringstream o; for (auto &p : v) { auto s = [&](size_t l) { return l % 2 ? std::to_string(h.vals[l / 2]) : (l ? std::to_string(h.vals[l / 2 - 1]) : std::string("-")) + "+"; }; o << " " << p.second << "x[" << s(p.first.first) << " .. " << s(p.first.second) << "]"; } return o.str(); }
template <class Bars, class ZC> void compare(Case &C, const Bars &bars, const std::vector<Ivl> &want, const Hist &h, const ZC &Z, const std::string &w) {
  for (size_t k = 0; k < bars.size(); k++) { Ivl got; for (auto p : bars[k]) { REQUIRE(p.dim == k, "bar-dimension", w << " " << p.str()); REQUIRE(p.get_dim() == p.dim && p.get_birth_ind() == p.birth_ind && p.get_death_ind() == p.death_ind && p.get_birth() == p.birth && p.get_death() == p.death && (!std::isfinite(p.birth) || (p.length() == p.death - p.birth && p.mid() == (p.death + p.birth) / 2)), "bar-accessors", w << " " << p.str()); { std::ostringstream t; t << k << " : (" << p.birth << ',' << p.death << ") <" << p.birth_ind << '(' << p.birth_is_entry << ")," << (p.death_ind == bats::NO_IND ? std::string("-1") : std::to_string(p.death_ind)) << '(' << p.death_is_entry << ")>"; REQUIRE(p.str() == t.str(), "bar-printed", w << " " << p.str() << " expected " << t.str()); } REQUIRE(p.birth <= p.death, "bar-reversed", w << " " << p.str()); REQUIRE(p.death_ind != bats::NO_IND, "bar-never-ends", w << " " << p.str());
      auto ix = [&](double t) { auto it = std::lower_bound(h.vals.begin(), h.vals.end(), t); REQUIRE(it != h.vals.end() && *it == t, "bar-value", w << " " << p.str()); return (size_t)(it - h.vals.begin()); }; size_t a = 2 * ix(p.birth) + (p.birth_is_entry ? 1 : 2), b = 2 * ix(p.death) + (p.death_is_entry ? 0 : 1); if (a <= b) got[{a, b}]++; else REQUIRE(a == b + 1, "bar-reversed", w << " " << p.str());
      size_t bk = p.birth_is_entry ? k : k + 1, dk = p.death_is_entry ? k + 1 : k; REQUIRE(bk < Z.val.size() && p.birth_ind < Z.val[bk].size() && (p.birth_is_entry ? Z.val[bk][p.birth_ind].first : Z.val[bk][p.birth_ind].second) == p.birth, "birth-index", w << " " << p.str()); REQUIRE(dk < Z.val.size() && p.death_ind < Z.val[dk].size() && (p.death_is_entry ? Z.val[dk][p.death_ind].first : Z.val[dk][p.death_ind].second) == p.death, "death-index", w << " " << p.str()); C.count("bars"); if (!p.birth_is_entry) C.count("bars_born_by_removal"); if (p.death_is_entry) C.count("bars_closed_by_entry"); }
    if (k < want.size()) REQUIRE(got == want[k], "barcode", w << " dimension " << k << ":" << shi(got, h) << " expected" << shi(want[k], h)); else REQUIRE(got.empty(), "barcode", w << " bars above the top dimension"); }
}
template <class X> void expanded(const bats::zigzag::ZigzagFiltration<X, double> &Fl, const bats::zigzag::ZigzagChainComplex<CM, double> &Z, const std::vector<SMx> &B, const Hist &h) {
  REQUIRE(Z.val.size() == B.size() && Z.cind.size() == B.size(), "expansion-dimensions", Z.val.size()); std::vector<SMx> D;
  for (size_t k = 0; k < B.size(); k++) { size_t n = 0; for (auto &l : h.life[k]) n += l.size(); REQUIRE(Z.val[k].size() == n && Z.cind[k].size() == n && Z.dim(k) == n, "expansion-size", "dimension " << k << " has " << Z.val[k].size() << " for " << n); std::set<std::tuple<size_t, double, double>> s; for (size_t i = 0; i < n; i++) { REQUIRE(Z.cind[k][i] < B[k].size(), "expansion-index", k); s.insert(std::make_tuple(Z.cind[k][i], Z.val[k][i].first, Z.val[k][i].second)); } REQUIRE(s.size() == n, "expansion-lifetimes", "dimension " << k); for (size_t i = 0; i < h.life[k].size(); i++) for (auto &p : h.life[k][i]) REQUIRE(s.count(std::make_tuple(i, p.first, p.second)), "expansion-lifetimes", "dimension " << k << " cell " << i);
    if (k) { SMx m = smx(Z.C[k], "expanded"); REQUIRE(m.size() == n, "expansion-size", k); for (size_t j = 0; j < n; j++) { SCol c; for (auto &p : m[j]) { REQUIRE(p.first < Z.val[k - 1].size(), "expansion-face", k); REQUIRE(Z.val[k - 1][p.first].first <= Z.val[k][j].first && Z.val[k][j].second <= Z.val[k - 1][p.first].second, "face-copy-absent", "dimension " << k << " cell " << Z.cind[k][j] << " lives [" << Z.val[k][j].first << "," << Z.val[k][j].second << "], its face " << Z.cind[k - 1][p.first] << " [" << Z.val[k - 1][p.first].first << "," << Z.val[k - 1][p.first].second << "]"); c[Z.cind[k - 1][p.first]] = p.second; } REQUIRE(c == B[k][Z.cind[k][j]], "expansion-boundary", "dimension " << k << " cell " << Z.cind[k][j]); } } }
}
template <class X> void run(Case &C, const bats::zigzag::ZigzagFiltration<X, double> &Fl, const std::vector<SMx> &B, const Hist &h, int mode, bool heavy) {
  using namespace bats; auto stored = Fl.vals(); REQUIRE(Fl.maxdim() + 1 == stored.size() && stored.size() <= B.size(), "maxdim", Fl.maxdim()); stored.resize(B.size()); REQUIRE(stored == h.life, "lifetimes", "stored lifetimes differ"); for (size_t k = 0; k <= Fl.maxdim(); k++) REQUIRE(Fl.ncells(k) == B[k].size() && Fl.vals(k) == h.life[k], "ncells", k);
  std::vector<Ivl> want; for (size_t k = 0; k < B.size(); k++) want.push_back(decomposition(C, B, h, k)); zigzag::ZigzagChainComplex<CM, double> Z(Fl); expanded(Fl, Z, B, h); ssize_t top = B.size() - 1;
  for (ssize_t md = -1; md <= top; md++) { std::string w = "maxdim " + std::to_string(md); if (!heavy && md >= 0 && md != top && C.rng.chance(.5)) continue; auto chk = [&](auto bars, const std::string &f) { REQUIRE((ssize_t)bars.size() == (md == -1 ? top : md + 1), "dimensions", w << " " << bars.size()); compare(C, bars, want, h, Z, w + " " + f); C.count("barcodes"); };
    chk(zigzag::barcode(Fl, md, F(), no_optimization_flag(), standard_reduction_flag()), "standard"); chk(zigzag::barcode(Fl, md, F(), no_optimization_flag(), extra_reduction_flag()), "extra"); if (heavy) { chk(zigzag::barcode(Fl, md, F(), clearing_flag(), standard_reduction_flag()), "clearing standard"); chk(zigzag::barcode(Fl, md, F(), compression_flag(), extra_reduction_flag()), "compression extra"); } }
  if (mode == 1) { Vals v; for (auto &d : h.life) { v.push_back({}); for (auto &c : d) v.back().push_back(c[0].first); } auto P = pairing(B, stable(v)); auto Q = alive(bars_of(P, v)); auto bars = zigzag::barcode(Fl, top, F(), no_optimization_flag(), standard_reduction_flag()); std::vector<orc::Bar> g; for (auto &d : bars) for (auto &p : d) if (p.birth_is_entry && (p.birth < p.death || !p.death_is_entry)) g.push_back({p.dim, p.birth, p.death_is_entry ? p.death : INF}); std::sort(g.begin(), g.end()); REQUIRE(g == Q, "filtration-barcode", g.size() << " bars, persistence has " << Q.size()); C.count("ordinary_filtrations"); }
}
template <class X> std::vector<DM> bounds(const X &x) { std::vector<DM> D; D.push_back(DM(0, x.ncells(0))); for (size_t k = 1; k <= x.maxdim(); k++) D.push_back(dense_csc(x.boundary_csc(k))); return D; }
template <class X> void whole(Case &C, const X &x, bool heavy = false) { auto B = sparse_bd(bounds(x)); int mode = C.rng.r(0, 4); auto h = history(C, B, mode); C.nontrivial(); bats::zigzag::ZigzagFiltration<X, double> Fl(x, h.life); run(C, Fl, B, h, mode, heavy); }
// cells entered one after another, re-entering cells added again
template <class X> void played(Case &C, const X &x, const X &empty) {
  auto B0 = sparse_bd(bounds(x)); int mode = C.rng.r(0, 4); auto h = history(C, B0, mode); C.nontrivial(); bats::zigzag::ZigzagFiltration<X, double> Fl(empty); std::map<std::pair<size_t, size_t>, size_t> nth; std::vector<std::vector<size_t>> ix(B0.size()); for (size_t k = 0; k < B0.size(); k++) ix[k].resize(B0[k].size()); Hist g = h; for (auto &d : g.life) for (auto &c : d) c.clear();
  for (auto &e : h.ev) if (e.in) { auto s = x.get_cell(e.k, e.i); auto l = h.life[e.k][e.i][nth[{e.k, e.i}]++]; cell_ind c; if (C.rng.chance(.5)) c = Fl.add(l.first, l.second, s); else c = Fl.add(l.first, l.second, std::vector<size_t>(s)); REQUIRE(c.dim == e.k, "add-dimension", c.dim); ix[e.k][e.i] = c.ind; REQUIRE(c.ind < g.life[e.k].size(), "add-index", c.ind); g.life[e.k][c.ind].push_back(l); }
  auto B = sparse_bd(bounds(Fl.complex())); g.life.resize(B.size()); run(C, Fl, B, g, mode, false);
}
static sp::Cpx small(Rng &r) { if (FIELD == 0 || r.chance(.6)) return sp::random(r, r.r(1, 6), r.r(0, 3), r.r(1, 6)); auto x = sp::random_space(r); return x; }
FAMILY(trie, 160, 3000) { auto x = small(C.rng); C.desc << sp::show(x); whole(C, make_sc(C.rng, x), C.rng.chance(.2)); }
FAMILY(light, 100, 2000) { auto x = small(C.rng); C.desc << sp::show(x); whole(C, make_lc(C.rng, x)); }
FAMILY(cubes, 90, 1800) { std::string d; auto q = make_cc(C.rng, d); size_t n = 0; for (size_t k = 0; k <= q.maxdim(); k++) n += q.ncells(k); C.desc << d; if (n > 70) throw Skip(); whole(C, q); }
FAMILY(cells, 120, 2200) { std::string d; auto q = make_cell(C.rng, d); C.desc << d; whole(C, q, C.rng.chance(.2)); }
FAMILY(played_trie, 120, 2400) { auto x = small(C.rng); C.desc << sp::show(x); played(C, make_sc(C.rng, x), bats::SimplicialComplex()); }
FAMILY(played_cubes, 60, 1200) { std::string d; auto q = make_cc(C.rng, d); size_t n = 0; for (size_t k = 0; k <= q.maxdim(); k++) n += q.ncells(k); C.desc << d; if (n > 60) throw Skip(); played(C, q, bats::CubicalComplex(q.get_cell(0, 0).size() / 2)); }
// deep complexes with few dimensions asked for
FAMILY(deep, 60, 1200) { Rng &r = C.rng; sp::Cpx x = sp::random(r, r.r(4, 6), r.r(3, 4), r.r(2, 3)); C.desc << sp::show(x); auto q = make_sc(r, x); whole(C, q, true); }
// simplices added with their faces: the cells that were added, and the simplex itself, take the lifetime given
FAMILY(recursive, 160, 3000) {
  Rng &r = C.rng; bats::zigzag::ZigzagFiltration<bats::SimplicialComplex, double> Fl; std::map<sp::Sx, std::vector<std::pair<double, double>>> want; int m = r.r(1, 6); bool nest = r.chance(.6), bad = false;
  for (int a = 0; a < m; a++) { auto s = r.subset(5, r.r(1, 4)); double b = r.r(0, 4), d = b + r.r(0, 3); if (nest) { b = a; d = 20 - a; if (want.count(s)) continue; } C.desc << vh::show(s) << "[" << b << "," << d << "] "; sp::Cpx y; y.add(s); std::set<sp::Sx> add; for (auto &f : y.all) if (f == s || !want.count(f)) add.insert(f); for (auto &f : add) { for (auto &p : want[f]) if (p.first <= d && b <= p.second) bad = true; want[f].push_back({b, d}); }
    auto q = s; auto ret = r.chance(.5) ? Fl.add_recursive(b, d, q) : Fl.add_recursive(b, d, std::move(q)); std::set<sp::Sx> got; for (auto &c : ret) got.insert(Fl.complex().get_cell(c.dim, c.ind)); REQUIRE(got == add && ret.size() == add.size(), "recursive-return", vh::show(s)); }
  C.nontrivial(); Hist h; std::set<double> vals; h.life.resize(Fl.maxdim() + 1); size_t n = 0; for (size_t k = 0; k <= Fl.maxdim(); k++) for (size_t i = 0; i < Fl.ncells(k); i++) { auto s = Fl.complex().get_cell(k, i); h.life[k].push_back(Fl.vals(k)[i]); n++; REQUIRE(want.count(s) && Fl.vals(k)[i] == want[s], "recursive-lifetimes", vh::show(s) << " has " << Fl.vals(k)[i].size() << " lifetimes"); for (auto &p : want[s]) { vals.insert(p.first); vals.insert(p.second); } } REQUIRE(n == want.size(), "recursive-cells", n);
  for (auto &w : want) if (w.first.size() > 1) for (auto &p : w.second) for (size_t j = 0; j < w.first.size(); j++) { auto f = w.first; f.erase(f.begin() + j); bool in = false; for (auto &q : want[f]) in = in || (q.first <= p.first && p.second <= q.second); if (!in) bad = true; }
  if (bad) { C.count("not_a_zigzag"); return; } h.vals.assign(vals.begin(), vals.end()); auto B = sparse_bd(bounds(Fl.complex())); run(C, Fl, B, h, 0, false);
}
