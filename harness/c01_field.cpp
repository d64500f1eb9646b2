// C01: field elements against exact arithmetic.
#include "bridge.hpp"
#include <climits>
using namespace vh;

#if FIELD != 0
static const long long PRM = FIELD;
static long long red(long long x) { return ((x % PRM) + PRM) % PRM; }

static int wild_int(Rng &r) {
  switch (r.r(0, 6)) {
  case 0: return (int)r.r(0, PRM - 1);
  case 1: return (int)r.r(-3 * PRM, 3 * PRM);
  case 2: return INT_MAX - (int)r.r(0, 3 * PRM);
  case 3: return INT_MIN + (int)r.r(0, 3 * PRM);
  case 4: return (int)(PRM * r.r(-1000, 1000)) + (int)r.r(-1, 1);
  default: return (int)(r.next() & 0xffffffffu);
  }
}
template <class I> static void wf(const ModP<I, FIELD> &x, long long want, const char *what) {
  REQUIRE((long long)x.to_int() == red(want), "value", what << ": got " << (long long)x.to_int() << " want " << red(want));
  std::ostringstream o; o << x;
  REQUIRE(o.str() == std::to_string(red(want)), "print", what << ": prints " << o.str() << " want " << red(want));
  REQUIRE(x.iszero() == (red(want) == 0), "iszero", what << " iszero");
}

FAMILY(construct_any_integer, 4000, 100000) {
  int a = wild_int(C.rng), b = wild_int(C.rng);
  C.desc << "P=" << PRM << " ints " << a << "," << b; C.nontrivial();
  F x(a), y(b); const F cx(a);
  wf(x, a, "construct");
  wf(y, b, "construct");
  REQUIRE((x == y) == (red(a) == red(b)), "eq", "== of F(" << a << "),F(" << b << ")");
  REQUIRE((x != y) == (red(a) != red(b)), "eq", "!= of F(" << a << "),F(" << b << ")");
  REQUIRE((cx == b) == (red(a) == red(b)), "eq-int", "F(" << a << ") == int " << b);
  REQUIRE((cx != b) == (red(a) != red(b)), "ne-int", "F(" << a << ") != int " << b);
  REQUIRE((x < y) == (red(a) < red(b)), "less", "<");
  F z; wf(z, 0, "default");
  z = F(a); wf(z, a, "assign element");
  z = x; wf(z, a, "copy");
  int c = b; z = c; wf(z, b, "assign integer");
}
FAMILY(ops, 4000, 100000) {
  int ia = wild_int(C.rng), ib = wild_int(C.rng); long long a = red(ia), b = red(ib);
  C.desc << "P=" << PRM << " a=" << ia << " b=" << ib; C.nontrivial();
  F x(ia), y(ib); const F cx(x), cy(y);
  wf(cx + cy, a + b, "+"); wf(cx - cy, a - b, "-"); wf(cx * cy, a * b, "*");
  { F t(x); wf(-t, -a, "unary -"); wf(t, a, "operand of unary -"); }
  { F t(x); t += y; wf(t, a + b, "+="); }
  { F t(x); t -= y; wf(t, a - b, "-="); }
  { F t(x); t *= y; wf(t, a * b, "*="); }
  { F t(x); t += t; wf(t, 2 * a, "self +="); }
  { F t(x); t -= t; wf(t, 0, "self -="); }
  if (b) {
    wf((cx / cy) * cy, a, "(a/b)*b");
    wf(cy * cy.inv(), 1, "b*inv b");
    { F t(x); t /= y; wf(t * y, a, "/="); }
    C.count("divisions");
  } else {
    MUST_THROW((void)(cx / cy), "div0", "a/0 did not throw");
    MUST_THROW((void)cy.inv(), "div0", "inv(0) did not throw");
    { F t(x); MUST_THROW(t /= y, "div0", "a/=0 did not throw"); }
    C.count("divisions by zero");
  }
}
// long chains of mixed operations
FAMILY(chains, 1500, 40000) {
  F x(0); long long v = 0; int n = C.rng.r(5, 60);
  C.desc << "P=" << PRM << " chain:";
  for (int i = 0; i < n; i++) {
    int w = wild_int(C.rng); long long b = red(w); F y(w); int op = C.rng.r(0, 9);
    C.desc << " " << op << ":" << w;
    switch (op) {
    case 0: x += y; v = red(v + b); break;
    case 1: x -= y; v = red(v - b); break;
    case 2: x *= y; v = red(v * b); break;
    case 3: x = x + y; v = red(v + b); break;
    case 4: x = y - x; v = red(b - v); break;
    case 5: x = -x; v = red(-v); break;
    case 6: if (b) { x /= y; v = red(v * (long long)toK(y.inv()).v); } break;
    case 7: x = F((int)v) + F(1); v = red(v + 1); break;
    case 8: { int c = w; x = c; v = b; break; }
    default: x = x * y + y; v = red(v * b + b); break;
    }
    wf(x, v, "chain");
    REQUIRE(x == (int)v, "eq-int", "chain value vs int");
  }
  C.nontrivial();
}
// every pair of residues, and the field laws
FAMILY(laws, 1, 1) {
  C.desc << "all residues of P=" << PRM; C.nontrivial();
  for (long long a = 0; a < PRM; a++) for (long long b = 0; b < PRM; b++) {
    F x((int)a), y((int)b);
    REQUIRE(x + y == y + x && x * y == y * x, "commute", a << "," << b);
    wf(x + y, a + b, "+"); wf(x - y, a - b, "-"); wf(x * y, a * b, "*");
    if (b) { REQUIRE((x / y) * y == x, "divide", a << "/" << b); }
    for (long long c = 0; c < PRM; c++) {
      F z((int)c);
      REQUIRE((x + y) + z == x + (y + z), "assoc", a << b << c);
      REQUIRE((x * y) * z == x * (y * z), "assoc", a << b << c);
      REQUIRE(x * (y + z) == x * y + x * z, "distrib", a << b << c);
    }
  }
  C.count("triples of residues", PRM * PRM * PRM);
}
#if FIELD != 2
// other integer carriers
FAMILY(carriers, 1500, 20000) {
  typedef ModP<long, FIELD> G; typedef ModP<short, FIELD> S;
  long a = (long)C.rng.next() / (C.rng.chance(.5) ? 1 : 1000003), b = C.rng.r(-100000, 100000);
  short s = (short)C.rng.next();
  C.desc << "P=" << PRM << " long " << a << "," << b << " short " << s; C.nontrivial();
  wf(G(a), a % PRM, "long"); wf(G(b), b, "long"); wf(S(s), s, "short");
  wf(G(a) * G(b), red(a % PRM) * red(b), "long *"); wf(G(a) - G(b), red(a % PRM) - red(b), "long -");
  if (red(b)) wf(G(b).inv() * G(b), 1, "long inv");
}
#endif

#else // ---------------- rationals
static Rational<int64_t> mk(int64_t n, int64_t d) { return Rational<int64_t>(n, d); }
static void wf(const F &x, const K &want, const char *what) {
  std::ostringstream o; o << x;
  std::ostringstream w; w << (long long)want.n << "/" << (long long)want.d;
  REQUIRE(o.str() == w.str(), "value", what << ": got " << o.str() << " want " << w.str());
  REQUIRE(x == mk((int64_t)want.n, (int64_t)want.d), "eq", what << " == reduced value");
  REQUIRE(x.iszero() == want.zero(), "iszero", what);
  REQUIRE((long long)x.to_int() == (long long)(want.n / want.d), "to_int", what << " to_int");
}
static int64_t part(Rng &r) { switch (r.r(0, 3)) { case 0: return r.r(-3, 3); case 1: return r.r(-40, 40); case 2: return r.r(-3, 3) * 12; default: return r.r(-30000, 30000); } }
FAMILY(ops, 6000, 150000) {
  int64_t n = part(C.rng), d = part(C.rng), m = part(C.rng), e = part(C.rng);
  if (d == 0) d = -6; if (e == 0) e = -4;
  if (C.rng.chance(.2)) { m = n * 3; e = d * 3; } // equal values written differently
  C.desc << n << "/" << d << " and " << m << "/" << e; C.nontrivial();
  F x(n, d), y(m, e); const F cx(x), cy(y); K a((__int128)n, (__int128)d), b((__int128)m, (__int128)e);
  wf(x, a, "construct"); wf(F(n), K((long long)n), "integer");
  wf(cx + cy, a + b, "+"); wf(cx - cy, a - b, "-"); wf(cx * cy, a * b, "*"); wf(-cx, -a, "unary -");
  { F t(x); t += y; wf(t, a + b, "+="); } { F t(x); t -= y; wf(t, a - b, "-="); } { F t(x); t *= y; wf(t, a * b, "*="); }
  { F t(x); t += t; wf(t, a + a, "self +="); } { F t(x); t -= t; wf(t, K(0), "self -="); } { F t(x); t *= t; wf(t, a * a, "self *="); }
  REQUIRE((cx == cy) == (a == b), "eq", "=="); REQUIRE((cx != cy) == (a != b), "eq", "!=");
  REQUIRE((cx < cy) == (a < b), "less", "<"); REQUIRE((cy < cx) == (b < a), "less", ">");
  int k = (int)C.rng.r(-4, 4); REQUIRE((cx == k) == (a == K(k)), "eq-int", "== int"); REQUIRE((cx != k) == (a != K(k)), "eq-int", "!= int");
  if (!b.zero()) {
    wf(cx / cy, a / b, "/"); wf(cy.inv(), b.inv(), "inv"); { F t(x); t /= y; wf(t, a / b, "/="); }
    { F t(y); t /= t; wf(t, K(1), "self /="); }
    C.count("divisions");
  } else {
    MUST_THROW((void)(cx / cy), "div0", "a/0 did not throw"); MUST_THROW((void)cy.inv(), "div0", "inv(0)");
    { F t(x); MUST_THROW(t /= y, "div0", "a/=0 did not throw"); }
    C.count("divisions by zero");
  }
}
FAMILY(chains, 2000, 50000) {
  F x(0); K v(0); int n = C.rng.r(3, 14);
  C.desc << "chain:";
  for (int i = 0; i < n; i++) {
    int64_t p = C.rng.r(-6, 6), q = C.rng.r(1, 6) * (C.rng.chance(.3) ? -1 : 1); F y(p, q); K b((__int128)p, (__int128)q); int op = C.rng.r(0, 6);
    C.desc << " " << op << ":" << p << "/" << q;
    switch (op) {
    case 0: x += y; v = v + b; break;
    case 1: x -= y; v = v - b; break;
    case 2: x *= y; v = v * b; break;
    case 3: x = -x; v = -v; break;
    case 4: if (!b.zero()) { x /= y; v = v / b; } break;
    case 5: if (!v.zero()) { x = x.inv(); v = v.inv(); } break;
    default: x = y - x; v = b - v; break;
    }
    wf(x, v, "chain");
    if (v.n > 2000000 || v.n < -2000000 || v.d > 2000000) break; // stay within the carrier
  }
  C.nontrivial();
}
FAMILY(small_carrier, 2000, 30000) {
  typedef Rational<int> G; int n = C.rng.r(-90, 90), d = C.rng.r(1, 90) * (C.rng.chance(.5) ? 1 : -1), m = C.rng.r(-90, 90), e = C.rng.r(1, 90);
  C.desc << "int " << n << "/" << d << " " << m << "/" << e; C.nontrivial();
  K a((__int128)n, (__int128)d), b((__int128)m, (__int128)e); G x(n, d), y(m, e);
  auto eq = [&](const G &g, const K &k, const char *w) { std::ostringstream o; o << g; std::ostringstream s; s << (long long)k.n << "/" << (long long)k.d; REQUIRE(o.str() == s.str(), "value", w << " got " << o.str() << " want " << s.str()); };
  eq(x + y, a + b, "+"); eq(x - y, a - b, "-"); eq(x * y, a * b, "*"); if (m) eq(x / y, a / b, "/");
  REQUIRE((x < y) == (a < b), "less", "<");
}
#endif
