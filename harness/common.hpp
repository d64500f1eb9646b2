// Shared case driver of the monitoring harnesses.  A program is one translation
// unit that registers families of cases; each case is a pure function of
// (family, index, seed), so any observation can be replayed alone.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <fstream>
#include <exception>
#include <typeinfo>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/time.h>
#include <cxxabi.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vh {

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(mix(seed)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
  // uniform in [a,b]
  long r(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
  bool chance(double p) { return (double)(next() >> 11) * 0x1.0p-53 < p; }
  double u01() { return (double)(next() >> 11) * 0x1.0p-53; }
  double u(double a, double b) { return a + (b - a) * u01(); }
  template <class T> T &pick(std::vector<T> &v) { return v[next() % v.size()]; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  template <class V> void shuffle(V &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
  }
  std::vector<size_t> perm(size_t n) {
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; i++) p[i] = i;
    shuffle(p);
    return p;
  }
  // m distinct sorted values of 0..n-1
  std::vector<size_t> subset(size_t n, size_t m) {
    auto p = perm(n); p.resize(m); std::sort(p.begin(), p.end()); return p;
  }
};

struct Violation { std::string sig, msg; };
struct Skip {};            // the case turned out to be outside the property

struct Case {
  Rng rng;
  uint64_t idx = 0;
  bool thorough = false;
  std::ostringstream desc;     // the input, for the report
  std::map<std::string, uint64_t> *counters = nullptr;
  std::unordered_set<uint64_t> *seen = nullptr;
  void count(const std::string &k, uint64_t n = 1) { (*counters)[k] += n; }
  void nontrivial(uint64_t h) { if (seen->size() < 400000) seen->insert(h); }
  void nontrivial(const std::string &s) { nontrivial(hash_str(s)); }
  // mark non-trivial by the description collected so far
  void nontrivial() { nontrivial(desc.str()); }
};

struct Family { std::string name; uint64_t quick, thorough; void (*fn)(Case &); };
inline std::vector<Family> &families() { static std::vector<Family> f; return f; }
struct Reg { Reg(const char *n, uint64_t q, uint64_t t, void (*f)(Case &)) { families().push_back({n, q, t, f}); } };

#define FAMILY(NAME, QUICK, THOROUGH)                                   \
  static void fam_##NAME(vh::Case &C);                                  \
  static vh::Reg reg_##NAME(#NAME, QUICK, THOROUGH, fam_##NAME);        \
  static void fam_##NAME([[maybe_unused]] vh::Case &C)

#define REQUIRE(COND, SIG, MSG)                                         \
  do { if (!(COND)) { std::ostringstream os__; os__ << MSG;             \
       throw vh::Violation{SIG, os__.str()}; } } while (0)

// the expression must throw a std::exception (any kind)
#define MUST_THROW(EXPR, SIG, MSG)                                      \
  do { bool th__ = false; try { EXPR; } catch (const std::exception &) { th__ = true; } \
       REQUIRE(th__, SIG, MSG); } while (0)

template <class V> std::string show(const V &v) {
  std::ostringstream o; o << "[";
  bool first = true;
  for (const auto &x : v) { if (!first) o << ","; first = false; o << x; }
  o << "]"; return o.str();
}
template <class V> std::string show2(const V &v) {
  std::ostringstream o; o << "[";
  bool first = true;
  for (const auto &x : v) { if (!first) o << ","; first = false; o << show(x); }
  o << "]"; return o.str();
}

inline std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"') o += "\\\"";
    else if (c == '\\') o += "\\\\";
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}

struct Driver {
  int outfd = -1, progfd = -1;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> seen;
  std::vector<std::string> samples;
  uint64_t seed = 1; bool thorough = false; int cpu = 20; double scale = 1;
  static Driver &get() { static Driver d; return d; }
  void emit(const std::string &line) {
    std::string l = line + "\n";
    if (outfd >= 0) { ssize_t r = ::write(outfd, l.data(), l.size()); (void)r; }
    else { fputs(l.c_str(), stderr); }
  }
  Case *current = nullptr;
  // a fatal report ended the process: leave the input behind
  static void on_death() {
    Driver &d = get(); if (!d.current) return;
    std::string s = d.current->desc.str(); d.current = nullptr; if (s.size() > 6000) s.resize(6000);
    d.emit("{\"t\":\"crash\",\"desc\":\"" + json_escape(s) + "\"}");
  }
  static void on_abort(int) { on_death(); signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
  static void on_timeout(int) { on_death(); _exit(98); }
  void arm(int secs) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &it, nullptr);
  }
  // returns true when the case was clean
  bool run_case(const Family &f, uint64_t idx) {
    Case C; C.idx = idx; C.thorough = thorough;
    C.rng = Rng(mix(seed * 0x51ull + 7) ^ mix(hash_str(f.name) + idx * 0x9E37ull));
    C.counters = &counters; C.seen = &seen; current = &C;
    if (progfd >= 0) {
      char b[160]; int n = snprintf(b, sizeof b, "%-60s %20llu\n", f.name.c_str(), (unsigned long long)idx);
      ssize_t r = ::pwrite(progfd, b, n, 0); (void)r;
    }
    arm(cpu);
    std::string sig, msg; bool bad = false;
    try { f.fn(C); }
    catch (const Violation &v) { bad = true; sig = v.sig; msg = v.msg; }
    catch (const Skip &) { counters["skipped:" + f.name]++; }
    catch (const std::exception &e) {
      bad = true; int st; char *dn = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
      sig = std::string("exception:") + (dn ? dn : "?"); msg = e.what(); free(dn);
    }
    catch (const std::string &e) { bad = true; sig = "exception:string"; msg = e; }
    catch (const char *e) { bad = true; sig = "exception:char*"; msg = e; }
    catch (...) { bad = true; sig = "exception:other"; msg = "unknown exception"; }
    arm(0); current = nullptr;
    counters["eval:" + f.name]++;
    if (bad) {
      std::string d = C.desc.str(); if (d.size() > 6000) d = d.substr(0, 6000) + "...";
      if (msg.size() > 3000) msg = msg.substr(0, 3000) + "...";
      emit("{\"t\":\"viol\",\"family\":\"" + f.name + "\",\"idx\":" + std::to_string(idx) +
           ",\"sig\":\"" + json_escape(sig) + "\",\"msg\":\"" + json_escape(msg) +
           "\",\"desc\":\"" + json_escape(d) + "\"}");
    } else if (idx < 2 || (idx < 64 && samples.size() < 6)) {
      std::string d = C.desc.str();
      if (!d.empty() && samples.size() < 12) {
        if (d.size() > 400) d = d.substr(0, 400) + "...";
        samples.push_back(f.name + "#" + std::to_string(idx) + ": " + d);
      }
    }
    return !bad;
  }
  int main(int argc, char **argv) {
    std::string out, prog, only; uint64_t shard = 0, nshards = 1; bool list = false; long one = -1;
    std::string rfam; uint64_t ridx = 0; bool resume = false, pins = false; int maxviol = 8;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto nx = [&]() { return std::string(argv[++i]); };
      if (a == "--list") list = true;
      else if (a == "--out") out = nx();
      else if (a == "--progress") prog = nx();
      else if (a == "--seed") seed = std::stoull(nx());
      else if (a == "--tier") thorough = nx() == "thorough";
      else if (a == "--shard") { std::string s = nx(); auto p = s.find('/'); shard = std::stoull(s.substr(0, p)); nshards = std::stoull(s.substr(p + 1)); }
      else if (a == "--family") only = nx();
      else if (a == "--idx") one = std::stol(nx());
      else if (a == "--cpu") cpu = std::stoi(nx());
      else if (a == "--scale") scale = std::stod(nx());
      else if (a == "--pins") pins = true;
      else if (a == "--resume") { resume = true; rfam = nx(); ridx = std::stoull(nx()); }
    }
    if (list) { for (auto &f : families()) printf("%s %llu %llu\n", f.name.c_str(), (unsigned long long)f.quick, (unsigned long long)f.thorough); return 0; }
    if (!out.empty()) outfd = ::open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (!prog.empty()) progfd = ::open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_timeout; sigaction(SIGPROF, &sa, nullptr);
    if (!out.empty()) { int dn = ::open("/dev/null", O_WRONLY); if (dn >= 0) { fflush(stdout); dup2(dn, 1); ::close(dn); } }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    signal(SIGABRT, on_abort);
    if (one >= 0) {
      for (auto &f : families()) if (f.name == only) return run_case(f, one) ? 0 : 1;
      return 2;
    }
    int bad = 0; bool skipping = resume;
    for (auto &f : families()) {
      if (!only.empty() && f.name != only) continue;
      bool ispin = f.name.rfind("pin_", 0) == 0;
      if (ispin != pins) continue;
      uint64_t n = thorough ? f.thorough : f.quick, start = shard; if (n > 1) n = (uint64_t)(n * scale);
      if (skipping) { if (f.name != rfam) continue; skipping = false; start = ridx + nshards; }
      for (uint64_t i = start; i < n; i += nshards) {
        if (!run_case(f, i) && ++bad >= maxviol) goto done;
      }
    }
  done:
    std::ostringstream o; o << "{\"t\":\"done\",\"counters\":{";
    bool first = true;
    for (auto &kv : counters) { o << (first ? "" : ",") << "\"" << json_escape(kv.first) << "\":" << kv.second; first = false; }
    o << "},\"samples\":["; first = true;
    for (auto &s : samples) { o << (first ? "" : ",") << "\"" << json_escape(s) << "\""; first = false; }
    o << "]}"; emit(o.str());
    if (!out.empty()) {
      FILE *h = fopen((out + ".hash").c_str(), "ab");
      if (h) { for (auto x : seen) fwrite(&x, 8, 1, h); fclose(h); }
    }
    fflush(nullptr);
    _exit(bad ? 1 : 0);
  }
};
} // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char **argv) { return vh::Driver::get().main(argc, argv); }
#endif
