// Small property-based testing engine: every random decision of a case is one bounded integer in a choice sequence,
// so any failing case can be replayed from and shrunk as a list of integers.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Discard { std::string why; };
struct Failure { std::string tag, msg; };

inline uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

class G {
public:
  explicit G(uint64_t seed) : state_(seed) {}
  explicit G(std::vector<uint64_t> const& ch) : fixed_(ch), replay_(true) {}

  /// uniform in [0,n); 0 is the simplest value
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay_) v = pos_ < fixed_.size() ? std::min<uint64_t>(fixed_[pos_], n - 1) : 0;
    else { state_ += 0x9e3779b97f4a7c15ull; v = mix(state_) % n; }
    ++pos_;
    used_.push_back(v);
    if (liveChoices && used_.size() <= 200000) { liveChoices[used_.size() - 1] = v; *liveCount = used_.size(); }
    if (used_.size() > 200000) throw Discard{"too many choices"};
    return v;
  }
  int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }
  bool coin() { return below(2) == 1; }
  /// true with probability num/den (false is simplest)
  bool chance(int num, int den) { return below(den) >= uint64_t(den - num); }
  template <class T> T pick(std::vector<T> const& v) { return v[below(v.size())]; }
  /// [0,1) lattice
  double unit() { return double(below(1u << 24)) / double(1u << 24); }
  /// in [a,b]; simplest value is 0 if inside, else a
  double real(double a, double b) {
    double u = unit();
    double z = (a <= 0 && b >= 0) ? 0.0 : a;
    double w = b - a;
    double r = z + u * w;
    if (r > b) r -= w;
    return r;
  }
  double normal() {
    double u1 = unit(), u2 = unit();
    return std::sqrt(-2.0 * std::log(1.0 - u1)) * std::cos(6.283185307179586 * (u2 + 0.0078125));
  }
  std::vector<double> reals(size_t n, double a, double b) { std::vector<double> v(n); for (auto& x : v) x = real(a, b); return v; }

  std::ostream& note() { return note_; }
  std::string notes() const { return note_.str(); }
  void nontrivial() { nontrivial_ = true; }
  bool isNontrivial() const { return nontrivial_; }
  void label(std::string const& s) { labels_.insert(s); }
  std::set<std::string> const& labels() const { return labels_; }
  std::vector<uint64_t> const& used() const { return used_; }
  /// number of elementary comparisons made by the oracle in this case
  uint64_t comparisons = 0;
  /// when set, choices are mirrored here as they are drawn so that a crash leaves them readable
  uint64_t* liveChoices = nullptr; uint64_t* liveCount = nullptr;

  [[noreturn]] void discard(std::string const& why) { throw Discard{why}; }
  [[noreturn]] void fail(std::string const& tag, std::string const& msg) { throw Failure{tag, msg}; }
  void check(bool ok, std::string const& tag, std::string const& msg) { ++comparisons; if (!ok) fail(tag, msg); }
  void close(std::string const& tag, double got, double want, double tol, std::string const& ctx = "") {
    ++comparisons;
    bool ok;
    if (std::isnan(want) || std::isnan(got)) ok = std::isnan(want) && std::isnan(got);
    else if (std::isinf(want) || std::isinf(got)) ok = want == got;
    else ok = got == want || std::fabs(got - want) <= tol;
    if (!ok) {
      std::ostringstream s; s.precision(17);
      s << ctx << " got " << got << " want " << want << " |diff| " << std::fabs(got - want) << " tol " << tol;
      fail(tag, s.str());
    }
  }
private:
  uint64_t state_ = 0;
  std::vector<uint64_t> fixed_;
  bool replay_ = false;
  size_t pos_ = 0;
  std::vector<uint64_t> used_;
  std::ostringstream note_;
  bool nontrivial_ = false;
  std::set<std::string> labels_;
};

struct Sub { std::string name; int cases; std::function<void(G&)> fn; };
inline std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
/// register a sub-property; `cases` = cases per shard in the quick tier
struct Reg { Reg(std::string n, int cases, std::function<void(G&)> f) { subs().push_back({n, cases, f}); } };
#define PBT_PROPERTY(id, cases) \
  static void id(pbt::G& g);    \
  static pbt::Reg reg_##id(#id, cases, id); \
  static void id(pbt::G& g)

enum Outcome { PASS = 0, DISCARD = 1, FAIL = 2, CRASH = 3, HANG = 4, RUNNING = 9 };
inline const char* outcomeName(int o) { switch (o) { case PASS: return "pass"; case DISCARD: return "discard"; case FAIL: return "fail"; case CRASH: return "crash"; case HANG: return "hang"; } return "running"; }

struct Shared {
  int outcome; int sub; uint64_t seed; uint64_t idx;
  uint64_t nchoices;
  char tag[256]; char msg[4096]; char note[65536];
  uint64_t choices[200100];
};
inline Shared*& sh() { static Shared* p = nullptr; return p; }

inline void put(char* dst, size_t n, std::string const& s) { size_t k = std::min(n - 1, s.size()); std::memcpy(dst, s.data(), k); dst[k] = 0; }

inline G*& cur() { static G* p = nullptr; return p; }
inline void onSignal(int sig) {
  if (sh()) {
    sh()->outcome = sig == SIGPROF ? HANG : CRASH;
    const char* m = sig == SIGPROF ? "case exceeded its CPU limit" : sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : "signal";
    std::strncpy(sh()->tag, sig == SIGPROF ? "hang" : "crash", 255);
    std::strncpy(sh()->msg, m, 4095);
    if (cur()) { signal(SIGALRM, SIG_DFL); alarm(3); std::string n = cur()->notes(); put(sh()->note, 65536, n); }  // best effort
  }
  _exit(77);
}
inline void armSignals() {
#if !defined(__SANITIZE_ADDRESS__)
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, onSignal);
#endif
  signal(SIGABRT, onSignal);
  signal(SIGPROF, onSignal);
}
inline void cpuLimit(double sec) {
  itimerval t{}; t.it_value.tv_sec = long(sec); t.it_value.tv_usec = long((sec - long(sec)) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Result { int outcome; std::string tag, msg, note; };
inline double& caseCpu() { static double v = 60; return v; }

inline Result runCase(Sub& s, G& g) {
  Result r{PASS, "", "", ""};
  cpuLimit(caseCpu());
  cur() = &g;
  try { s.fn(g); }
  catch (Discard& d) { r.outcome = DISCARD; r.tag = d.why; }
  catch (Failure& f) { r.outcome = FAIL; r.tag = f.tag; r.msg = f.msg; }
  catch (std::exception& e) { r.outcome = FAIL; r.tag = "exception"; r.msg = e.what(); }
  catch (...) { r.outcome = FAIL; r.tag = "exception"; r.msg = "unknown exception"; }
  cpuLimit(0);
  cur() = nullptr;
  r.note = g.notes();
  return r;
}

inline std::string esc(std::string const& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

/// runs one choice list in a forked child and returns the outcome; sh() holds details
inline int forkRun(int sub, std::vector<uint64_t> const* ch, uint64_t seed, std::function<void()> init) {
  sh()->outcome = RUNNING; sh()->nchoices = 0; sh()->tag[0] = sh()->msg[0] = sh()->note[0] = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    armSignals();
    int dn = open("/dev/null", O_WRONLY);
    if (!getenv("PBT_VERBOSE")) { dup2(dn, 1); dup2(dn, 2); }
    init();
    G g = ch ? G(*ch) : G(seed);
    g.liveChoices = sh()->choices; g.liveCount = &sh()->nchoices;
    Result r = runCase(subs()[sub], g);
    put(sh()->tag, 256, r.tag); put(sh()->msg, 4096, r.msg); put(sh()->note, 65536, r.note);
    sh()->nchoices = g.used().size();
    std::memcpy(sh()->choices, g.used().data(), 8 * g.used().size());
    sh()->outcome = r.outcome;
    fflush(nullptr);
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  if (sh()->outcome == RUNNING) {
    sh()->outcome = CRASH;
    put(sh()->tag, 256, "crash");
    std::ostringstream m; if (WIFSIGNALED(st)) m << "terminated by signal " << WTERMSIG(st); else m << "exited with status " << WEXITSTATUS(st) << " (sanitizer report or abort)";
    put(sh()->msg, 4096, m.str());
  }
  return sh()->outcome;
}
inline bool bad(int o) { return o == FAIL || o == CRASH || o == HANG; }

inline int mainImpl(int argc, char** argv, std::function<void()> init) {
  std::map<std::string, std::string> a;
  std::string mode = argc > 1 ? argv[1] : "help";
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto geti = [&](const char* k, double d) { return a.count(k) ? std::stod(a[k]) : d; };
  caseCpu() = geti("--casecpu", 60);
  if (mode == "list") { for (auto& s : subs()) std::cout << s.name << " " << s.cases << "\n"; return 0; }
  auto subIndex = [&](std::string const& n) { for (size_t i = 0; i < subs().size(); ++i) if (subs()[i].name == n) return int(i); return -1; };

  // ---- shared memory
  std::string statusPath = a.count("--status") ? a["--status"] : "";
  void* mem;
  if (!statusPath.empty()) {
    int fd = open(statusPath.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("status"); return 3; }
    mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  } else mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh() = static_cast<Shared*>(mem);

  if (mode == "run") {
    uint64_t seed = std::stoull(a["--seed"]);
    double scale = geti("--scale", 1), maxTime = geti("--time", 300);
    armSignals();
    init();
    double t0 = now();
    uint64_t evals = 0, disc = 0, comps = 0, idx = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels, perSub, discWhy, nontrivSub;
    std::vector<std::string> samples, failures;
    std::map<std::string, int> sampleCount;
    bool timeUp = false;
    std::vector<uint64_t> done(subs().size(), 0), want(subs().size()); std::vector<bool> dead(subs().size(), false);
    for (size_t i = 0; i < subs().size(); ++i) { want[i] = subs()[i].cases ? std::max<uint64_t>(1, uint64_t(std::ceil(subs()[i].cases * scale))) : 0;
      if (a.count("--only") && a["--only"] != subs()[i].name) want[i] = 0; }
    // round robin so that a time limit cuts all sub-properties evenly
    for (;;) {
      // choose the sub with the smallest done/want
      int b = -1; double best = 1.0;
      for (size_t i = 0; i < subs().size(); ++i) if (!dead[i] && want[i] > 0) { double f = double(done[i]) / want[i]; if (f < best) { best = f; b = int(i); } }
      if (b < 0) break;
      if (now() - t0 > maxTime) { timeUp = true; break; }
      uint64_t cs = mix(seed * 1000003ull + mix(uint64_t(b) * 7919ull + done[b] * 104729ull));
      sh()->outcome = RUNNING; sh()->sub = b; sh()->seed = cs; sh()->idx = idx;
      G g(cs);
      Result r = runCase(subs()[b], g);
      sh()->outcome = PASS;
      ++done[b]; ++idx;
      comps += g.comparisons;
      if (r.outcome == DISCARD) { ++disc; ++discWhy[subs()[b].name + ": " + r.tag]; continue; }
      ++evals; ++perSub[subs()[b].name];
      for (auto& l : g.labels()) ++labels[subs()[b].name + "/" + l];
      if (g.isNontrivial()) {
        uint64_t h = mix(b + 17); for (auto c : g.used()) h = mix(h ^ c);
        if (hashes.insert(h).second) ++nontrivSub[subs()[b].name];
        int& sc = sampleCount[subs()[b].name];
        if (sc < 2 && !r.note.empty()) { ++sc; samples.push_back(subs()[b].name + ": " + r.note.substr(0, 900)); }
      }
      if (r.outcome == FAIL) {
        dead[b] = true;
        std::ostringstream f; f << "{\"sub\":\"" << subs()[b].name << "\",\"seed\":\"" << cs << "\",\"tag\":\"" << esc(r.tag) << "\",\"msg\":\"" << esc(r.msg) << "\"}";
        failures.push_back(f.str());
      }
    }
    std::ofstream o(a["--out"]);
    auto mp = [&](std::map<std::string, uint64_t>& m) { std::string s = "{"; bool first = true; for (auto& k : m) { if (!first) s += ","; first = false; s += "\"" + esc(k.first) + "\":" + std::to_string(k.second); } return s + "}"; };
    auto lst = [&](std::vector<std::string>& v, bool q) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += q ? "\"" + esc(v[i]) + "\"" : v[i]; } return s + "]"; };
    o << "{\"evaluations\":" << evals << ",\"discarded\":" << disc << ",\"comparisons\":" << comps << ",\"timeup\":" << (timeUp ? "true" : "false") << ",\"wall\":" << now() - t0
      << ",\"per_sub\":" << mp(perSub) << ",\"nontrivial_sub\":" << mp(nontrivSub) << ",\"labels\":" << mp(labels) << ",\"discards\":" << mp(discWhy)
      << ",\"samples\":" << lst(samples, true) << ",\"failures\":" << lst(failures, false) << "}\n";
    o.close();
    std::ofstream hf(a["--out"] + ".hashes", std::ios::binary);
    for (auto h : hashes) hf.write(reinterpret_cast<const char*>(&h), 8);
    hf.close();
    sh()->outcome = PASS; sh()->sub = -1;
    fflush(nullptr);
    _exit(0);  // skip static teardown of the code under test
  }

  // replay FILE / shrink: everything in forked children so crashes are contained
  int sub = -1; std::vector<uint64_t> ch; uint64_t seed = 0; bool haveCh = false;
  if (a.count("--file")) {
    std::ifstream f(a["--file"]); std::string line;
    while (std::getline(f, line)) {
      std::istringstream s(line); std::string k; s >> k;
      if (k == "sub") { std::string n; s >> n; sub = subIndex(n); }
      if (k == "choices") { uint64_t c; while (s >> c) ch.push_back(c); haveCh = true; }
      if (k == "seed") s >> seed;
    }
  } else { sub = subIndex(a["--sub"]); seed = std::stoull(a["--seed"]); }
  if (sub < 0) { std::cerr << "unknown sub-property\n"; return 3; }

  if (mode == "replay") {
    int o = forkRun(sub, haveCh ? &ch : nullptr, seed, init);
    std::cout << "OUTCOME " << outcomeName(o) << "\nTAG " << sh()->tag << "\nMSG " << sh()->msg << "\nCASE " << sh()->note << "\n";
    return bad(o) ? 1 : 0;
  }
  if (mode == "shrink") {
    double limit = geti("--time", 45), t0 = now();
    int o = forkRun(sub, haveCh ? &ch : nullptr, seed, init);
    if (!bad(o)) { std::cout << "OUTCOME " << outcomeName(o) << "\n"; return 0; }
    std::string tag = sh()->tag;
    std::vector<uint64_t> best(sh()->choices, sh()->choices + sh()->nchoices);
    bool canShrink = o != HANG;
    std::string note = sh()->note, msg = sh()->msg; int tries = 0;
    auto attempt = [&](std::vector<uint64_t> const& c) {
      ++tries;
      int q = forkRun(sub, &c, 0, init);
      if (q == o && tag == sh()->tag) {
        std::vector<uint64_t> u(sh()->choices, sh()->choices + sh()->nchoices);
        if (u.size() < best.size() || (u.size() == best.size() && u < best)) { best = u; note = sh()->note; msg = sh()->msg; return true; }
      }
      return false;
    };
    if (canShrink) {
      bool progress = true;
      while (progress && now() - t0 < limit) {
        progress = false;
        for (size_t len : {64, 16, 8, 4, 2, 1})
          for (size_t i = 0; i < best.size() && now() - t0 < limit;) {
            if (i + len > best.size()) break;
            auto c = best; c.erase(c.begin() + i, c.begin() + i + len);
            if (attempt(c)) progress = true; else i += len;
          }
        for (size_t len : {32, 8, 1})
          for (size_t i = 0; i < best.size() && now() - t0 < limit; i += len) {
            auto c = best; bool any = false; for (size_t j = i; j < std::min(best.size(), i + len); ++j) { if (c[j]) any = true; c[j] = 0; }
            if (any && attempt(c)) progress = true;
          }
        for (size_t i = 0; i < best.size() && now() - t0 < limit; ++i) {
          uint64_t lo = 0, hi = best[i];
          int steps = 0;
          while (hi > 0 && lo < hi && steps++ < 12 && i < best.size() && now() - t0 < limit) {
            uint64_t m = lo + (hi - lo) / 2; auto c = best; c[i] = m;
            if (attempt(c)) { progress = true; if (i >= best.size()) break; hi = best[i]; } else lo = m + 1;
          }
        }
      }
    }
    std::ofstream f(a["--out"]);
    f << "sub " << subs()[sub].name << "\n";
    if (canShrink) { f << "choices"; for (auto c : best) f << " " << c; f << "\n"; } else f << "seed " << seed << "\n";
    auto cm = [&](std::string const& s) { std::istringstream is(s); std::string l; while (std::getline(is, l)) f << "# " << l << "\n"; };
    f << "# outcome " << outcomeName(o) << " tag " << tag << "\n"; cm(msg); cm(note);
    f << "# shrink attempts " << tries << "\n";
    f.close();
    std::cout << "OUTCOME " << outcomeName(o) << "\nTAG " << tag << "\nMSG " << msg << "\nCASE " << note << "\n";
    return 1;
  }
  return 2;
}
}  // namespace pbt
