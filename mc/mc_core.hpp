// Exhaustive explorer: stateless depth-first search over choice sequences, counters, violations,
// known findings, replay and evidence.
#pragma once
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#include <array>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Stats {
  uint64_t executions = 0;    // complete executions of the implementation
  uint64_t transitions = 0;   // choice points answered / operations applied
  uint64_t checks = 0;        // oracle evaluations
  uint64_t capped = 0;        // executions in which the choice horizon was hit
  uint64_t violations = 0;
  uint64_t known = 0;
  std::unordered_set<uint64_t> states;    // distinct observed states / outcomes (hashed)
  std::unordered_set<uint64_t> outcomes;  // distinct final outcomes (hashed)
  std::vector<std::string> samples;
  std::vector<std::string> notes;
  std::map<std::string, uint64_t> per;    // executions per sub-harness
};

struct Choice { int n, c, def; };

struct Ctx {
  Stats st;
  std::string prop = "P00", tier = "quick", outjson, replaydir = "/verif/replays", only;
  long seed = 1;
  bool replaying = false;          // --replay FILE
  std::string replay_sub, replay_cfg;
  std::vector<int> replay_choices;
  // current execution
  bool active = false;             // choice points enumerate (else: default answer)
  std::vector<int> prefix;
  std::vector<Choice> trail;
  size_t pos = 0;
  size_t horizon = 64;             // choices enumerated per execution; later answers rotate
  int max_dev = 1 << 30;           // deviation bound
  double budget = 0;               // > 0: explore() picks the largest deviation bound whose estimated number of executions is within it
  uint64_t draws = 0, draw_limit = 200000;
  uint64_t rot = 0;
  bool hit_horizon = false;
  bool echo = false;               // answer from a recorded trail instead of branching (paired runs)
  std::vector<Choice> echo_trail;
  size_t echo_pos = 0;
  bool echo_diverged = false;
  std::string unit, sub, cfg;            // current sub-harness and configuration (text)
  std::vector<double> real_menu{0.0, 0.25, 0.5, 0.75, 1.0 - 1.0 / 9007199254740992.0};
  double real_default = 0.5;
  std::vector<double> norm_menu{-1.0, 0.0, 1.0};
  std::set<std::string> known_keys;   // from known_findings.txt: property|key
  std::set<std::string> reported_known, reported_viol;
  int max_reports = 5;
  int hang_seconds = 20;
  int rank = 0, nranks = 1;
};
inline Ctx &ctx() { static Ctx *c = new Ctx; return *c; }
inline Stats &stats() { return ctx().st; }

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
inline uint64_t h64(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
inline uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline void state(uint64_t h) { auto &s = stats().states; if (s.size() < 20000000) s.insert(h); }
inline void outcome(uint64_t h) { auto &s = stats().outcomes; if (s.size() < 20000000) s.insert(h); }
inline void sample(const std::string &s) { if (stats().samples.size() < 12) stats().samples.push_back(s); }

std::string write_replay(const std::string &msg);
void finish_abnormal(const char *why);

struct Stop {};  // thrown to abandon an execution (never through noexcept code)

// report a violation of the current execution. key identifies known findings.
inline void violation(const std::string &key, const std::string &msg) {
  auto &c = ctx();
  if (c.known_keys.count(c.prop + "|" + key)) {
    c.st.known++;
    if (c.reported_known.insert(key).second)
      printf("KNOWN-FINDING: property=%s %s (%s)\n", c.prop.c_str(), key.c_str(), msg.c_str());
    return;
  }
  c.st.violations++;
  if (c.reported_viol.insert(c.sub + "|" + key).second && (int)c.reported_viol.size() <= c.max_reports) {
    const std::string p = write_replay(key + ": " + msg);
    printf("VIOLATION property=%s replay=%s\n  [%s] cfg{%s} %s: %s\n", c.prop.c_str(), p.c_str(), c.sub.c_str(), c.cfg.c_str(), key.c_str(), msg.c_str());
    fflush(stdout);
  }
}
// clause of one property: evaluated only when that property is being checked
#define MC_P(prop_, cond, key, ...)                                           \
  do {                                                                         \
    if (::mc::ctx().prop == prop_) {                                           \
      ::mc::stats().checks++;                                                  \
      if (!(cond)) ::mc::violation(key, ::mc::fmt(__VA_ARGS__));               \
    }                                                                          \
  } while (0)
#define MC_CHECK(cond, key, ...)                                              \
  do {                                                                         \
    ::mc::stats().checks++;                                                    \
    if (!(cond)) ::mc::violation(key, ::mc::fmt(__VA_ARGS__));                 \
  } while (0)

inline void draw_tick() {
  auto &c = ctx();
  if (++c.draws > c.draw_limit) finish_abnormal("nontermination: the execution consumed more random draws than any terminating run can");
}

inline int choose(int n, int def = 0) {
  auto &c = ctx();
  if (n <= 1) return 0;
  if (c.echo) {
    if (c.echo_pos < c.echo_trail.size() && c.echo_trail[c.echo_pos].n == n) return c.echo_trail[c.echo_pos++].c;
    c.echo_diverged = true;
    return c.draws > 5000 ? int(c.rot++ % uint64_t(n)) : def;
  }
  if (c.pos < c.prefix.size()) {
    const int v = c.prefix[c.pos];
    if (v < 0 || v >= n) { fprintf(stderr, "mc: replay divergence at choice %zu (%d of %d) in %s {%s}\n", c.pos, v, n, c.sub.c_str(), c.cfg.c_str()); _exit(3); }
    c.trail.push_back({n, v, def}); c.pos++; c.st.transitions++;
    return v;
  }
  if (c.trail.size() >= c.horizon) { c.hit_horizon = true; return int(c.rot++ % uint64_t(n)); }
  c.trail.push_back({n, def, def}); c.pos++; c.st.transitions++;
  return def;
}

inline int env_choose(int n, int def) {
  draw_tick();
  if (def >= n) def = n - 1;
  if (def < 0) def = 0;
  auto &c = ctx();
  if (!c.active) return c.draws > 5000 ? int(c.rot++ % uint64_t(n)) : def;
  return choose(n, def);
}
inline double env_real() {
  draw_tick();
  auto &c = ctx();
  if (!c.active) return c.draws > 5000 ? c.real_menu[c.rot++ % c.real_menu.size()] : c.real_default;
  return c.real_menu[choose(int(c.real_menu.size()), 0)];
}
inline double env_normal() {
  draw_tick();
  auto &c = ctx();
  if (!c.active) return c.draws > 5000 ? c.norm_menu[c.rot++ % c.norm_menu.size()] : 0.0;
  return c.norm_menu[choose(int(c.norm_menu.size()), 0)];
}
inline void env_shuffle_begin(int) {}
inline int env_shuffle_pick(int n) {
  draw_tick();
  auto &c = ctx();
  if (!c.active) return c.draws > 5000 ? int(c.rot++ % uint64_t(n)) : n - 1;
  return n - 1 - choose(n, 0);
}

// a second run of (a variant of) the implementation under the very same environment answers
inline void echo_begin() { auto &c = ctx(); c.echo = true; c.echo_trail = c.trail; c.echo_pos = 0; c.echo_diverged = false; c.draws = 0; }
inline bool echo_end() { auto &c = ctx(); c.echo = false; return !c.echo_diverged && c.echo_pos == c.echo_trail.size(); }

inline void tick_alarm() { itimerval t{}; t.it_value.tv_sec = ctx().hang_seconds; setitimer(ITIMER_REAL, &t, nullptr); }

// next prefix in depth-first order, under the deviation bound; false when exhausted.
// Alternatives are enumerated in the order def, then 0..n-1 without def.
inline int rankOf(const Choice &k, int v) { return v == k.def ? 0 : (v < k.def ? v + 1 : v); }
inline int valOf(const Choice &k, int r) { return r == 0 ? k.def : (r <= k.def ? r - 1 : r); }
inline bool next_prefix(size_t base) {
  auto &c = ctx();
  auto &t = c.trail;
  std::vector<int> devs(t.size() + 1, 0);
  for (size_t i = 0; i < t.size(); i++) devs[i + 1] = devs[i] + (t[i].c != t[i].def);
  for (size_t i = t.size(); i-- > base;) {
    const int r = rankOf(t[i], t[i].c) + 1;
    if (r >= t[i].n) continue;
    if (devs[i] + 1 > c.max_dev) continue;
    c.prefix.resize(i + 1);
    for (size_t j = 0; j < i; j++) c.prefix[j] = t[j].c;
    c.prefix[i] = valOf(t[i], r);
    return true;
  }
  return false;
}

inline void begin_exec() {
  auto &c = ctx();
  c.trail.clear(); c.pos = 0; c.draws = 0; c.rot = 0; c.hit_horizon = false; c.active = false; c.echo = false;
}

// run body() for every choice sequence
template <class F> inline void explore(const std::string &sub, const std::string &cfg, F &&body) {
  auto &c = ctx();
  c.sub = sub; c.cfg = cfg;
  if (c.replaying) {
    if (c.replay_sub != sub || c.replay_cfg != cfg) return;
    c.prefix = c.replay_choices; c.horizon = std::max(c.horizon, c.prefix.size());
    begin_exec(); tick_alarm(); body(); c.st.executions++;
    return;
  }
  c.prefix.clear();
  static const bool timing = getenv("MC_TIME") != nullptr;
  const uint64_t e0 = c.st.executions; const clock_t t0 = clock();
  do {
    begin_exec();
    tick_alarm();
    body();
    c.active = false;
    c.st.executions++;
    if (c.hit_horizon) c.st.capped++;
    if (c.st.violations > 200) break;
    if (c.budget > 0 && c.st.executions == e0 + 1) {
      std::vector<double> e{1}; for (auto &k : c.trail) { e.push_back(0); for (size_t i = e.size() - 1; i > 0; i--) e[i] += e[i - 1] * (k.n - 1); }
      double sum = 1; c.max_dev = 0; while (size_t(c.max_dev) + 1 < e.size() && (c.max_dev < 1 || sum + e[c.max_dev + 1] <= c.budget)) sum += e[++c.max_dev];
    }
  } while (next_prefix(0));
  if (timing) fprintf(stderr, "%8.2f s %9llu %s {%s}\n", double(clock() - t0) / CLOCKS_PER_SEC, (unsigned long long)(c.st.executions - e0), sub.c_str(), cfg.c_str());
}
template <class F> inline void once(const std::string &sub, const std::string &cfg, F &&body) { explore(sub, cfg, std::forward<F>(body)); }

// probability of the current execution when every menu entry / permutation is equally likely
inline double trail_prob() {
  double p = 1;
  for (auto &k : ctx().trail) p /= k.n;
  return p;
}
inline std::string trail_str() {
  std::string s;
  for (auto &k : ctx().trail) { if (!s.empty()) s += ' '; s += std::to_string(k.c); }
  return s;
}
inline std::string write_replay(const std::string &msg) {
  auto &c = ctx();
  const std::string id = fmt("%s-%016llx.replay", c.prop.c_str(), (unsigned long long)hstr(c.sub + c.cfg + trail_str()));
  const std::string path = c.replaydir + "/" + id;
  if (FILE *f = fopen(path.c_str(), "w")) {
    fprintf(f, "property %s\nunit %s\nsub %s\ncfg %s\nchoices %s\nwhy %s\n", c.prop.c_str(), c.unit.c_str(), c.sub.c_str(), c.cfg.c_str(), trail_str().c_str(), msg.c_str());
    fclose(f);
  }
  return path;
}

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 0x20) o += fmt("\\u%04x", ch);
    else if (ch >= 0x80) o += fmt("\\u%04x", ch);
    else o += ch;
  }
  return o;
}
inline void dump_json() {
  auto &c = ctx();
  if (c.outjson.empty()) return;
  FILE *f = fopen(c.outjson.c_str(), "w");
  if (!f) return;
  auto &s = c.st;
  fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"checks\":%llu,\"capped\":%llu,\"violations\":%llu,\"known\":%llu,\"states\":%zu,\"outcomes\":%zu,",
          (unsigned long long)s.executions, (unsigned long long)s.transitions, (unsigned long long)s.checks, (unsigned long long)s.capped,
          (unsigned long long)s.violations, (unsigned long long)s.known, s.states.size(), s.outcomes.size());
  fprintf(f, "\"samples\":[");
  for (size_t i = 0; i < s.samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(s.samples[i]).c_str());
  fprintf(f, "],\"notes\":[");
  for (size_t i = 0; i < s.notes.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(s.notes[i]).c_str());
  fprintf(f, "],\"per\":{");
  bool first = true;
  for (auto &p : s.per) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "}}\n");
  fclose(f);
}

// A crash, hang or sanitizer report inside the implementation is a violation of the property being
// checked (memory-safe, terminating execution is part of every statement).
inline void finish_abnormal(const char *why) {
  static volatile sig_atomic_t again = 0;
  if (again) _exit(2);
  again = 1;
  violation("abnormal", why);
  fflush(stdout);
  dump_json();
  _exit(1);
}
inline void on_signal(int sig) {
  finish_abnormal(sig == SIGALRM ? "hang: execution did not finish within its time limit"
                  : sig == SIGABRT ? "abort/assertion failure/sanitizer report inside the implementation"
                  : sig == SIGFPE ? "SIGFPE inside the implementation"
                                  : "memory fault inside the implementation");
}

inline void section(const std::string &name, const std::function<void()> &f) {
  auto &c = ctx();
  if (!c.only.empty() && c.only != name) return;
  const uint64_t e0 = c.st.executions;
  f();
  c.st.per[name] += c.st.executions - e0;
}

inline bool thorough() { return ctx().tier == "thorough"; }

inline void load_known(const char *path) {
  FILE *f = fopen(path, "r");
  if (!f) return;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    // format:  finding: property=ID key=KEY ...
    char id[64], key[512];
    if (sscanf(line, "finding: property=%63s key=%511s", id, key) == 2) ctx().known_keys.insert(std::string(id) + "|" + key);
  }
  fclose(f);
}

int main_impl();

}  // namespace mc

#ifdef MC_MAIN
extern "C" const char *__asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=1"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=0"; }
int main(int argc, char **argv) {
  using namespace mc;
  auto &c = ctx();
  const char *known = "/verif/known_findings.txt";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char * { return ++i < argc ? argv[i] : ""; };
    if (a == "--prop") c.prop = val();
    else if (a == "--tier") c.tier = val();
    else if (a == "--seed") c.seed = atol(val());
    else if (a == "--out") c.outjson = val();
    else if (a == "--replaydir") c.replaydir = val();
    else if (a == "--known") known = val();
    else if (a == "--only") c.only = val();
    else if (a == "--unit") c.unit = val();
    else if (a == "--rank") c.rank = atoi(val());
    else if (a == "--nranks") c.nranks = atoi(val());
    else if (a == "--replay") {
      c.replaying = true;
      FILE *f = fopen(val(), "r");
      if (!f) { perror("replay"); return 2; }
      char line[65536];
      while (fgets(line, sizeof line, f)) {
        std::string l = line;
        while (!l.empty() && (l.back() == '\n')) l.pop_back();
        if (l.rfind("sub ", 0) == 0) c.replay_sub = l.substr(4);
        if (l.rfind("cfg ", 0) == 0) c.replay_cfg = l.substr(4);
        if (l.rfind("choices", 0) == 0) { const char *p = l.c_str() + 7; char *e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; c.replay_choices.push_back((int)v); p = e; } }
      }
      fclose(f);
    }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  load_known(known);
  static char altstack[1 << 16]; stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  main_impl();
  itimerval t{}; setitimer(ITIMER_REAL, &t, nullptr);
  dump_json();
  return c.st.violations ? 1 : 0;
}
#endif
