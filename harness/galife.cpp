// A04 (generation protocol) and A05 (evaluate once): every genetic solver family through its public interface,
// with logging callbacks; every crossover / mutation / selection answer is enumerated.
#include <HeuristicFlow/Global>
#include <HeuristicFlow/SimpleMatrix>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
using namespace heu;
using std::string; using std::vector;
typedef vector<double> Vec;

struct Ind { int id = -1; int chk = 0; vector<int> load; };
static int seal(int i) { return i * 7919 + 13; }
struct Args { int tag = 0; };
enum { INIT, EVAL, CROSS, MUT };
struct Ev { int kind, a, b, c, d; };
struct World {
  vector<Ev> log; vector<int> evals; int next = 0, patt = 0; bool badArg = false, badVar = false, alias = false;
  const void *solverArgs = nullptr; int tag = 0;
  int fresh(Ind *v) { v->id = next++; v->chk = seal(v->id); v->load.assign(3, v->id); evals.push_back(0); return v->id; }
  void look(const Ind *v) { if (v->id < 0 || v->id >= next || v->chk != seal(v->id) || v->load != vector<int>(3, v->id)) badVar = true; }
  void arg(const Args *a) { if (a != solverArgs || !a || a->tag != tag) badArg = true; }
  double f(int id, int k) const { static const double T[3][6] = {{1, 2, 3, 4, 5, 6}, {2, 2, 2, 2, 2, 2}, {3, 1, 2, 3, 0.5, 2}}; return patt == 0 ? (k ? -1.0 : 1.0) * id : T[patt][(id * (k + 1) + k) % 6]; }
} W;
static void put(double *f, int id) { *f = W.f(id, 0); }
template <class A> static void put(A *f, int id) { for (int k = 0; k < (int)f->size(); k++) (*f)[k] = W.f(id, k); }
static void iF(Ind *v) { W.log.push_back({INIT, W.fresh(v), 0, 0, 0}); }
template <class Fit> static void fF(const Ind *v, Fit *f) { W.look(v); if (v->id >= 0 && v->id < W.next) W.evals[v->id]++; W.log.push_back({EVAL, v->id, 0, 0, 0}); put(f, v->id); }
static void cF(const Ind *p, const Ind *q, Ind *c, Ind *d) {
  W.look(p); W.look(q);
  if (p == q || c == d || c == p || c == q || d == p || d == q) W.alias = true;
  const int a = p->id, b = q->id; W.fresh(c); W.fresh(d); W.log.push_back({CROSS, a, b, c->id, d->id});
}
static void mF(const Ind *s, Ind *d) { W.look(s); if (s == d) W.alias = true; const int a = s->id; W.fresh(d); W.log.push_back({MUT, a, 0, d->id, 0}); }
static void iFa(Ind *v, const Args *a) { W.arg(a); iF(v); }
template <class Fit> static void fFa(const Ind *v, const Args *a, Fit *f) { W.arg(a); fF<Fit>(v, f); }
static void cFa(const Ind *p, const Ind *q, Ind *c, Ind *d, const Args *a) { W.arg(a); cF(p, q, c, d); }
static void mFa(const Ind *s, Ind *d, const Args *a) { W.arg(a); mF(s, d); }

typedef Eigen::Array<double, 2, 1> A2;
typedef Eigen::Array<double, Eigen::Dynamic, 1> AX;

// ---- solver variants ----
template <class S> constexpr bool isSO = std::is_same<typename std::decay<decltype(std::declval<S>().bestFitness())>::type, double>::value;
template <class S> auto rp(S &s, int) -> decltype(s.setReferencePointPrecision(2, 3), void()) { s.setReferencePointPrecision(2, 3); }
template <class S> auto rp(S &s, long) -> decltype(s.setReferencePointPrecision(3), void()) { s.setReferencePointPrecision(3); }
template <class S> void rp(S &, ...) {}
template <class S> auto tsize(S &s, int) -> decltype(s.setTournamentSize(2), void()) { s.setTournamentSize(2); }
template <class S> void tsize(S &, ...) {}
template <class S> void prep(S &s, int M) {
  rp(s, 0); tsize(s, 0);
  typedef typename std::decay<decltype(std::declval<S>().bestFitness())>::type Fit;
  if constexpr (S::iFunAtCompileTime == nullptr) {
    if constexpr (S::HasParameters) { s.setiFun(iFa); s.setfFun(fFa<Fit>); s.setcFun(cFa); s.setmFun(mFa); }
    else { s.setiFun(iF); s.setfFun(fF<Fit>); s.setcFun(cF); s.setmFun(mF); }
  }
  if constexpr (S::HasParameters) { Args a; a.tag = 4242; s.setArgs(a); W.solverArgs = &s.args(); W.tag = 4242; }
  if constexpr (std::is_same<Fit, AX>::value) s.setObjectiveNum(M);
  (void)M;
}
template <class S> auto sgen(S &s) { return s.generation(); }

struct GenLog { vector<std::array<int, 4>> cross; vector<std::array<int, 2>> mut; vector<int> eval; };
// split the log of a run into: evaluation block, crossover block, mutation block, evaluation block, ...
static bool splitLog(const vector<Ev> &log, size_t from, vector<GenLog> &g) {
  g.clear(); g.push_back({}); int phase = EVAL; bool ok = true;
  for (size_t i = from; i < log.size(); i++) {
    const Ev &e = log[i];
    if (e.kind == INIT) { ok = false; continue; }
    if (e.kind == EVAL) { if (phase != EVAL) { g.push_back({}); phase = EVAL; } g.back().eval.push_back(e.a); }
    if (e.kind == CROSS) { if (phase == MUT) ok = false; phase = CROSS; g.back().cross.push_back({e.a, e.b, e.c, e.d}); }
    if (e.kind == MUT) { phase = MUT; g.back().mut.push_back({e.a, e.c}); }
  }
  return ok;
}
template <class S> void population(S &s, const char *when, bool computed) {
  typedef typename std::decay<decltype(s.bestFitness())>::type Fit;
  for (auto &g : s.population()) {
    W.look(&g.decision_variable);
    const int id = g.decision_variable.id; bool same = g.is_fitness_computed;
    if (id >= 0 && id < W.next && same) { Fit f = g.fitness; put(&f, id); if constexpr (isSO<S>) same = f == g.fitness; else same = (f == g.fitness).all(); }
    if (computed) MC_P("A05", same, "fitness", "%s: a member's fitness is missing or not the fitness function's value of its variable", when);
  }
}

static double binom(int n, int k, double p) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r * std::pow(p, k) * std::pow(1 - p, n - k); }
// exact law of the set of unordered pairs mated: members join independently with probability p, an odd one
// out is uniform, the matching is uniform
static void matchLaw(vector<int> ids, double pr, string key, std::map<string, double> &out) {
  if (ids.size() < 2) { out[key] += pr; return; }
  const int a = ids[0]; const double q = pr / (ids.size() - 1);
  for (size_t j = 1; j < ids.size(); j++) { vector<int> r; for (size_t k = 1; k < ids.size(); k++) if (k != j) r.push_back(ids[k]); matchLaw(r, q, key + mc::fmt("%d-%d ", a, ids[j]), out); }
}
static std::map<string, double> crossLaw(int n, double p) {
  std::map<string, double> out;
  for (int m = 0; m < (1 << n); m++) {
    vector<int> s; for (int i = 0; i < n; i++) if (m >> i & 1) s.push_back(i);
    const double pr = std::pow(p, s.size()) * std::pow(1 - p, n - (int)s.size());
    if (s.size() % 2 == 0) matchLaw(s, pr, "", out);
    else for (size_t d = 0; d < s.size(); d++) { vector<int> r = s; r.erase(r.begin() + d); matchLaw(r, pr / s.size(), "", out); }
  }
  return out;
}

// first generation: exact law of crossover and mutation
template <class S> void law(const char *name, int n, int Q, double pc, double pm, int M = 2) {
  auto &c = mc::ctx();
  c.real_menu.clear(); for (int i = 0; i < Q; i++) c.real_menu.push_back((i + 0.5) / Q);
  c.max_dev = 1 << 30; c.horizon = 64;
  std::map<string, double> got; std::map<string, std::map<string, double>> gotMut; std::map<string, int> popAt;
  mc::explore(string("law-") + name, mc::fmt("n=%d pc=%g pm=%g Q=%d", n, pc, pm, Q), [&] {
    W = World(); S s; prep(s, M);
    GAOption o; o.populationSize = n; o.maxGenerations = 1; o.maxFailTimes = 0; o.crossoverProb = pc; o.mutateProb = pm; s.setOption(o);
    s.initializePop();
    c.active = true; s.run(); c.active = false;
    vector<GenLog> g; const bool ok = splitLog(W.log, n, g);
    MC_P("A04", ok, "order", "callbacks out of order: evaluation, then crossover, then mutation");
    string key, mk; std::set<int> used; bool once = true, member = true; vector<string> prs; const int total = n + 2 * (int)g[0].cross.size();
    for (auto &x : g[0].cross) { for (int k : {0, 1}) { once &= used.insert(x[k]).second; member &= x[k] < n; } prs.push_back(mc::fmt("%d-%d ", std::min(x[0], x[1]), std::max(x[0], x[1]))); }
    std::sort(prs.begin(), prs.end()); for (auto &x : prs) key += x;
    std::set<int> ms; for (auto &x : g[0].mut) { once &= ms.insert(x[0]).second; member &= x[0] < total; }
    for (int i : ms) mk += mc::fmt("%d ", i);
    MC_P("A04", once && member, "once", "an individual took part twice in one crossover or mutation round, or is not a member");
    got[key] += mc::trail_prob(); gotMut[key][mk] += mc::trail_prob(); popAt[key] = total;
    mc::state(mc::hstr(key + "|" + mk)); mc::outcome(mc::hstr(key + "|" + mk));
    if (c.rank == 0 && c.st.executions % 9973 == 0) mc::sample(mc::fmt("%s n=%d crossover pairs [%s] mutated [%s] p=%.3g", name, n, key.c_str(), mk.c_str(), mc::trail_prob()));
  });
  if (c.replaying || c.prop != "A04" || c.st.capped) return;
  auto want = crossLaw(n, pc);
  for (auto &w : want) MC_P("A04", std::abs(got[w.first] - w.second) < 1e-9, "crosslaw", "%s n=%d: crossover pairs {%s} have probability %.6f, crossoverProb %g gives %.6f", name, n, w.first.c_str(), got[w.first], pc, w.second);
  for (auto &g : gotMut) {
    const int t = popAt[g.first];
    for (int m = 0; m < (1 << t); m++) {
      string mk; for (int i = 0; i < t; i++) if (m >> i & 1) mk += mc::fmt("%d ", i);
      const double w = got[g.first] * std::pow(pm, __builtin_popcount(m)) * std::pow(1 - pm, t - __builtin_popcount(m));
      const double x = g.second.count(mk) ? g.second[mk] : 0;
      MC_P("A04", std::abs(x - w) < 1e-9, "mutlaw", "%s n=%d: mutating {%s} after crossover {%s} has probability %.8f, mutateProb %g gives %.8f", name, n, mk.c_str(), g.first.c_str(), x, pm, w);
    }
  }
}

// several generations: protocol, counters, evaluate once
template <class S> void life(const char *name, int n, int gens, double pc, double pm, int dev, int patt, int runs, int maxFail = 0, int M = 2, bool draws = false) {
  auto &c = mc::ctx();
  c.real_menu = {0.5, 0.01, 0.99}; c.max_dev = dev; c.horizon = draws ? 64 : 400;
  mc::explore(string("life-") + name, mc::fmt("n=%d gens=%d pc=%g pm=%g patt=%d runs=%d fail=%d", n, gens, pc, pm, patt, runs, maxFail), [&] {
    W = World(); W.patt = patt; S s; prep(s, M);
    GAOption o; o.populationSize = n; o.maxGenerations = gens; o.maxFailTimes = maxFail; o.crossoverProb = pc; o.mutateProb = pm; s.setOption(o);
    for (int r = 0; r < runs; r++) {
      const bool reinit = r != 1;  // the second run continues with the survivors
      vector<int> e0;
      size_t mark = W.log.size();
      if (reinit) {
        s.initializePop();
        MC_P("A04", s.population().size() == size_t(n) && W.log.size() == mark + n, "init", "initializePop made %zu members with %zu initialisations, populationSize %d", s.population().size(), W.log.size() - mark, n);
        std::set<int> ids; for (auto &g : s.population()) { ids.insert(g.decision_variable.id); MC_P("A05", !g.is_fitness_computed, "initflag", "a freshly initialised individual is marked as evaluated"); }
        MC_P("A04", (int)ids.size() == n, "initid", "initializePop initialised an individual twice");
        mark = W.log.size();
      }
      std::multiset<int> before; for (auto &g : s.population()) before.insert(g.decision_variable.id);
      c.active = true; s.run(); c.active = false;
      vector<GenLog> g; const bool ok = splitLog(W.log, mark, g);
      MC_P("A04", ok, "order", "callbacks out of order: evaluation, then crossover, then mutation");
      const bool so = isSO<S>;
      MC_P("A04", s.generation() <= size_t(gens) && (s.generation() == size_t(gens) || (so && maxFail > 0 && s.failTimes() == size_t(maxFail) + 1)), "gens", "run() ended after %zu generations with %zu fails; limits %d generations, %d fails", s.generation(), s.failTimes(), gens, maxFail);
      // number of variation rounds = generations; with pc = pm = 1 every round is visible in the log
      if (pc == 1 && pm == 1) MC_P("A04", g.size() == s.generation() + 1, "rounds", "%zu evaluation rounds in %zu generations", g.size(), s.generation());
      MC_P("A04", s.population().size() == size_t(n), "popsize", "population has %zu members after run(), populationSize %d", s.population().size(), n);
      // every individual in the log must have been evaluated before it takes part in variation, children are new
      vector<char> done(W.next, 0); std::set<int> children; bool evalFirst = true, fromPop = true; std::set<int> known(before.begin(), before.end());
      if (!reinit) for (int i : before) done[i] = 1;
      size_t born = 0;
      for (auto &q : g) {
        for (int i : q.eval) if (i >= 0 && i < W.next) { done[i] = 1; fromPop &= known.count(i) > 0; }
        std::set<int> now;
        for (auto &x : q.cross) { for (int k : {0, 1}) { evalFirst &= done[x[k]] != 0; fromPop &= known.count(x[k]) > 0; } for (int k : {2, 3}) { known.insert(x[k]); now.insert(x[k]); born++; } }
        for (auto &x : q.mut) { if (!now.count(x[0])) evalFirst &= done[x[0]] != 0; fromPop &= known.count(x[0]) > 0; known.insert(x[1]); born++; }
      }
      MC_P("A04", fromPop, "member", "variation or evaluation used an individual that is not in the population");
      MC_P("A05", evalFirst, "beforeuse", "an individual survived selection without having been evaluated");
      bool onceEach = true; for (int i = 0; i < W.next; i++) if (known.count(i)) onceEach &= W.evals[i] == 1;
      MC_P("A05", onceEach, "once", "an individual was evaluated %s", "never or more than once");
      population(s, "after run()", true);
      MC_P("A05", !W.badVar, "intact", "a decision variable reached a callback or stayed in the population altered");
      MC_P("A04", !W.alias, "alias", "parent and child (or both children) were the same object");
      MC_P("A04", !W.badArg, "args", "a callback did not receive the solver's own arguments");
      if constexpr (std::is_base_of<internal::GABase<Ind, double, RECORD_FITNESS, internal::DefaultGene_t<Ind, double>, void, nullptr, nullptr, nullptr, nullptr>, S>::value)
        MC_P("A04", s.record().size() == s.generation() + 1, "record", "%zu record entries after %zu generations", s.record().size(), s.generation());
      uint64_t h = mc::h64(born, s.generation()); for (auto &x : s.population()) h = mc::h64(h, x.decision_variable.id); mc::state(h); mc::outcome(h);
      mc::stats().transitions += g.size();
    }
    if (c.rank == 0 && c.st.executions % 4999 == 0) mc::sample(mc::fmt("%s n=%d: %zu callbacks, %d individuals created, final generation %zu", name, n, W.log.size(), W.next, s.generation()));
  });
}

template <class S> void all(const char *name, bool withLaw, int dev, bool draws) {
  auto &c = mc::ctx(); const bool th = mc::thorough(); static int slot = 0;
  auto mine = [&] { return c.replaying || (slot++ % c.nranks) == c.rank; };
  if (withLaw && c.prop == "A04") {
    for (auto pp : {std::pair<double, double>{.5, .5}, {.25, .75}, {.75, .25}, {0., 1.}, {1., 0.}, {0, 0}, {1, 1}}) {
      const bool quarter = pp.first == .25 || pp.first == .75;
      for (int n : {2, 3, 4}) { if (quarter && n > (th ? 3 : 2)) continue; if (mine()) law<S>(name, n, quarter ? 4 : pp.first == .5 ? 2 : 1, pp.first, pp.second); }
    }
    if (th && mine()) law<S>(name, 5, 2, .5, .5);
  }
  for (int patt = 0; patt < 3; patt++) for (int runs : {1, 3}) for (int n : {2, 3, 4}) for (int gens : {0, 1, 2, 4}) for (int fail : {0, 1, 2}) for (auto pp : {std::pair<double, double>{.5, .5}, {1, 1}, {0, 0.3}}) {
    if (fail && gens < 4) continue;
    if (n == 2 && string(name).find("tournament") != string::npos) continue;  // tournamentSize must be less than the population size
    if (!th && (fail == 2 || (patt == 1 && (runs == 3 || pp.first == 0)) || (n == 4 && (runs == 3 || gens == 1)))) continue;
    int d = pp.first == 0 ? dev : dev; if (draws && n == 4) d--; if (runs == 3) d--; if (gens == 4) d--; if (th) d++;
    if (mine()) life<S>(name, n, gens, pp.first, pp.second, std::max(d, 1), patt, runs, fail, 2, draws);
  }
}

int mc::main_impl() {
#if PART == 0
  section("soga-trunc", [] { all<SOGA<Ind, FITNESS_LESS_BETTER, RECORD_FITNESS, Truncation>>("soga-truncation", true, 3, false); });
  section("soga-elite-args", [] { all<SOGA<Ind, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS, EliteReserved, Args, iFa, fFa<double>, cFa, mFa>>("soga-elite-args-ct", false, 2, true); });
  section("soga-tournament-ct", [] { all<SOGA<Ind, FITNESS_GREATER_BETTER, RECORD_FITNESS, Tournament, void, iF, fF<double>, cF, mF>>("soga-tournament-ct", false, 2, true); });
  section("soga-roulette-args", [] { all<SOGA<Ind, FITNESS_LESS_BETTER, RECORD_FITNESS, RouletteWheel, Args>>("soga-roulette-args", false, 2, true); });
#elif PART == 1
  section("nsga2", [] { all<NSGA2<Ind, 2, FITNESS_LESS_BETTER, RECORD_FITNESS>>("nsga2", true, 3, false); });
  section("nsga2-args-ct", [] { all<NSGA2<Ind, 2, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS, Args, iFa, fFa<A2>, cFa, mFa>>("nsga2-args-ct", false, 2, false); });
  section("nsga2-dynamic-args", [] { all<NSGA2<Ind, Eigen::Dynamic, FITNESS_LESS_BETTER, RECORD_FITNESS, Args>>("nsga2-dynamic-args", false, 2, false); });
#elif PART == 3
  section("serial-soga", [] { all<SOGA<Ind, FITNESS_LESS_BETTER, RECORD_FITNESS, Truncation, Args>>("serial-soga-args", false, 2, false); });
  section("serial-nsga2", [] { all<NSGA2<Ind, 2, FITNESS_LESS_BETTER, RECORD_FITNESS>>("serial-nsga2", false, 1, false); });
#else
  section("nsga3", [] { all<NSGA3<Ind, 2, RECORD_FITNESS, SINGLE_LAYER>>("nsga3", false, 2, true); });
  section("nsga3-args-ct", [] { all<NSGA3<Ind, 2, DONT_RECORD_FITNESS, DOUBLE_LAYER, Args, iFa, fFa<A2>, cFa, mFa>>("nsga3-args-ct", false, 2, true); });
#endif
  return 0;
}
