// L01: a solver's run depends only on its configuration and the random answers.  Every bounded history of calls is
// driven into a solver (and into neighbours alive beside it); then it is configured and initialised, and its run is
// compared with that of a newly built solver under the same answers.
#include <HeuristicFlow/Global>
#include <HeuristicFlow/SimpleMatrix>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
using namespace heu;
using std::string; using std::vector;
extern "C" int rand(void) noexcept { const double q = mc::env_real(); return int(q * RAND_MAX); }
typedef vector<double> Vec;
typedef Eigen::Array<double, 2, 1> A2;
typedef Eigen::Array<double, Eigen::Dynamic, 1> AX;

struct Ind { int id = -1; vector<int> load; };
struct Args { int shift = 0; };
struct World { int next = 0, M = 2; string log; void fresh(Ind *v) { v->id = next++; v->load.assign(3, v->id); } } W;
static void say(const char *k, double a, double b = 0) { W.log += mc::fmt("%s%.12g,%.12g ", k, a, b); }
static double fit(int id, int k, int alt) { static const double T[2][2][8] = {{{3, 1, 4, 1, 5, 9, 2, 6}, {2, 7, 1, 8, 2, 8, 1, 8}}, {{1, 6, 1, 8, 0, 3, 3, 9}, {5, 7, 7, 2, 1, 5, 6, 6}}}; return T[alt][k % 2][(id + 3 * (k / 2)) % 8]; }
static void iF(Ind *v) { W.fresh(v); say("i", v->id); }
template <int ALT> void put(double *f, int id) { *f = fit(id, 0, ALT); }
template <int ALT, class A> void put(A *f, int id) { for (int k = 0; k < (int)f->size(); k++) (*f)[k] = fit(id, k, ALT); }
template <class Fit, int ALT> static void fF(const Ind *v, Fit *f) { put<ALT>(f, v->id); say("e", v->id); }
static void cF(const Ind *p, const Ind *q, Ind *c, Ind *d) { const int a = p->id, b = q->id; W.fresh(c); W.fresh(d); say("c", a, b); }
static void cF2(const Ind *p, const Ind *q, Ind *c, Ind *d) { const int a = p->id, b = q->id; W.fresh(d); W.fresh(c); say("C", a, b); }
static void mF(const Ind *s, Ind *d) { const int a = s->id; W.fresh(d); say("m", a); }
static void mF2(const Ind *s, Ind *d) { const int a = s->id; W.fresh(d); say("M", a); }
static void iFa(Ind *v, const Args *a) { iF(v); say("a", a->shift); }
template <class Fit> void fFa(const Ind *v, const Args *a, Fit *f) { fF<Fit, 0>(v, f); say("a", a->shift); }
static void cFa(const Ind *p, const Ind *q, Ind *c, Ind *d, const Args *a) { cF(p, q, c, d); say("a", a->shift); }
static void mFa(const Ind *s, Ind *d, const Args *a) { mF(s, d); say("a", a->shift); }

// ---- genetic solvers: configuration, limits, observation ----
template <class S> auto rp(S &s, int x, int) -> decltype(s.setReferencePointPrecision(2, 3), void()) { s.setReferencePointPrecision(x ? 3 : 2, x ? 2 : 3); }
template <class S> auto rp(S &s, int x, long) -> decltype(s.setReferencePointPrecision(3), void()) { s.setReferencePointPrecision(x ? 2 : 4); }
template <class S> void rp(S &, int, ...) {}
template <class S> auto sm(S &s, int x, int) -> decltype(s.setSelectMethod(RouletteWheel), void()) { s.setSelectMethod(x ? Truncation : RouletteWheel); }
template <class S> void sm(S &, int, ...) {}
template <class S> auto ts(S &s, int x, int) -> decltype(s.setTournamentSize(2), void()) { s.setTournamentSize(x ? 2 : 3); }
template <class S> void ts(S &, int, ...) {}
template <class S> auto en(S &s, int x, int) -> decltype(s.setEliteNum(1), void()) { s.setEliteNum(x ? 1 : 2); }
template <class S> void en(S &, int, ...) {}
template <class S> auto bz(S &s, int x, int) -> decltype(s.setBoltzmannSelectStrength(1.), void()) { s.setBoltzmannSelectStrength(x ? 2 : -10); }
template <class S> void bz(S &, int, ...) {}
template <class S> auto lr(S &s, int x, int) -> decltype(s.setLinearSelectProbability(0., 1.), void()) { s.setLinearSelectProbability(x ? 0.1 : 0.4, x ? 0.9 : 0.6); }
template <class S> void lr(S &, int, ...) {}
template <class S> auto er(S &s, int x, int) -> decltype(s.setExponetialSelectBase(.5), void()) { s.setExponetialSelectBase(x ? 0.3 : 0.8); }
template <class S> void er(S &, int, ...) {}
template <class S> auto rps(S &s, int) -> decltype(s.referencePoints(), string()) { std::multiset<string> m; const auto &r = s.referencePoints(); for (int j = 0; j < r.cols(); j++) { string t; for (int i = 0; i < r.rows(); i++) t += mc::fmt("%.12g,", r(i, j)); m.insert(t); } string o; for (auto &t : m) o += t + ";"; return o; }
template <class S> string rps(S &, ...) { return ""; }
template <class T> struct isN3 { template <class S> static auto f(int) -> decltype(std::declval<S>().referencePoints(), std::true_type()); template <class S> static std::false_type f(...); static constexpr bool value = decltype(f<T>(0))::value; };
template <class S, bool PSIZE = true> struct GA {
  typedef typename std::decay<decltype(std::declval<S>().bestFitness())>::type Fit;
  static constexpr bool so = std::is_same<Fit, double>::value, n3 = isN3<S>::value;
  static void options(S &s, int x, int cut) { GAOption o; o.populationSize = !PSIZE ? 4 : x ? 3 : 4; o.maxGenerations = cut ? cut : x ? 2 : 3; o.maxFailTimes = x ? 0 : 2; o.crossoverProb = x ? 0.9 : 0.6; o.mutateProb = x ? 0.6 : 0.55; s.setOption(o); }
  static void configure(S &s, int x) {
    options(s, x, 0); rp(s, x, 0); sm(s, x, 0); ts(s, x, 0); en(s, x, 0); bz(s, x, 0); lr(s, x, 0); er(s, x, 0);
    if constexpr (S::iFunAtCompileTime == nullptr) {
      if constexpr (S::HasParameters) { s.setiFun(iFa); s.setfFun(fFa<Fit>); s.setcFun(cFa); s.setmFun(mFa); }
      else { s.setiFun(iF); s.setfFun(x ? fF<Fit, 1> : fF<Fit, 0>); s.setcFun(x ? cF2 : cF); s.setmFun(x ? mF2 : mF); }
    }
    if constexpr (S::HasParameters) { Args a; a.shift = 5 + x; s.setArgs(a); }
    if constexpr (std::is_same<Fit, AX>::value) s.setObjectiveNum(x ? 2 : 3);
  }
  // what a user sees.  With exact = false (NSGA3 breaks niching ties by addresses): only what does not depend on survivors
  static string look(S &s, bool exact) {
    string o = rps(s, 0) + mc::fmt("size%zu ", s.population().size());
    if (!n3) { std::multiset<int> ids; for (auto &g : s.population()) { ids.insert(g.decision_variable.id); if (!g.is_fitness_computed) o += "uncomputed "; } for (int i : ids) o += mc::fmt("%d ", i); o += mc::fmt("gen%zu fail%zu ", s.generation(), s.failTimes()); }
    if constexpr (so) { o += mc::fmt("best%.12g,%d ", s.bestFitness(), s.result().id); }
    else if (!n3) { std::multiset<string> fr; vector<std::pair<const Ind *, const Fit *>> pf; s.paretoFront(pf); for (auto &p : pf) { string t = mc::fmt("%d:", p.first->id); for (int k = 0; k < p.second->size(); k++) t += mc::fmt("%.12g,", (*p.second)[k]); fr.insert(t); } o += "front "; for (auto &t : fr) o += t + ";"; }
    (void)exact; return o + rec(s, 0);
  }
  template <class T> static auto rec(T &s, int) -> decltype(s.record(), string()) { if (n3) return ""; string o = "rec "; for (auto &r : s.record()) { if constexpr (so) o += mc::fmt("%.12g ", r); else for (int k = 0; k < r.size(); k++) o += mc::fmt("%.12g,", r[k]); } return o; }
  template <class T> static string rec(T &, ...) { return ""; }
};

// ---- box solvers ----
static double pfit(const Vec &x, int alt) { double f = 0; for (size_t i = 0; i < x.size(); i++) f += std::floor(std::abs(x[i] - (alt ? 0.6 : -0.3) * (i + 1)) * 2); return f; }
template <class V> Vec flat(const V &v) { Vec r; for (int i = 0; i < (int)v.size(); i++) r.push_back(v.data()[i]); return r; }
static string show(const Vec &v) { string s; for (double x : v) s += mc::fmt("%.12g,", x + 0.0); return s; }
template <class V, int ALT> void bF(const V *p, double *f) { const Vec x = flat(*p); *f = pfit(x, ALT); W.log += "e" + show(x) + " "; }
template <class V, class S> void shape(S &s, int d) { if constexpr (!array_traits<V>::isFixedSize) { if constexpr (array_traits<V>::isEigenClass && array_traits<V>::isMatrix) s.setDimensions(2, d / 2); else s.setDimensions(d); } }
template <class V> V mk(int d, double b, double k) { V v; if constexpr (!array_traits<V>::isFixedSize) { if constexpr (array_traits<V>::isEigenClass && array_traits<V>::isMatrix) v.resize(2, d / 2); else v.resize(d); } for (int i = 0; i < (int)v.size(); i++) v.data()[i] = b + k * i; return v; }
template <class S, class V, bool SQ> struct PS {
  static void options(S &s, int x, int cut) { PSOOption o; o.populationSize = x ? 2 : 3; o.maxGeneration = cut ? cut : x ? 3 : 2; o.maxFailTimes = x ? 1 : 0; o.inertiaFactor = x ? .5 : .8; o.learnFactorP = x ? 1.5 : .7; o.learnFactorG = x ? .6 : 1.2; s.setOption(o); }
  static void configure(S &s, int x) { options(s, x, 0); const int d = x ? 4 : 2; shape<V>(s, d);
    if constexpr (SQ) s.setPVRange(x ? -1 : 0.5, x ? 2 : 1.5, x ? .5 : 2); else s.setPVRange(mk<V>(d, x ? -1 : .5, -.25), mk<V>(d, x ? 2 : 1.5, .5), mk<V>(d, x ? .5 : 2, .1));
    s.setfFun(x ? bF<V, 1> : bF<V, 0>); }
  static string look(S &s, bool) { string o; for (auto &p : s.population()) o += "x" + show(flat(p.position)) + "v" + show(flat(p.velocity)) + mc::fmt("f%.12g p", p.fitness) + show(flat(p.pBest.position)) + mc::fmt("%.12g ", p.pBest.fitness); o += "g" + show(flat(s.globalBest().position)) + mc::fmt("%.12g,%.12g gen%zu fail%zu rec ", s.globalBest().fitness, s.bestFitness(), s.generation(), s.failTimes()); for (double r : s.record()) o += mc::fmt("%.12g ", r); return o; }
};
template <class S, class V, int BOX> struct AO {
  static void options(S &s, int x, int cut) { AOSOption o; o.electronNum = x ? 3 : 4; o.maxGeneration = cut ? cut : x ? 2 : 3; o.maxEarlyStop = x ? 0 : 2; o.maxLayerNum = x ? 3 : 2; o.photonRate = x ? .5 : .3; s.setOption(o); }
  static void configure(S &s, int x) { options(s, x, 0); const int d = x ? 4 : 2; shape<V>(s, d);
    if constexpr (BOX == 2) { s.setMu(x ? 1 : -.5); s.setSigma(x ? .5 : 2); s.setDelta(x ? .5 : .25); } else if constexpr (BOX == 1) { s.setRange(x ? -1 : .5, x ? 2 : 1.5); s.setDelta(x ? .5 : .25); } else { s.setRange(mk<V>(d, x ? -1 : .5, -.25), mk<V>(d, x ? 2 : 1.5, .5)); s.setDelta(mk<V>(d, .25, .125)); }
    s.setfFun(x ? bF<V, 1> : bF<V, 0>); }
  static string look(S &s, bool) { string o; std::multiset<string> es; for (auto &e : s.electrons()) es.insert("x" + show(flat(e.state)) + mc::fmt("e%.12g ", e.energy)); for (auto &e : es) o += e; o += "layers "; for (auto &l : s.layers()) { std::multiset<string> m; for (auto *e : l) m.insert(show(flat(e->state))); for (auto &t : m) o += t + "|"; o += "; "; } o += mc::fmt("best%.12g,", s.bestElectron().energy) + show(flat(s.bestElectron().state)) + "bs" + show(flat(s.bindingState())) + mc::fmt("%.12g gen%zu fail%zu rec ", s.bindingEnergy(), s.generation(), s.earlyStopCounter()); for (double r : s.record()) o += mc::fmt("%.12g ", r); return o; }
};

enum { INIT0, INIT1, RUN, AGAIN, OPS };  // configure+initialise with configuration 0 / 1, run, run on with another generation limit
static string opname(const vector<int> &h) { string s; for (int o : h) s += "01RA"[o]; return s.empty() ? "-" : s; }
template <class T, class S> void apply(S &s, int op, int &cfg) {
  switch (op) { case INIT0: case INIT1: cfg = op; T::configure(s, op); s.initializePop(); break; case RUN: s.run(); break; case AGAIN: T::options(s, cfg, 1); s.run(); break; }
}
template <class S> constexpr auto requires_pop(int) -> decltype(std::declval<S&>().population(), bool()) { return true; }
template <class S> constexpr bool requires_pop(...) { return false; }
// the observed protocol: configure, initialise, run, run on
template <class T, class S> string protocol(S &s, int x, const std::function<void()> &between) {
  W.next = 0; string o; T::configure(s, x);
  W.log.clear(); s.initializePop(); o += "init[" + W.log + mc::fmt("]%zu ", [&] { if constexpr (requires_pop<S>(0)) return s.population().size(); else return s.electrons().size(); }());
  for (int k = 0; k < 2; k++) { const int nx = W.next; between(); W.next = nx; W.log.clear(); if (k) T::options(s, x, 1); s.run(); o += "run[" + (isN3<S>::value ? string() : W.log) + "] " + T::look(s, !isN3<S>::value); }
  return o;
}
template <class T, class S> void reuse(const char *name, int depth, int dev) {
  auto &c = mc::ctx(); c.real_menu = {0.5, 0.0, 1 - 1 / 9007199254740992.0, 0.25}; c.horizon = 4000;
  static int slot = 0; auto mine = [&] { return c.replaying || (slot++ % c.nranks) == c.rank; };
  vector<vector<int>> H{{}}; for (size_t i = 0; i < H.size(); i++) if ((int)H[i].size() < depth) for (int o = 0; o < OPS; o++) { if (H[i].empty() && o >= RUN) continue; auto h = H[i]; h.push_back(o); H.push_back(h); }
  for (auto &h : H) for (int x = 0; x < 2; x++) for (int mode = 0; mode < 3; mode++) {
    if (h.empty() && mode == 0) continue;
    if (!mine()) continue;
    c.max_dev = (int)h.size() == depth ? dev - 1 : dev;  // the longest histories with one deviation less
    mc::explore(string(mode == 0 ? "reused-" : mode == 1 ? "copied-" : "beside-") + name, mc::fmt("history=%s configuration=%d", opname(h).c_str(), x), [&] {
      string a, b; int cfg = 0; W = World();
      if (mode == 0) {                                       // the object itself has a past
        S s; for (int o : h) apply<T>(s, o, cfg);
        c.active = true; a = protocol<T>(s, x, [] {}); c.active = false;
      } else if (mode == 1) {                                // copied from / assigned a configured object that was never initialised
        S s; for (int o : h) apply<T>(s, o, cfg);
        { S t; T::configure(t, 1 - x); S u(t); s = u; }
        c.active = true; a = protocol<T>(s, x, [] {}); c.active = false;
      } else {                                               // a neighbour with a past of its own works in between
        S s; auto t = std::make_unique<S>(); int k = 0;
        for (int o : h) apply<T>(*t, o, cfg);
        c.active = true;
        a = protocol<T>(s, x, [&] { c.active = false; const string keep = W.log; if (k++ == 0) { apply<T>(*t, 1 - x, cfg); apply<T>(*t, RUN, cfg); } else t.reset(); W.log = keep; c.active = true; });
        c.active = false;
      }
      mc::echo_begin(); c.active = true; { S f; b = protocol<T>(f, x, [] {}); } c.active = false; const bool full = mc::echo_end();
      MC_P("L01", full || isN3<S>::value, "draws", "the run of the solver with the past takes other random decisions than the run of a new one: %s", a == b ? "" : (a.substr(0, 600) + " <> " + b.substr(0, 600)).c_str());
      MC_P("L01", a == b, "same", "with the past %s: %s; a new solver: %s", opname(h).c_str(), a.substr(0, 1500).c_str(), b.substr(0, 1500).c_str());
      mc::state(mc::hstr(a)); mc::outcome(mc::hstr(a));
      if (c.rank == 0 && c.st.executions % 4999 == 0) mc::sample(mc::fmt("%s history %s: ", name, opname(h).c_str()) + a.substr(0, 300));
    });
  }
}

int mc::main_impl() {
  const bool th = thorough(); const int D = th ? 4 : 3, d1 = th ? 2 : 1; (void)d1;
#if PART == 0
  section("soga", [&] { typedef SOGA<Ind, FITNESS_LESS_BETTER, RECORD_FITNESS, RunTimeSelectMethod> S; reuse<GA<S>, S>("soga-runtime", D, d1); });
  section("soga-args", [&] { typedef SOGA<Ind, FITNESS_GREATER_BETTER, RECORD_FITNESS, EliteReserved, Args> S; reuse<GA<S>, S>("soga-elite-args", D, d1); });
  section("soga-ct", [&] { typedef SOGA<Ind, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS, Boltzmann, void, iF, fF<double, 0>, cF, mF> S; reuse<GA<S>, S>("soga-boltzmann-ct", D, d1); });
  section("soga-linear", [&] { typedef SOGA<Ind, FITNESS_LESS_BETTER, RECORD_FITNESS, LinearRank> S; reuse<GA<S, false>, S>("soga-linear", D, d1); });
  section("soga-exponential", [&] { typedef SOGA<Ind, FITNESS_GREATER_BETTER, RECORD_FITNESS, ExponentialRank> S; reuse<GA<S, false>, S>("soga-exponential", D, d1); });
#elif PART == 1
  section("nsga2", [&] { typedef NSGA2<Ind, 2, FITNESS_LESS_BETTER, RECORD_FITNESS> S; reuse<GA<S>, S>("nsga2", D, d1); });
  section("nsga2-dyn", [&] { typedef NSGA2<Ind, Eigen::Dynamic, FITNESS_GREATER_BETTER, RECORD_FITNESS, Args> S; reuse<GA<S>, S>("nsga2-dynamic", D, d1); });
#elif PART == 2
  section("nsga3", [&] { typedef NSGA3<Ind, 2, RECORD_FITNESS, SINGLE_LAYER> S; reuse<GA<S>, S>("nsga3", D, d1); });
  section("nsga3-double", [&] { typedef NSGA3<Ind, 2, RECORD_FITNESS, DOUBLE_LAYER> S; reuse<GA<S>, S>("nsga3-double", D, d1); });
  section("nsga3-dyn", [&] { typedef NSGA3<Ind, Eigen::Dynamic, DONT_RECORD_FITNESS, DOUBLE_LAYER, Args> S; reuse<GA<S>, S>("nsga3-double-dynamic", D, d1); });
#elif PART == 3
  section("pso-eigen", [&] { typedef Eigen::ArrayXd V; typedef PSO<V, RECTANGLE_BOX, FITNESS_LESS_BETTER, RECORD_FITNESS> S; reuse<PS<S, V, false>, S>("pso-eigen", D, d1); });
  section("pso-std", [&] { typedef vector<double> V; typedef PSO<V, SQUARE_BOX, FITNESS_GREATER_BETTER, RECORD_FITNESS> S; reuse<PS<S, V, true>, S>("pso-std", D, d1); });
#else
  section("aos-rect", [&] { typedef Eigen::ArrayXd V; typedef AOS_rect<V, FITNESS_LESS_BETTER, RECORD_FITNESS> S; reuse<AO<S, V, 0>, S>("aos-rect", D, d1); });
  section("aos-square", [&] { typedef vector<double> V; typedef AOS_square<V, FITNESS_GREATER_BETTER, RECORD_FITNESS> S; reuse<AO<S, V, 1>, S>("aos-square", D, d1); });
  section("aos-inf", [&] { typedef Eigen::ArrayXXd V; typedef AOS_inf<V, FITNESS_LESS_BETTER, RECORD_FITNESS> S; reuse<AO<S, V, 2>, S>("aos-inf", D, d1); });
#endif
  return 0;
}
