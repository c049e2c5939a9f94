// E01 (box, velocity limit, update rule) and E02 (bests, counters, run protocol): every PSO container/box
// combination through its public interface; initial states, fitness values and random answers are enumerated.
#include <HeuristicFlow/Global>
#include <HeuristicFlow/SimpleMatrix>
#include <HeuristicFlow/PSO>
using namespace heu;
using std::string; using std::vector;

template <class V> struct Mk { static V make(int d) { V v; if constexpr (!array_traits<V>::isFixedSize) { if constexpr (array_traits<V>::isEigenClass && array_traits<V>::isMatrix) v.resize(2, d / 2); else v.resize(d); } return v; } };
template <class V> vector<double> flat(const V &v) { vector<double> r; for (int i = 0; i < (int)v.size(); i++) r.push_back(v.data()[i]); return r; }
template <class V> int fixedDim() { if constexpr (array_traits<V>::isFixedSize) return array_traits<V>::sizeCT; else return 0; }
static uint64_t hv(uint64_t h, const vector<double> &v) { for (double x : v) { uint64_t u; memcpy(&u, &x, 8); h = mc::h64(h, u); } return h; }
static string show(const vector<double> &v) { string s; for (double x : v) s += mc::fmt("%s%.9g", s.empty() ? "" : ",", x); return s; }

struct Args { int tag = 0; };
struct Par { double w, p, g; };
// the box of coordinate i
struct BoxDef { int kind; bool square;
  double lo(int i) const { return square ? (kind == 2 ? 1.0 : -1.0) : (kind == 2 ? 0.5 * i + 1 : -1.0 - i); }
  double hi(int i) const { return square ? (kind == 2 ? 1.5 : 2.0) : (kind == 2 ? 0.5 * i + 1.25 : 2.0 + 0.5 * i); }
  double vm(int i) const { return (kind == 0 ? 0.5 : kind == 1 ? 8.0 : 0.125) * (square ? 1 : 1 + i); } };

struct World {
  BoxDef box{0, true}; int dim = 1, levels = 3; int mode = 0;  // mode 0: enumerated fitness, 1: later positions are worse, 2: later positions are better
  std::map<vector<double>, double> memo; vector<double> log; vector<vector<double>> pos; bool outside = false, badSize = false, badArg = false; const void *args = nullptr; int inits = 0; bool central = false;
  vector<vector<double>> startPos, startVel; bool vary = false; int posMenu = 3, velMenu = 3;
  double fit(const vector<double> &x) {
    auto it = memo.find(x); if (it != memo.end()) return it->second;
    const int k = (int)memo.size();
    const double f = mode == 1 ? k : mode == 2 ? -k : double(mc::choose(levels, (2 * k + 1) % levels)) - 1;
    return memo[x] = f;
  }
  void eval(const vector<double> &x, double *f) {
    if ((int)x.size() != dim) badSize = true;
    for (int i = 0; i < (int)x.size(); i++) if (!(x[i] >= box.lo(i) && x[i] <= box.hi(i))) outside = true;
    *f = fit(x); log.push_back(*f); pos.push_back(x);
  }
} W;
template <class V> void iF(V *p, V *v) {
  *p = Mk<V>::make(W.dim); *v = Mk<V>::make(W.dim); const int k = W.inits++;
  for (int i = 0; i < W.dim; i++) {
    const double lo = W.box.lo(i), hi = W.box.hi(i), vm = W.box.vm(i);
    const double pm[] = {lo + 0.25 * (hi - lo), hi, lo, lo + 0.75 * (hi - lo)}, vmn[] = {0.5 * vm, vm, -vm, 3 * vm, -3 * vm};
    const int dp = (k + i) % 4, dv = (k + 2 * i) % 5;
    if (W.central) { p->data()[i] = lo + (hi - lo) * (0.4 + 0.04 * k + 0.03 * (i % 2) * (k % 2 ? 1 : -1)); v->data()[i] = (i % 2 ? -0.02 : 0.03) * (hi - lo); continue; }
    p->data()[i] = pm[W.vary ? mc::choose(4, dp) : dp]; v->data()[i] = vmn[W.vary ? mc::choose(5, dv) : dv];
  }
}
template <class V> void iFa(V *p, V *v, const Args *a) { if (a != W.args || !a || a->tag != 77) W.badArg = true; iF(p, v); }
template <class V> void fF(const V *p, double *f) { W.eval(flat(*p), f); }
template <class V> void fFa(const V *p, const Args *a, double *f) { if (a != W.args || !a || a->tag != 77) W.badArg = true; fF(p, f); }

template <class S> struct VarOf;
template <class V, BoxShape BS, FitnessOption F, RecordOption R, class A, typename internal::PSOParameterPack<V, double, A>::fFun_t ff, typename internal::PSOParameterPack<V, double, A>::iFun_t ii>
struct VarOf<PSO<V, BS, F, R, A, ff, ii>> { typedef V type; static constexpr bool square = BS == SQUARE_BOX, less = F == FITNESS_LESS_BETTER, rec = R == RECORD_FITNESS, args = !std::is_void<A>::value, ctf = ff != nullptr, rti = ii == nullptr,
  def = ii == internal::PSOParameterPack<V, double, A>::defaultInitializeFunctionThatShouldNotBeCalled; };

template <class S> void prep(S &s, int kind, int dim, const Par &par, int n, int gens, int fail) {
  typedef VarOf<S> T; typedef typename T::type V;
  W.box = {kind, T::square}; W.dim = dim;
  if constexpr (!array_traits<V>::isFixedSize) { if constexpr (array_traits<V>::isEigenClass && array_traits<V>::isMatrix) s.setDimensions(2, dim / 2); else s.setDimensions(dim); }
  if constexpr (T::square) s.setPVRange(W.box.lo(0), W.box.hi(0), W.box.vm(0));
  else { V a = Mk<V>::make(dim), b = a, c = a; for (int i = 0; i < dim; i++) { a.data()[i] = W.box.lo(i); b.data()[i] = W.box.hi(i); c.data()[i] = W.box.vm(i); } s.setPVRange(a, b, c); }
  PSOOption o; o.populationSize = n; o.maxGeneration = gens; o.maxFailTimes = fail; o.inertiaFactor = par.w; o.learnFactorP = par.p; o.learnFactorG = par.g; s.setOption(o);
  if constexpr (T::args) { Args a; a.tag = 77; s.setArgs(a); W.args = &s.args(); }
  if constexpr (!T::ctf) { if constexpr (T::args) s.setfFun(fFa<V>); else s.setfFun(fF<V>); }
  if constexpr (T::rti) { if constexpr (T::args) s.setiFun(iFa<V>); else s.setiFun(iF<V>); }
}
template <class S> void limits(S &s, int gens, int fail) { auto o = s.option(); o.maxGeneration = gens; o.maxFailTimes = fail; s.setOption(o); }
struct Snap { vector<vector<double>> x, v, p; vector<double> f, pf; vector<double> g; double gf; };
template <class S> Snap snap(const S &s) { Snap r; for (auto &q : s.population()) { r.x.push_back(flat(q.position)); r.v.push_back(flat(q.velocity)); r.p.push_back(flat(q.pBest.position)); r.f.push_back(q.fitness); r.pf.push_back(q.pBest.fitness); } r.g = flat(s.globalBest().position); r.gf = s.globalBest().fitness; return r; }
template <class S> bool better(double a, double b) { return VarOf<S>::less ? a < b : a > b; }
template <class S> void inBox(S &s, const char *when, bool velocity) {
  for (auto &q : s.population()) { auto x = flat(q.position), v = flat(q.velocity);
    MC_P("E01", (int)x.size() == W.dim && (int)v.size() == W.dim, "shape", "%s: a particle has %zu position and %zu velocity coordinates, %d dimensions", when, x.size(), v.size(), W.dim);
    for (int i = 0; i < (int)x.size(); i++) {
      MC_P("E01", x[i] >= W.box.lo(i) && x[i] <= W.box.hi(i), "box", "%s: position %g of coordinate %d outside [%g,%g]", when, x[i], i, W.box.lo(i), W.box.hi(i));
      if (velocity) MC_P("E01", std::abs(v[i]) <= (std::is_same<typename S::Scalar_t, float>::value ? float(W.box.vm(i)) : W.box.vm(i)), "velocity", "%s: speed %.17g of coordinate %d exceeds %g", when, v[i], i, W.box.vm(i)); } }
}
// does particle i move from b to a with the factors r1, r2?
static bool moves(const Snap &b, const Snap &a, int i, double r1, double r2, const Par &par, double tol) {
  for (int k = 0; k < W.dim; k++) {
    double v = par.w * b.v[i][k] + par.p * r1 * (b.p[i][k] - b.x[i][k]) + par.g * r2 * (b.g[k] - b.x[i][k]);
    v = std::max(-W.box.vm(k), std::min(W.box.vm(k), v));
    const double x = std::max(W.box.lo(k), std::min(W.box.hi(k), b.x[i][k] + v));
    if (!(std::abs(v - a.v[i][k]) <= tol && std::abs(x - a.x[i][k]) <= tol)) return false;
  }
  return true;
}

// one settled state -> one update, from every initial state and for every random answer within the bound
template <class S> void step(const char *name, int kind, int dim, const Par &par, int n, int steps, int dev) {
  auto &c = mc::ctx(); c.real_menu = {0.5, 0.0, 1 - 1 / 9007199254740992.0, 0.25}; c.max_dev = dev; c.horizon = 200;
  const double tol = std::is_same<typename S::Scalar_t, float>::value ? 1e-5 : 1e-10;
  mc::explore(string("step-") + name, mc::fmt("box=%d dim=%d w=%g p=%g g=%g n=%d steps=%d", kind, dim, par.w, par.p, par.g, n, steps), [&] {
    W = World(); W.vary = true; S s; prep(s, kind, dim, par, n, 0, 0);
    s.initializePop(); inBox(s, "after initializePop", false);
    for (int k = 0; k < steps; k++) {
      limits(s, 0, 0); s.run(); const Snap b = snap(s);
      limits(s, 1, 0); c.active = true; s.run(); c.active = false; const Snap a = snap(s);
      inBox(s, "after an update", true);
      for (int i = 0; i < n; i++) {
        bool ok = false; for (double r1 : c.real_menu) for (double r2 : c.real_menu) ok |= moves(b, a, i, r1, r2, par, tol);
        MC_P("E01", ok, "update", "step %d particle %d: x=%s v=%s pBest=%s gBest=%s moved to x=%s v=%s, which no pair of random factors gives", k, i, show(b.x[i]).c_str(), show(b.v[i]).c_str(), show(b.p[i]).c_str(), show(b.g).c_str(), show(a.x[i]).c_str(), show(a.v[i]).c_str());
        mc::state(hv(hv(hv(hv(1, a.x[i]), a.v[i]), a.p[i]), a.g));
        // personal best: the best fitness of the visited positions, at a visited position
        const double fx = W.fit(a.x[i]);
        MC_P("E02", a.f[i] == fx, "fitness", "particle %d carries fitness %g, its position has %g", i, a.f[i], fx);
        const bool upd = better<S>(fx, b.pf[i]);
        MC_P("E02", a.pf[i] == (upd ? fx : b.pf[i]) && (a.p[i] == b.p[i] || a.p[i] == a.x[i]) && a.pf[i] == W.fit(a.p[i]), "pbest", "particle %d: pBest %g at %s after visiting %s with %g and %s with %g", i, a.pf[i], show(a.p[i]).c_str(), show(b.p[i]).c_str(), b.pf[i], show(a.x[i]).c_str(), fx);
      }
      double best = b.gf; for (double f : a.pf) if (better<S>(f, best)) best = f;
      bool at = a.g == b.g; for (auto &p : a.p) at |= a.g == p;
      MC_P("E02", a.gf == best && at && a.gf == W.fit(a.g), "gbest", "gBest %g at %s, best personal best %g", a.gf, show(a.g).c_str(), best);
      mc::outcome(hv(hv(2, a.g), a.pf));
    }
    MC_P("E01", !W.outside && !W.badSize, "eval-box", "the fitness function was given a position outside the box or of the wrong size");
    MC_P("E02", !W.badArg, "args", "a callback did not receive the solver's own arguments");
    if (c.rank == 0 && c.st.executions % 20011 == 0) mc::sample(mc::fmt("%s n=%d dim=%d: %zu evaluations, gBest %g", name, n, dim, W.log.size(), s.globalBest().fitness));
  });
}
// exact joint law of the random factors of all particles in one update
template <class S> void law(const char *name, int dim, int n, int Q) {
  auto &c = mc::ctx(); c.real_menu.clear(); for (int i = 0; i < Q; i++) c.real_menu.push_back((i + 0.5) / Q); c.max_dev = 1 << 30; c.horizon = 64;
  const Par par{0.5, 0.5, 0.02}; std::map<string, double> got; double tot = 0;
  const double tol = std::is_same<typename S::Scalar_t, float>::value ? 1e-6 : 1e-10;
  mc::explore(string("law-") + name, mc::fmt("dim=%d n=%d Q=%d", dim, n, Q), [&] {
    W = World(); W.mode = 1; W.central = true; S s; prep(s, 1, dim, par, n, 1, 0); s.initializePop(); s.run(); const Snap b = snap(s);
    c.active = true; s.run(); c.active = false; const Snap a = snap(s);
    string key; bool all = true;
    for (int i = 0; i < n; i++) { string k; for (int x = 0; x < Q; x++) for (int y = 0; y < Q; y++) if (moves(b, a, i, c.real_menu[x], c.real_menu[y], par, tol)) k += mc::fmt("%d,%d;", x, y); all &= !k.empty() && k.find(';') == k.size() - 1; key += k + " "; }
    MC_P("E01", all, "identify", "the random factors of an update are not two menu values per particle (%s)", key.c_str());
    got[key] += mc::trail_prob(); tot += mc::trail_prob(); mc::state(mc::hstr(key)); mc::outcome(mc::hstr(key));
  });
  if (c.replaying || c.prop != "E01") return;
  const double want = std::pow(Q, -2.0 * n);
  MC_P("E01", got.size() == size_t(std::llround(1 / want)), "law-support", "%s: %zu combinations of random factors occur, %g expected", name, got.size(), 1 / want);
  for (auto &g : got) MC_P("E01", std::abs(g.second - want) < 1e-9, "law", "%s: factors %s have probability %g instead of %g", name, g.first.c_str(), g.second, want);
}
// default initialiser: independent uniform coordinates, zero velocity
template <class S> void init(const char *name, int kind, int dim, int n, int Q, bool again = false) {
  auto &c = mc::ctx(); c.real_menu.clear(); for (int i = 0; i < Q; i++) c.real_menu.push_back(i + 1 == Q ? 1 - 1 / 9007199254740992.0 : double(i) / (Q - 1)); c.max_dev = 1 << 30; c.horizon = 64;
  std::map<string, double> got; const double tol = std::is_same<typename S::Scalar_t, float>::value ? 1e-5 : 1e-10;
  mc::explore(string(again ? "reinit-" : "init-") + name, mc::fmt("box=%d dim=%d n=%d Q=%d", kind, dim, n, Q), [&] {
    W = World(); W.mode = 2; S s; prep(s, kind, dim, {0.8, 2, 2}, n, 1, 0);
    if (again) {   // a population that has already moved is initialised again
      s.initializePop(); s.run();
      for (auto &q : s.population()) { auto *v = const_cast<std::decay_t<decltype(*q.velocity.data())> *>(q.velocity.data()); for (int i = 0; i < dim; i++) v[i] = W.box.vm(i) / 2; }
    }
    c.active = true; s.initializePop(); c.active = false;
    MC_P("E01", s.population().size() == size_t(n), "popsize", "%zu particles, populationSize %d", s.population().size(), n);
    inBox(s, "after initializePop", true); string key; bool ok = true, zero = true;
    for (auto &q : s.population()) { auto x = flat(q.position); for (double v : flat(q.velocity)) zero &= v == 0;
      for (int i = 0; i < dim && i < (int)x.size(); i++) { int m = -1; for (int k = 0; k < Q; k++) if (std::abs(W.box.lo(i) + c.real_menu[k] * (W.box.hi(i) - W.box.lo(i)) - x[i]) < tol) m = k; ok &= m >= 0; key += mc::fmt("%d ", m); } }
    MC_P("E01", ok, "init-uniform", "an initial coordinate is not min + u*(max-min) for a uniform u (%s)", key.c_str());
    MC_P("E01", zero, "init-velocity", "the default initialiser gave a particle a nonzero velocity");
    got[key] += mc::trail_prob(); mc::state(mc::hstr(key)); mc::outcome(mc::hstr(key));
  });
  if (c.replaying || c.prop != "E01") return;
  const double want = std::pow(Q, -1.0 * n * dim);
  MC_P("E01", got.size() == size_t(std::llround(1 / want)), "init-support", "%s: %zu initial populations of %g occur", name, got.size(), 1 / want);
  for (auto &g : got) MC_P("E01", std::abs(g.second - want) < 1e-9, "init-law", "%s: initial population %s has probability %g instead of %g", name, g.first.c_str(), g.second, want);
}
// whole runs
template <class S> void life(const char *name, int kind, int dim, int n, int gens, int fail, int runs, int dev) {
  auto &c = mc::ctx(); c.real_menu = {0.5, 0.0, 1 - 1 / 9007199254740992.0}; c.max_dev = dev; c.horizon = 200;
  mc::explore(string("life-") + name, mc::fmt("box=%d dim=%d n=%d gens=%d fail=%d runs=%d", kind, dim, n, gens, fail, runs), [&] {
    W = World(); S s; prep(s, kind, dim, {0.8, 2, 2}, n, gens, fail); double best = 0;
    for (int r = 0; r < runs; r++) {
      size_t m = W.log.size();
      if (r != 1) {
        c.active = VarOf<S>::def; s.initializePop(); c.active = false;
        MC_P("E02", s.population().size() == size_t(n) && W.log.size() == m + n, "init", "initializePop: %zu particles, %zu evaluations, populationSize %d", s.population().size(), W.log.size() - m, n);
        MC_P("E02", s.generation() == 0 && s.failTimes() == 0, "init-counters", "initializePop leaves generation %zu, failTimes %zu", s.generation(), s.failTimes());
        const Snap b = snap(s); bool ok = b.gf == b.f[0] && b.g == b.x[0];
        for (int i = 0; i < n; i++) ok &= b.f[i] == W.fit(b.x[i]) && b.pf[i] == b.f[i] && b.p[i] == b.x[i];
        MC_P("E02", ok, "init-best", "after initializePop a personal best is not the particle itself or gBest is not the first particle");
        best = b.f[0]; for (double f : b.f) if (better<S>(f, best)) best = f;
        m = W.log.size();
      }
      double g = s.globalBest().fitness;
      c.active = true; s.run(); c.active = false;
      const size_t gen = s.generation(), rounds = n ? (W.log.size() - m) / n : 0;
      MC_P("E02", W.log.size() - m == (gen + 1) * n, "evals", "%zu evaluations in %zu generations of %d particles", W.log.size() - m, gen, n);
      vector<double> rec; size_t f = 0; bool stopEarly = false;
      for (size_t k = 0; k < rounds; k++) {
        for (int i = 0; i < n; i++) { const double v = W.log[m + k * n + i]; if (better<S>(v, best)) best = v; }
        if (better<S>(best, g)) { g = best; f = 0; } else f++;
        rec.push_back(g);
        if (k + 1 < rounds && fail > 0 && f > size_t(fail)) stopEarly = true;
      }
      MC_P("E02", !stopEarly && gen <= size_t(gens) && (gen == size_t(gens) || (fail > 0 && f == size_t(fail) + 1)), "stop", "run() ended after %zu generations with %zu fails, limits %d and %d", gen, f, gens, fail);
      MC_P("E02", s.failTimes() == f, "fails", "failTimes() %zu, %zu consecutive generations did not improve the best", s.failTimes(), f);
      MC_P("E02", s.bestFitness() == g && s.globalBest().fitness == g && W.fit(flat(s.globalBest().position)) == g, "best", "best fitness %g / %g at a position with %g; best evaluated value %g", s.bestFitness(), s.globalBest().fitness, W.fit(flat(s.globalBest().position)), g);
      if constexpr (VarOf<S>::rec) MC_P("E02", s.record() == rec, "record", "the record %s differs from the best value after each generation %s", show(s.record()).c_str(), show(rec).c_str());
      MC_P("E02", s.population().size() == size_t(n), "size", "the population changed to %zu", s.population().size());
      inBox(s, "after run()", gen > 0);
      uint64_t h = mc::h64(gen, f); for (double x : rec) h = mc::h64(h, uint64_t(x + 9)); mc::state(h); for (auto &q : s.population()) h = hv(h, flat(q.position)); mc::outcome(h);
    }
    MC_P("E01", !W.outside && !W.badSize, "eval-box", "the fitness function was given a position outside the box or of the wrong size");
    MC_P("E02", !W.badArg, "args", "a callback did not receive the solver's own arguments");
    if (c.rank == 0 && c.st.executions % 20011 == 0) mc::sample(mc::fmt("%s n=%d dim=%d gens=%d: %zu evaluations, best %g", name, n, dim, gens, W.log.size(), s.bestFitness()));
  });
}

static int slot = 0;
static bool mine() { return mc::ctx().replaying || (slot++ % mc::ctx().nranks) == mc::ctx().rank; }
template <class V, BoxShape BS> void all(const char *name, bool deep = false) {
  const bool th = mc::thorough(); auto &c = mc::ctx(); const bool e1 = c.prop == "E01";
  typedef PSO<V, BS, FITNESS_LESS_BETTER, RECORD_FITNESS, void, nullptr, nullptr> RT;
  typedef PSO<V, BS, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS, Args, fFa<V>, iFa<V>> CT;
  typedef PSO<V, BS, FITNESS_GREATER_BETTER, RECORD_FITNESS, Args> DefA;
  typedef PSO<V, BS> Def;
  constexpr bool mat = array_traits<V>::isEigenClass && array_traits<V>::isMatrix;
  vector<int> dims; if (fixedDim<V>()) dims = {fixedDim<V>()}; else if (mat) dims = {2, 4}; else dims = {1, 2, 3};
  mc::section(name, [&] {
    for (int d : dims) for (int kind = 0; kind < 3; kind++) {
      if (d <= 4 && mine()) init<Def>(name, kind, d, d <= 2 ? 2 : 1, d <= 2 ? 4 : 5);
      if (e1 && d <= 4 && mine()) init<Def>(name, kind, d, d <= 2 ? 2 : 1, 3, true);
      if (e1 && d <= 4 && mine()) init<DefA>((string(name) + "-args").c_str(), kind, d, 1, 4);
      for (Par p : {Par{0.8, 2, 2}, Par{1, 0, 3}, Par{0, 1.5, 0.5}, Par{1, 4, 10}}) for (int n : {1, 2, 3}) for (int steps : {1, 2}) {
        if (!th && !deep && (p.w == 1 || (p.w == 0.8 && p.p == 2 && n == 1 && steps == 1) || (kind == 2 && steps == 2))) continue;
        if (!th && (n == 3) != (steps == 1 && d <= 2)) if (n == 3) continue;
        const int dev = (th ? 1 : 0) + (n * d <= 2 ? 4 : n * d <= 4 ? 3 : 2) - (steps == 2 && n * d > 1) - (!th && !deep && n * d > 1);
        if (mine()) step<RT>((string(name) + "-rt").c_str(), kind, d, p, n, steps, dev);
        if (!th && p.w != 0.8) continue;
        if (mine()) step<CT>((string(name) + "-ct").c_str(), kind, d, p, n, steps, dev - 1);
      }
    }
    if (e1) for (int d : dims) if (d <= 4) { if (mine()) law<RT>(name, d, 2, 4); if (mine()) law<RT>(name, d, 1, 8); if (th && mine()) law<RT>(name, d, 3, 3); }
    for (int d : dims) if (d <= 2 || fixedDim<V>()) for (int n : {1, 2, 3}) for (int gens : {0, 1, 2, 4}) for (int fail : {0, 1, 2}) for (int runs : {1, 3}) {
      if (fail && gens < 2) continue;
      if (!th && (e1 && (fail || runs == 3))) continue;
      const int dev = (th ? 1 : 0) + (gens * n <= 2 ? 4 : gens * n <= 6 ? 3 : 2) - (runs == 3) - (!th && !deep && gens * n > 1);
      if (mine()) life<RT>((string(name) + "-rt").c_str(), n % 3, d, n, gens, fail, runs, dev);
      if (mine()) life<CT>((string(name) + "-ct").c_str(), (n + 1) % 3, d, n, gens, fail, runs, dev - 1);
      if (mine()) life<DefA>((string(name) + "-def").c_str(), (n + 2) % 3, d, n, gens, fail, runs, dev - 1);
    }
  });
}

int mc::main_impl() {
#if PART == 0
  all<std::vector<double>, SQUARE_BOX>("vector-square");
  all<std::vector<double>, RECTANGLE_BOX>("vector-rect", true);
  all<std::array<double, 2>, RECTANGLE_BOX>("array2-rect");
  all<std::array<float, 2>, SQUARE_BOX>("arrayf2-square");
#elif PART == 1
  all<Eigen::ArrayXd, SQUARE_BOX>("ArrayXd-square", true);
  all<Eigen::ArrayXd, RECTANGLE_BOX>("ArrayXd-rect");
  all<Eigen::Array2d, RECTANGLE_BOX>("Array2d-rect");
  all<Eigen::VectorXd, SQUARE_BOX>("VectorXd-square");
  all<Eigen::Array<double, 1, Eigen::Dynamic>, RECTANGLE_BOX>("RowXd-rect");
#elif PART == 2
  section("boundsizes", [] { mc::once("boundsizes", "", [] {
    PSO<Eigen::ArrayXXd, RECTANGLE_BOX> s; s.setDimensions(3, 2); for (auto *m : {&s.posMin(), &s.posMax(), &s.maxVelocity()}) MC_P("E01", m->rows() == 3 && m->cols() == 2, "boundsizes", "after setDimensions(3,2) a bound is %d x %d", int(m->rows()), int(m->cols()));
    s.setDimensions(2, 3); for (auto *m : {&s.posMin(), &s.posMax(), &s.maxVelocity()}) MC_P("E01", m->rows() == 2 && m->cols() == 3, "boundsizes", "after setDimensions(2,3) a bound is %d x %d", int(m->rows()), int(m->cols()));
    PSO<std::vector<double>, RECTANGLE_BOX> v; for (size_t d : {3, 1, 4}) { v.setDimensions(d); MC_P("E01", v.posMin().size() == d && v.posMax().size() == d && v.maxVelocity().size() == d, "boundsizes", "after setDimensions(%zu) the bounds have %zu, %zu, the speed limit %zu elements", d, v.posMin().size(), v.posMax().size(), v.maxVelocity().size()); }
  }); });
  all<Eigen::ArrayXXd, SQUARE_BOX>("ArrayXXd-square");
  all<Eigen::ArrayXXd, RECTANGLE_BOX>("ArrayXXd-rect");
  all<Eigen::Array22d, RECTANGLE_BOX>("Array22d-rect");
  all<Eigen::ArrayXf, SQUARE_BOX>("ArrayXf-square");
#else
  all<std::array<double, 2>, SQUARE_BOX>("array2-square", true);
  all<Eigen::Array2d, SQUARE_BOX>("Array2d-square");
#endif
  return 0;
}
