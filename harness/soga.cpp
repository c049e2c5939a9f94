// A01 / A02 / A03: every outcome of every SOGA selection operator, on the real solver.
// Environment answers (uniform draws, shuffles) are enumerated during selections only.
#include <HeuristicFlow/Global>
#include <HeuristicFlow/SimpleMatrix>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
using namespace heu;
using std::vector;
using std::string;

struct Ind { int id = -1; int chk = 0; };
struct World {
  vector<double> table; int next = 0; bool armed = false; bool always = false, hist = false; vector<int> evals;
  double fit(int id) const { return table[size_t(id) % table.size()]; }
} W;
static int seal(int id) { return id * 7919 + 13; }
static void iFun(Ind *v) { v->id = W.next++; v->chk = seal(v->id); W.evals.push_back(0); }
static void fFun(const Ind *v, double *f) {
  *f = W.fit(v->id);
  if (v->id >= 0 && v->id < (int)W.evals.size()) W.evals[v->id]++;
  if ((W.armed && !W.hist) || W.always) mc::ctx().active = true;
}
static void cFun(const Ind *, const Ind *, Ind *c1, Ind *c2) {
  for (Ind *c : {c1, c2}) { c->id = W.next++; c->chk = seal(c->id); W.evals.push_back(0); }
  W.armed = true;
}
static void mFun(const Ind *, Ind *c) { c->id = W.next++; c->chk = seal(c->id); W.evals.push_back(0); W.armed = true; }

template <FitnessOption F, SelectMethod M> using Solver = SOGA<Ind, F, RECORD_FITNESS, M>;
static bool better(FitnessOption F, double a, double b) { return F == FITNESS_GREATER_BETTER ? a > b : a < b; }
static string tstr(const vector<double> &t) { string s; for (double d : t) s += (s.empty() ? "" : ",") + mc::fmt("%g", d); return s; }

struct Par { int T = 2; int elite = 1; double strength = 0; double base = 0.5; double worst = 0.1, best = 0.9; };
template <FitnessOption F, SelectMethod M, class S> void configure(S &s, const Par &p, SelectMethod rt) {
  const SelectMethod m = M == RunTimeSelectMethod ? rt : M;
  if constexpr (M == RunTimeSelectMethod) s.setSelectMethod(rt);
  if constexpr (M == Tournament || M == RunTimeSelectMethod) { if (m == Tournament) s.setTournamentSize(p.T); }
  if constexpr (M == EliteReserved || M == RunTimeSelectMethod) { if (m == EliteReserved) s.setEliteNum(p.elite); }
  if constexpr (M == Boltzmann || M == RunTimeSelectMethod) { if (m == Boltzmann && p.strength != 0) s.setBoltzmannSelectStrength(p.strength); }
  if constexpr (M == ExponentialRank || M == RunTimeSelectMethod) { if (m == ExponentialRank) s.setExponetialSelectBase(p.base); }
  if constexpr (M == LinearRank || M == RunTimeSelectMethod) { if (m == LinearRank) s.setLinearSelectProbability(p.worst, p.best); }
}
template <class S> void bind(S &s) { s.setiFun(iFun); s.setfFun(fFun); s.setcFun(cFun); s.setmFun(mFun); }

struct Snapshot { vector<int> ids; double bestFit; int bestId; size_t gen, fail; vector<double> rec; };
template <class S> Snapshot snap(S &s) {
  Snapshot r;
  for (auto &g : s.population()) r.ids.push_back(g.decision_variable.id);
  r.bestFit = s.bestFitness(); r.bestId = s.result().id; r.gen = s.generation(); r.fail = s.failTimes(); r.rec = s.record();
  return r;
}

// pre: ids alive before the selection.  Checks what one selection must guarantee.
template <class S> void judge(S &s, FitnessOption F, SelectMethod M, const Par &p, const vector<int> &pre, int K) {
  const auto &pop = s.population();
  vector<int> cnt(W.next, 0), have(W.next, 0);
  for (int i : pre) cnt[i]++;
  bool ok = true, intact = true;
  uint64_t h = mc::h64(M, F);
  for (auto &g : pop) {
    const Ind &d = g.decision_variable;
    if (d.id < 0 || d.id >= W.next) { intact = false; continue; }
    if (d.chk != seal(d.id)) intact = false;
    if (!g.is_fitness_computed || g.fitness != W.fit(d.id)) intact = false;
    have[d.id]++; h = mc::h64(h, d.id);
    if (!cnt[d.id]) ok = false;
    if (M != Tournament && have[d.id] > cnt[d.id]) ok = false;
  }
  mc::state(mc::h64(h, mc::hstr(tstr(W.table)))); mc::outcome(h);
  MC_P("A01", (int)pop.size() == std::min(K, (int)pre.size()), "size", "%s kept %zu of %zu individuals, populationSize %d", Enum2String(M), pop.size(), pre.size(), K);
  MC_P("A01", ok, "member", "%s: survivor is not a member of the population before selection (or was duplicated)", Enum2String(M));
  MC_P("A01", intact, "intact", "%s: a survivor's variable or fitness changed", Enum2String(M));
  // A03: tracked best
  if (!pop.empty()) {
    double b = pop.front().fitness; bool bestIn = false;
    for (auto &g : pop) { if (better(F, g.fitness, b)) b = g.fitness; }
    for (auto &g : pop) if (g.decision_variable.id == s.result().id) bestIn = true;
    MC_P("A03", s.bestFitness() == b, "best", "%s: bestFitness() %g but the population's best is %g", Enum2String(M), s.bestFitness(), b);
    MC_P("A03", bestIn && W.fit(s.result().id) == b, "result", "%s: result() is not a best member of the population", Enum2String(M));
    MC_P("A03", !s.record().empty() && s.record().back() == b, "recordlast", "last record is not the current best");
  }
  if (!intact || !ok || (int)pop.size() != K || (int)pre.size() <= K) return;
  vector<double> a, b;
  for (int i : pre) a.push_back(W.fit(i));
  for (auto &g : pop) b.push_back(g.fitness);
  auto cmp = [&](double x, double y) { return better(F, x, y); };
  std::sort(a.begin(), a.end(), cmp); std::sort(b.begin(), b.end(), cmp);
  if (M == Truncation) {
    bool e = true; for (int i = 0; i < K; i++) e &= a[i] == b[i];
    MC_P("A02", e, "truncation", "truncation did not keep the %d best", K);
  }
  if (M == EliteReserved) {
    bool e = true; for (int i = 0; i < p.elite && i < K; i++) e &= a[i] == b[i];
    MC_P("A02", e, "elite", "one of the %d elites was lost", p.elite);
  }
  if (M == Tournament) {
    for (auto &g : pop) {
      int nb = -1; for (int i : pre) nb += !better(F, W.fit(i), g.fitness);
      MC_P("A02", nb >= p.T - 1, "tournament", "survivor with fitness %g beats only %d others, tournament size %d", g.fitness, nb, p.T);
    }
  }
}

template <class S> vector<int> ids(S &s) { vector<int> v; for (auto &g : s.population()) v.push_back(g.decision_variable.id); return v; }

// mode 0: mutation doubles the population; 1: crossover; 2: both; 3: shrinking populationSize
template <FitnessOption F, SelectMethod M> struct Runner {
  static void scenario(SelectMethod rt, const Par &p, int K, int mode, int rounds, const vector<double> &table, Snapshot *out = nullptr, bool checks = true) {
    const SelectMethod m = M == RunTimeSelectMethod ? rt : M;
    W = World(); W.table = table;
    GAOption o; o.populationSize = K; o.maxFailTimes = 0; o.maxGenerations = 1;
    o.crossoverProb = (mode == 1 || mode == 2) ? 1 : 0; o.mutateProb = (mode == 0 || mode == 2) ? 1 : 0;
    Solver<F, M> s; bind(s); configure<F, M>(s, p, rt);
    if (mode == 3) { o.populationSize = table.size(); o.maxGenerations = 0; }
    s.setOption(o); s.initializePop();
    if (mode == 3) { o.populationSize = K; s.setOption(o); W.always = true; }
    vector<int> pre = ids(s);
    for (int r = 0; r < rounds; r++) {
      mc::ctx().active = false; W.armed = false;
      const int n0 = W.next; const vector<int> before = ids(s);
      s.run();
      mc::ctx().active = false; W.armed = false;
      pre = before; for (int i = n0; i < W.next; i++) pre.push_back(i);
      if (checks) judge(s, F, m, p, pre, K);
    }
    if (out) *out = snap(s);
  }
};

static void tables(int n, int levels, const std::function<void(const vector<int> &, long)> &f) {
  vector<int> t(n, 0); long idx = 0;
  for (;;) {
    f(t, idx++);
    int i = n - 1;
    while (i >= 0 && ++t[i] == levels) t[i--] = 0;
    if (i < 0) return;
  }
}
static const char *fo(FitnessOption F) { return F == FITNESS_GREATER_BETTER ? "max" : "min"; }
static const vector<vector<double>> SCALES = {{0, 1, 2}, {-3, 1.5, 1000}, {-1e12, 0.125, 1e12}, {1e-9, 2e-9, 5e-9}, {-1e150, 3, 1e150}};

template <FitnessOption F, SelectMethod M> void exhaustive(SelectMethod rt) {
  const SelectMethod m = M == RunTimeSelectMethod ? rt : M;
  auto &c = mc::ctx();
  const bool th = mc::thorough();
  struct Cfg { int K, mode, n, rounds, dev, levels; };
  vector<Cfg> cfgs = {{2, 0, 4, 1, 4, 3}, {1, 0, 2, 1, 4, 3}, {3, 1, 5, 1, 3, 3}, {2, 2, 6, 1, 3, 2}, {3, 3, 4, 1, 4, 3}, {2, 0, 8, 3, 2, 2}, {3, 0, 6, 1, th ? 4 : 2, th ? 3 : 2}, {4, 1, 8, 1, th ? 3 : 1, 2}};
  if (th) { cfgs.push_back({2, 0, 8, 3, 3, 3}); cfgs.push_back({4, 0, 8, 1, 3, 3}); cfgs.push_back({5, 1, 9, 2, 2, 2}); cfgs.push_back({3, 2, 10, 1, 3, 2}); }
  for (auto &g : cfgs) {
    vector<Par> ps(1);
    ps[0].T = 2;
    if (m == Tournament) { if (g.K < 3) continue; if (g.K >= 4) { Par q; q.T = 3; ps.push_back(q); } }
    if (m == EliteReserved && g.K >= 2) { Par q; q.elite = 2; ps.push_back(q); if (g.K >= 3) { q.elite = g.K; ps.push_back(q); } }
    if (m == Boltzmann) { Par q; q.strength = F == FITNESS_GREATER_BETTER ? 0.5 : -0.5; ps.push_back(q); }
    if (m == LinearRank) { Par q; q.worst = 0; q.best = 0.05; ps.push_back(q); q.worst = 0.2; q.best = 1; ps.push_back(q); }
    if (m == ExponentialRank) { Par q; q.base = 0.99; ps.push_back(q); q.base = 0.01; ps.push_back(q); }
    for (size_t sc = 0; sc < SCALES.size(); sc++) {
      if (sc && g.n > (th ? 5 : 4)) continue;
      if (!th && (M == RunTimeSelectMethod || c.prop == "A03") && (g.n == 6 || (g.n == 8 && g.rounds == 1) || (sc > 1))) continue;
      for (size_t pi = 0; pi < ps.size(); pi++) {
        tables(g.n, g.levels, [&](const vector<int> &lv, long idx) {
          if (idx % c.nranks != c.rank) return;
          vector<double> t; for (int l : lv) t.push_back(SCALES[sc][l]);
          c.max_dev = m == Tournament ? std::min(g.dev, th ? 3 : 2) : g.dev; c.horizon = 40;
          mc::explore(string("sel-") + Enum2String(m) + (M == RunTimeSelectMethod ? "-rt-" : "-") + fo(F),
                      mc::fmt("K=%d mode=%d rounds=%d dev=%d par=%zu fit=%s", g.K, g.mode, g.rounds, g.dev, pi, tstr(t).c_str()), [&] {
            Snapshot a, b;
            Runner<F, M>::scenario(rt, ps[pi], g.K, g.mode, g.rounds, t, &a);
            if (c.prop == "A02" && M != RunTimeSelectMethod && (g.n <= 5)) {
              // the same method selected at run time, under the same answers, does the same
              mc::echo_begin();
              Runner<F, RunTimeSelectMethod>::scenario(m, ps[pi], g.K, g.mode, g.rounds, t, &b, false);
              mc::echo_end();
              MC_P("A02", a.ids == b.ids && a.bestFit == b.bestFit, "runtime", "%s chosen at run time behaves differently from the compile-time choice", Enum2String(m));
            }
            if (c.rank == 0) mc::sample(mc::fmt("%s %s K=%d fit=%s choices=[%s] -> %zu survivors", Enum2String(m), fo(F), g.K, tstr(t).c_str(), mc::trail_str().c_str(), a.ids.size()));
          });
        });
      }
    }
  }
}

// ---- documented selection probabilities (A02): exact enumeration of equally likely draws ----
static void inclusion(const vector<double> &w, int K, vector<double> &out) {
  out.assign(w.size(), 0);
  std::function<void(vector<char> &, int, double)> rec = [&](vector<char> &used, int left, double pr) {
    if (!left) return;
    double s = 0; for (size_t i = 0; i < w.size(); i++) if (!used[i]) s += w[i];
    if (s <= 0) return;
    for (size_t i = 0; i < w.size(); i++) if (!used[i] && w[i] > 0) {
      out[i] += pr * w[i] / s; used[i] = 1; rec(used, left - 1, pr * w[i] / s); used[i] = 0;
    }
  };
  vector<char> u(w.size(), 0); rec(u, K, 1);
}
template <FitnessOption F, SelectMethod M> void law() {
  auto &c = mc::ctx();
  if (c.prop != "A02") return;
  const bool th = mc::thorough();
  vector<vector<double>> ts;
  if (F == FITNESS_GREATER_BETTER) ts = {{1, 4, 2}, {5, 2, 1}, {0, 1, 3, 2}, {4, 3, 3.5, 1}, {-2, 5, 1, 3}, {0.3, 0.1, 0.2, 0.35, 0.25}};
  else ts = {{3, 1, 2}, {1, 2, 5}, {2, 1, 4, 3}, {-1, 3, 0, 2}, {2.5, -4, 1, 0}, {0.3, 0.1, 0.2, 0.35, 0.05}};
  struct LC { int K; Par p; };
  vector<LC> lcs;
  for (int K = 1; K <= 2; K++) {
    Par p; lcs.push_back({K, p});
    if (M == Boltzmann) { p.strength = F == FITNESS_GREATER_BETTER ? 0.7 : -0.7; lcs.push_back({K, p}); }
    if (M == LinearRank) { p.worst = 0.05; p.best = 0.25; lcs.push_back({K, p}); }
    if (M == ExponentialRank) { p.base = 0.8; lcs.push_back({K, p}); }
  }
  if (M == Tournament) { lcs.clear(); Par p; p.T = 2; lcs.push_back({3, p}); }
  if (M == EliteReserved) { lcs.clear(); Par p; p.elite = 1; lcs.push_back({2, p}); p.elite = 2; lcs.push_back({3, p}); }
  const auto saved = c.real_menu;
  long idx = 0;
  for (auto &t : ts) for (auto &lc : lcs) {
    const int N = t.size(), K = lc.K;
    if (K >= N) continue;
    if (M == Tournament && N > 4) continue;
    if ((idx++) % c.nranks != c.rank) continue;
    const bool shuffleOnly = M == MonteCarlo;
    const int picks = M == EliteReserved ? K - lc.p.elite : (M == StochasticUniversal ? 1 : K);
    const int D = M == Tournament ? (N - lc.p.T) : (picks <= 1 ? 400 : (th ? 128 : 64));
    c.real_menu.clear(); for (int i = 0; i < D; i++) c.real_menu.push_back((i + 0.5) / D);
    c.max_dev = 1 << 30; c.horizon = 64;
    vector<double> got(N, 0); double tot = 0; vector<int> mapsum(1 << N, 0); std::map<int, double> subsets; uint64_t leaves = 0;
    mc::explore(string("law-") + Enum2String(M) + "-" + fo(F), mc::fmt("K=%d par=%g/%g/%g fit=%s", K, lc.p.strength, lc.p.base, lc.p.best, tstr(t).c_str()), [&] {
      Snapshot s; Runner<F, M>::scenario(M, lc.p, K, 3, 1, t, &s);
      const double pr = mc::trail_prob(); tot += pr; leaves++;
      int mask = 0; for (int i : s.ids) { got[i] += pr; mask |= 1 << i; }
      subsets[mask] += pr;
    });
    if (c.replaying) continue;
    // documented law
    vector<double> v(N), w(N), want(N, 0);
    double mn = 1e300; for (int i = 0; i < N; i++) { v[i] = F == FITNESS_GREATER_BETTER ? t[i] : -t[i]; mn = std::min(mn, v[i]); }
    double sum = 0; for (int i = 0; i < N; i++) { w[i] = v[i] - mn; sum += w[i]; }
    vector<int> rank(N, 0); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) rank[i] += v[j] > v[i];
    double tol = 2.0 * (picks > 1 ? 3 : 1) / D * (picks > 1 ? 1.5 : 1) + 1e-9; bool have = true;
    switch (M) {
      case RouletteWheel: inclusion(w, K, want); break;
      case LinearRank: for (int i = 0; i < N; i++) w[i] = lc.p.worst + (lc.p.best - lc.p.worst) * (N - 1 - rank[i]) / (N - 1); inclusion(w, K, want); break;
      case ExponentialRank: for (int i = 0; i < N; i++) w[i] = std::pow(lc.p.base, rank[i]); inclusion(w, K, want); break;
      case Boltzmann: { const double b = lc.p.strength != 0 ? lc.p.strength : (F == FITNESS_GREATER_BETTER ? 10 : -10); for (int i = 0; i < N; i++) w[i] = std::exp(b * t[i]); inclusion(w, K, want); break; }
      case Probability: for (int i = 0; i < N; i++) { const double q = w[i] / sum; w[i] = std::pow(q, K) * std::pow(1 - q, N - K); } inclusion(w, K, want); break;
      case StochasticUniversal: for (int i = 0; i < N; i++) { want[i] = K * w[i] / sum; if (want[i] > 1) have = false; } break;
      case MonteCarlo: for (int i = 0; i < N; i++) want[i] = double(K) / N; tol = 1e-9; break;
      case Tournament: {
        auto C = [](int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return n < k ? 0.0 : r; };
        for (int i = 0; i < N; i++) want[i] = K * C(N - 1 - rank[i], lc.p.T - 1) / C(N, lc.p.T);
        tol = 1e-9; break;
      }
      case EliteReserved: {
        vector<double> ww; vector<int> who; double m2 = 1e300;
        for (int i = 0; i < N; i++) if (rank[i] >= lc.p.elite) m2 = std::min(m2, v[i]);
        for (int i = 0; i < N; i++) { if (rank[i] < lc.p.elite) want[i] = 1; else { ww.push_back(v[i] - m2); who.push_back(i); } }
        vector<double> inc; inclusion(ww, K - lc.p.elite, inc); for (size_t j = 0; j < who.size(); j++) want[who[j]] += inc[j];
        break;
      }
      default: have = false;
    }
    MC_P("A02", std::fabs(tot - 1) < 1e-9, "law-total", "probabilities of the enumerated executions sum to %.12g", tot);
    if (shuffleOnly) {
      double C = 1; for (int i = 0; i < K; i++) C = C * (N - i) / (i + 1);
      MC_P("A02", (int)subsets.size() == (int)std::lround(C), "montecarlo", "%zu of %g survivor sets reachable", subsets.size(), C);
      for (auto &s : subsets) MC_P("A02", std::fabs(s.second - 1 / C) < 1e-9, "montecarlo", "survivor set %x has probability %g, expected %g", s.first, s.second, 1 / C);
    }
    // with no positive weight left the choice among the remaining is not specified
    int pos = 0; for (int i = 0; i < N; i++) pos += w[i] > 0;
    if (have && (M == Tournament || M == MonteCarlo || M == StochasticUniversal || M == EliteReserved || pos >= K))
      for (int i = 0; i < N; i++)
        MC_P("A02", std::fabs(got[i] - want[i]) <= tol, "law", "%s: fitness %g is kept with probability %.4f, documented %.4f (tolerance %.4f, %llu equally likely executions)", Enum2String(M), t[i], got[i], want[i], tol, (unsigned long long)leaves);
    if (c.rank == 0) mc::sample(mc::fmt("law %s %s K=%d fit=%s: survival %.3f,%.3f,%.3f.. over %llu executions", Enum2String(M), fo(F), K, tstr(t).c_str(), got[0], got[1], got[2], (unsigned long long)leaves));
  }
  c.real_menu = saved;
}

// ---- A03: histories of many generations ----
// fitness of every new individual is a branch; selections run with default answers, or (dev) deviate
template <FitnessOption F, SelectMethod M> void histories(SelectMethod rt) {
  auto &c = mc::ctx();
  if (c.prop != "A03") return;
  const SelectMethod m = M == RunTimeSelectMethod ? rt : M;
  const bool th = mc::thorough();
  struct H { int K, gens, maxFail, dev; };
  static long job = 0;
  // dev: how many individuals may deviate from the middle fitness level (exhaustive below that)
  for (H h : {H{1, 5, 0, 99}, H{2, 4, 0, 4}, H{3, 3, 0, 4}, H{2, 9, 1, 3}, H{1, 9, 2, 5}, H{2, 2, 1, 99}, H{4, 3, 0, 3}}) {
    if (m == Tournament && h.K < 3) continue;
    c.horizon = 64; c.max_dev = h.dev + (th ? 1 : 0);
    for (int q = 0; q < 5; q += th ? 1 : 2) {
      if (job++ % c.nranks != c.rank) continue;
      mc::explore(string("hist-") + Enum2String(m) + (M == RunTimeSelectMethod ? "-rt-" : "-") + fo(F), mc::fmt("K=%d gens=%d maxFail=%d q=%g", h.K, h.gens, h.maxFail, c.real_menu[q]), [&] {
        W = World(); W.hist = true;
        // fitness by id, chosen lazily: levels 0..2, default 1
        W.table.clear();
        GAOption o; o.populationSize = h.K; o.maxFailTimes = h.maxFail; o.maxGenerations = h.gens; o.crossoverProb = 0; o.mutateProb = 1;
        c.real_default = c.real_menu[q];
        for (int i = 0; i < h.K * (h.gens + 2); i++) { W.table.push_back((double)mc::choose(3, 1) - 1); }
        Solver<F, M> s; bind(s); Par p; configure<F, M>(s, p, rt); s.setOption(o);
        s.initializePop();
        const double first = W.fit(s.population().front().decision_variable.id);
        s.run();
        c.real_default = 0.5;
        const auto &rec = s.record();
        uint64_t hh = m; for (double d : rec) hh = mc::h64(hh, (uint64_t)(int64_t)(d * 8));
        mc::state(hh); mc::outcome(mc::h64(hh, s.failTimes()));
        MC_P("A03", !rec.empty(), "record", "nothing was recorded");
        if (rec.empty()) return;
        // documented fail counter: consecutive generations without strict improvement of the best
        size_t fail = 0; double prev = first; size_t stop = rec.size();
        for (size_t g = 0; g < rec.size(); g++) {
          if (better(F, rec[g], prev)) fail = 0; else fail++;
          prev = rec[g];
          if (g + 1 < rec.size()) MC_P("A03", !(h.maxFail > 0 && fail > (size_t)h.maxFail), "latestop", "generation %zu already had %zu fails (limit %d) but the run continued", g, fail, h.maxFail);
        }
        (void)stop;
        MC_P("A03", s.failTimes() == fail, "failtimes", "failTimes() is %zu, the recorded history gives %zu", s.failTimes(), fail);
        MC_P("A03", (int)rec.size() == h.gens + 1 || (h.maxFail > 0 && fail > (size_t)h.maxFail), "earlystop", "run stopped after %zu of %d generations with failTimes %zu (limit %d)", rec.size(), h.gens + 1, fail, h.maxFail);
        MC_P("A03", s.generation() + 1 == rec.size(), "generation", "generation() %zu with %zu recorded", s.generation(), rec.size());
        if (m == Truncation || m == EliteReserved)
          for (size_t g = 1; g < rec.size(); g++) MC_P("A03", !better(F, rec[g - 1], rec[g]), "elitism", "%s lost the best solution: %g after %g", Enum2String(m), rec[g], rec[g - 1]);
        double b = s.population().front().fitness; for (auto &g : s.population()) if (better(F, g.fitness, b)) b = g.fitness;
        MC_P("A03", s.bestFitness() == b && rec.back() == b && W.fit(s.result().id) == b, "best", "reported best %g, record %g, population best %g", s.bestFitness(), rec.back(), b);
        if (c.rank == 0) mc::sample(mc::fmt("%s %s K=%d gens=%d maxFail=%d: %zu generations, failTimes %zu", Enum2String(m), fo(F), h.K, h.gens, h.maxFail, rec.size(), s.failTimes()));
      });
    }
  }
}

template <FitnessOption F, SelectMethod M> void all() {
  mc::section(string(Enum2String(M)) + "-" + fo(F), [] {
    if (mc::ctx().prop != "A03") { exhaustive<F, M>(M); law<F, M>(); }
    else { exhaustive<F, M>(M); histories<F, M>(M); }
  });
  // the same through run-time selection (memory safety, sizes, best tracking)
  if (mc::ctx().prop == "A01" || (mc::ctx().prop == "A03" && mc::thorough()))
    mc::section(string(Enum2String(M)) + "-rt-" + fo(F), [] {
      if (mc::ctx().prop == "A01") exhaustive<F, RunTimeSelectMethod>(M); else histories<F, RunTimeSelectMethod>(M);
    });
}
template <FitnessOption F> void everything() {
  all<F, RouletteWheel>(); all<F, Tournament>(); all<F, Truncation>(); all<F, MonteCarlo>(); all<F, Probability>();
  all<F, LinearRank>(); all<F, ExponentialRank>(); all<F, Boltzmann>(); all<F, StochasticUniversal>(); all<F, EliteReserved>();
}
#ifndef FOPT
#define FOPT FITNESS_LESS_BETTER
#endif
int mc::main_impl() { everything<FOPT>(); return 0; }
