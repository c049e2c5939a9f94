// B01 (Pareto front), B02 (NSGA2 selection), B04 (NSGA3 selection), B05 (reference points): real solvers.
#include <HeuristicFlow/Global>
#include <HeuristicFlow/SimpleMatrix>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
using namespace heu;
using std::string; using std::vector;
typedef vector<double> Vec;

struct Ind { int id = -1; int chk = 0; };
static int seal(int i) { return i * 7919 + 13; }
struct World { vector<Vec> table; int next = 0; bool armed = false, always = false; const Vec &fit(int id) const { return table[size_t(id) % table.size()]; } } W;
static void iFun(Ind *v) { v->id = W.next++; v->chk = seal(v->id); }
template <class Fit> static void fFun(const Ind *v, Fit *f) {
  const Vec &t = W.fit(v->id);
  MC_CHECK((size_t)f->size() == t.size(), "fitsize", "fitness handed to the fitness function has size %d, objectives %zu", (int)f->size(), t.size());
  for (size_t k = 0; k < t.size(); k++) (*f)[k] = t[k];
  if (W.armed || W.always) mc::ctx().active = true;
}
static void cFun(const Ind *, const Ind *, Ind *a, Ind *b) { for (Ind *c : {a, b}) { c->id = W.next++; c->chk = seal(c->id); } W.armed = true; }
static std::function<void()> onGeneration; static int perGeneration = 0, mutations = 0;   // called before the first mutation of a generation
static void mFun(const Ind *, Ind *c) { if (perGeneration && mutations++ % perGeneration == 0) onGeneration(); c->id = W.next++; c->chk = seal(c->id); W.armed = true; }

static string tstr(const vector<Vec> &t) { string s; for (auto &v : t) { s += s.empty() ? "(" : " ("; for (size_t k = 0; k < v.size(); k++) s += (k ? "," : "") + mc::fmt("%g", v[k]); s += ")"; } return s; }
static bool dom(bool greater, const Vec &a, const Vec &b) {
  bool strict = false;
  for (size_t k = 0; k < a.size(); k++) {
    if (greater ? a[k] < b[k] : a[k] > b[k]) return false;
    if (a[k] != b[k]) strict = true;
  }
  return strict;
}

// layers by number of dominators; returns {boundary members, already selected}, need
struct Layers { vector<int> dn; vector<int> sel, fl; int need; };
static Layers layers(bool greater, const vector<Vec> &p, int K) {
  Layers L; const int N = p.size(); L.dn.assign(N, 0);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) L.dn[i] += i != j && dom(greater, p[j], p[i]);
  std::map<int, vector<int>> by; for (int i = 0; i < N; i++) by[L.dn[i]].push_back(i);
  L.need = 0;
  for (auto &l : by) {
    if ((int)(L.sel.size() + l.second.size()) <= K) { for (int i : l.second) L.sel.push_back(i); if ((int)L.sel.size() == K) break; }
    else { L.fl = l.second; L.need = K - L.sel.size(); break; }
  }
  return L;
}

// all survivor sets NSGA2's documented crowding rule allows (ties in any order)
static bool nsga2Allowed(bool greater, const vector<Vec> &p, int K, std::set<int> &out) {
  const int N = p.size(), M = p[0].size();
  Layers L = layers(greater, p, K);
  int base = 0; for (int i : L.sel) base |= 1 << i;
  if (L.fl.empty()) { out.insert(base); return true; }
  // per objective: list of possible orders
  vector<vector<vector<int>>> orders(M);
  double combos = 1;
  for (int k = 0; k < M; k++) {
    vector<int> o(N); std::iota(o.begin(), o.end(), 0);
    std::sort(o.begin(), o.end(), [&](int a, int b) { return p[a][k] != p[b][k] ? p[a][k] < p[b][k] : a < b; });
    std::function<void(int, vector<int> &)> rec = [&](int pos, vector<int> &cur) {
      if (orders[k].size() > 200) return;
      if (pos == N) { orders[k].push_back(cur); return; }
      int e = pos; while (e < N && p[o[e]][k] == p[o[pos]][k]) e++;
      vector<int> g(o.begin() + pos, o.begin() + e); std::sort(g.begin(), g.end());
      do { for (int i : g) cur.push_back(i); rec(e, cur); cur.resize(cur.size() - g.size()); } while (std::next_permutation(g.begin(), g.end()));
    };
    vector<int> cur; rec(0, cur);
    combos *= orders[k].size();
  }
  if (combos > 3000) return false;
  vector<size_t> ix(M, 0);
  for (;;) {
    Vec c(N, 0);
    for (int k = 0; k < M; k++) {
      const auto &o = orders[k][ix[k]];
      const double scale = std::abs(p[o.front()][k] - p[o.back()][k]) + 1e-10;
      c[o.front()] = c[o.back()] = INFINITY;
      for (int i = 1; i + 1 < N; i++) c[o[i]] += std::abs(p[o[i - 1]][k] - p[o[i + 1]][k]) / scale;
    }
    const int F = L.fl.size();
    for (int m = 0; m < (1 << F); m++) if (__builtin_popcount(m) == L.need) {
      double lo = INFINITY, hi = -INFINITY; int mask = base;
      for (int i = 0; i < F; i++) if (m >> i & 1) { lo = std::min(lo, c[L.fl[i]]); mask |= 1 << L.fl[i]; } else hi = std::max(hi, c[L.fl[i]]);
      if (lo >= hi || lo >= hi - 1e-7 * (1 + std::abs(hi))) out.insert(mask);
    }
    int k = M - 1; while (k >= 0 && ++ix[k] == orders[k].size()) ix[k--] = 0;
    if (k < 0) break;
  }
  return true;
}

// ---- NSGA3 reference: all survivor sets (and, if tie free, their exact probabilities) ----
static double det(vector<Vec> a) {
  const int n = a.size(); double d = 1;
  for (int c = 0; c < n; c++) {
    int p = c; for (int r = c; r < n; r++) if (std::abs(a[r][c]) > std::abs(a[p][c])) p = r;
    if (a[p][c] == 0) return 0;
    if (p != c) { std::swap(a[p], a[c]); d = -d; }
    d *= a[c][c];
    for (int r = c + 1; r < n; r++) { const double f = a[r][c] / a[c][c]; for (int k = c; k < n; k++) a[r][k] -= f * a[c][k]; }
  }
  return d;
}
static Vec solve(vector<Vec> a, Vec b) {
  const int n = a.size();
  for (int c = 0; c < n; c++) {
    int p = c; for (int r = c; r < n; r++) if (std::abs(a[r][c]) > std::abs(a[p][c])) p = r;
    std::swap(a[p], a[c]); std::swap(b[p], b[c]);
    for (int r = 0; r < n; r++) if (r != c) { const double f = a[r][c] / a[c][c]; for (int k = c; k < n; k++) a[r][k] -= f * a[c][k]; b[r] -= f * b[c]; }
  }
  for (int c = 0; c < n; c++) b[c] /= a[c][c];
  return b;
}
struct Niche { std::set<int> sets; std::map<int, double> law; bool exactLaw = true, tractable = true; };
static Niche nsga3Allowed(const vector<Vec> &p, int K, const vector<Vec> &rp) {
  Niche R; const int N = p.size(), M = p[0].size();
  Layers L = layers(false, p, K);
  int base = 0; for (int i : L.sel) base |= 1 << i;
  if (L.fl.empty()) { R.sets.insert(base); R.law[base] = 1; return R; }
  vector<int> all = L.sel; all.insert(all.end(), L.fl.begin(), L.fl.end());
  Vec ideal(M, INFINITY);
  for (int i : all) for (int k = 0; k < M; k++) ideal[k] = std::min(ideal[k], p[i][k]);
  vector<vector<int>> ext(M);
  for (int k = 0; k < M; k++) { double mx = -INFINITY; for (int i : all) mx = std::max(mx, p[i][k]); for (int i : all) if (p[i][k] == mx) ext[k].push_back(i); }
  std::set<Vec> interceptSet;
  vector<size_t> ix(M, 0);
  for (;;) {
    vector<Vec> P(M, Vec(M));  // P[r][c]
    for (int c = 0; c < M; c++) for (int r = 0; r < M; r++) P[r][c] = p[ext[c][ix[c]]][r] - ideal[r];
    Vec ic(M);
    const double d = det(P);
    if (std::abs(std::abs(d) - 1e-10) < 1e-11) { R.tractable = false; return R; }
    if (std::abs(d) <= 1e-10) for (int r = 0; r < M; r++) ic[r] = P[r][r];
    else { vector<Vec> T(M, Vec(M)); for (int r = 0; r < M; r++) for (int c = 0; c < M; c++) T[r][c] = P[c][r]; ic = solve(T, Vec(M, 1.0)); for (double &x : ic) { if (std::abs(x) < 1e-9) { R.tractable = false; return R; } x = 1 / x; } }
    for (double &x : ic) if (x == 0) x = 1;
    interceptSet.insert(ic);
    int k = M - 1; while (k >= 0 && ++ix[k] == ext[k].size()) ix[k--] = 0;
    if (k < 0) break;
  }
  if (interceptSet.size() > 1) R.exactLaw = false;
  if (interceptSet.size() > 60) { R.tractable = false; return R; }
  const int Q = rp.size();
  for (auto &ic : interceptSet) {
    vector<vector<int>> near(N); Vec dist(N, 0); double combos = 1;
    for (int i : all) {
      Vec s(M); for (int k = 0; k < M; k++) s[k] = (p[i][k] - ideal[k]) / ic[k];
      Vec D(Q); double mn = INFINITY;
      for (int j = 0; j < Q; j++) {
        double ws = 0, ww = 0; for (int k = 0; k < M; k++) { ws += rp[j][k] * s[k]; ww += rp[j][k] * rp[j][k]; }
        double d = 0; for (int k = 0; k < M; k++) { const double e = ws / ww * rp[j][k] - s[k]; d += e * e; }
        D[j] = d; mn = std::min(mn, d);
      }
      for (int j = 0; j < Q; j++) if (D[j] <= mn + 1e-9) near[i].push_back(j);
      dist[i] = mn; combos *= near[i].size();
    }
    if (combos > 1) R.exactLaw = false;
    if (combos > 400) { R.tractable = false; return R; }
    vector<size_t> a(all.size(), 0);
    for (;;) {
      vector<int> rpOf(N, -1); for (size_t t = 0; t < all.size(); t++) rpOf[all[t]] = near[all[t]][a[t]];
      std::set<int> seen;
      std::function<void(int, double)> rec = [&](int mask, double pr) {
        if (__builtin_popcount(mask) == K) { R.sets.insert(mask); R.law[mask] += pr; return; }
        if (!R.exactLaw && !seen.insert(mask).second) return;
        vector<int> cnt(Q, 0); vector<vector<int>> mem(Q);
        for (int i : all) { if (mask >> i & 1) cnt[rpOf[i]]++; else mem[rpOf[i]].push_back(i); }
        int mn = 1 << 30; for (int j = 0; j < Q; j++) if (!mem[j].empty()) mn = std::min(mn, cnt[j]);
        vector<int> cand; for (int j = 0; j < Q; j++) if (!mem[j].empty() && cnt[j] == mn) cand.push_back(j);
        for (int j : cand) {
          vector<int> picks = mem[j];
          if (cnt[j] == 0) {
            double md = INFINITY; for (int i : mem[j]) md = std::min(md, dist[i]);
            picks.clear(); for (int i : mem[j]) if (dist[i] <= md + 1e-9) picks.push_back(i);
            if (picks.size() > 1) R.exactLaw = false;
          }
          for (int i : picks) rec(mask | 1 << i, pr / cand.size() / picks.size());
        }
      };
      rec(base, 1);
      int t = int(all.size()) - 1; while (t >= 0 && ++a[t] == near[all[t]].size()) a[t--] = 0;
      if (t < 0) break;
    }
  }
  return R;
}

template <class S> int maskOf(S &s, bool &sane) {
  int m = 0; sane = true;
  for (auto &g : s.population()) {
    const Ind &d = g.decision_variable;
    if (d.id < 0 || d.id >= W.next || d.chk != seal(d.id) || (m >> d.id & 1)) { sane = false; continue; }
    const Vec &f = W.fit(d.id);
    if (!g.is_fitness_computed || (size_t)g.fitness.size() != f.size()) { sane = false; continue; }
    for (size_t k = 0; k < f.size(); k++) if (g.fitness[k] != f[k]) sane = false;
    m |= 1 << d.id;
  }
  return m;
}

template <class S> void frontChecks(S &s, bool greater) {
  const auto &pop = s.population();
  typedef typename S::Fitness_t Fit;
  std::set<const void *> members; for (auto &g : pop) members.insert(&g);
  bool live = true; std::multiset<Vec> want, got, got2; std::set<int> wantIds, gotIds;
  for (auto &g : pop) {
    bool d = false; for (auto &h : pop) d |= dom(greater, W.fit(h.decision_variable.id), W.fit(g.decision_variable.id));
    if (!d) { want.insert(W.fit(g.decision_variable.id)); wantIds.insert(g.decision_variable.id); }
  }
  for (auto *g : s.pfGenes()) if (!members.count(g)) live = false;
  MC_P("B01", live, "frontlive", "the Pareto front refers to an individual that is not in the population");
  if (!live) return;
  for (auto *g : s.pfGenes()) gotIds.insert(g->decision_variable.id);
  vector<Fit> fr(2, s.bestFitness()); s.paretoFront(fr);   // whatever the caller's container held is replaced
  for (auto &f : fr) got.insert(Vec(f.data(), f.data() + f.size()));
  vector<std::pair<const Ind *, const Fit *>> pr(1, {&pop.front().decision_variable, &fr.front()}); s.paretoFront(pr);
  bool pairOk = true;
  for (auto &q : pr) { got2.insert(Vec(q.second->data(), q.second->data() + q.second->size())); const Vec &w = W.fit(q.first->id); pairOk &= Vec(q.second->data(), q.second->data() + q.second->size()) == w; }
  MC_P("B01", gotIds == wantIds && s.pfGenes().size() == wantIds.size(), "front", "reported front has %zu members, %zu of the population are non-dominated", s.pfGenes().size(), wantIds.size());
  MC_P("B01", got == want, "frontvalues", "paretoFront() values differ from the non-dominated members' objectives");
  MC_P("B01", got2 == want && pairOk, "frontpairs", "paretoFront() pairs differ from the non-dominated members");
  Vec best; for (auto &g : pop) { const Vec &f = W.fit(g.decision_variable.id); if (best.empty()) best = f; for (size_t k = 0; k < f.size(); k++) best[k] = greater ? std::max(best[k], f[k]) : std::min(best[k], f[k]); }
  const Fit b = s.bestFitness();
  MC_P("B01", Vec(b.data(), b.data() + b.size()) == best, "ideal", "bestFitness() is not the component-wise best of the population");
  const auto &rec = s.record();
  MC_P("B01", rec.size() == s.generation() + 1 && Vec(rec.back().data(), rec.back().data() + rec.back().size()) == best, "record", "record has %zu entries after %zu generations or a wrong last entry", rec.size(), s.generation());
}

template <class S> void setObj(S &s, int M) { if constexpr (S::Fitness_t::RowsAtCompileTime == Eigen::Dynamic) s.setObjectiveNum(M); else { (void)s; (void)M; } }
template <class S> void prep(S &s, int M) { s.setiFun(iFun); s.setfFun(fFun<typename S::Fitness_t>); s.setcFun(cFun); s.setmFun(mFun); setObj(s, M); }

// mode 3: shrink from N to K by lowering populationSize; mode 0: populationSize K, mutation doubles
template <class S> void go(S &s, int N, int K, int mode, int gens = 1) {
  GAOption o; o.maxFailTimes = 0; o.crossoverProb = mode == 1 ? 1 : 0; o.mutateProb = mode == 0 ? 1 : 0;
  if (mode == 3) { o.populationSize = N; o.maxGenerations = 0; s.setOption(o); s.initializePop(); o.populationSize = K; s.setOption(o); W.always = true; }
  else { o.populationSize = K; o.maxGenerations = gens; s.setOption(o); s.initializePop(); }
  s.run();
  mc::ctx().active = false; W.armed = W.always = false;
}

static void tables(int n, int levels, const std::function<void(const vector<int> &, long)> &f) {
  vector<int> t(n, 0); long idx = 0;
  for (;;) { f(t, idx++); int i = n - 1; while (i >= 0 && ++t[i] == levels) t[i--] = 0; if (i < 0) return; }
}
// handmade tables with crowded niches, without ties: every order of the individuals' places is tried through rotations
static const vector<vector<Vec>> CROWD = {
  {{1, 9}, {9, 1}, {5.2, 4.7}, {7, 7.2}, {6.9, 7.3}, {6.7, 7.4}},               // the middle niche already has one member
  {{1, 9}, {9, 1}, {5.2, 4.7}, {5, 4.9}, {7, 7.2}, {6.9, 7.3}, {6.7, 7.4}},     // ... two members
  {{0, 10}, {10, 0}, {1, 8.5}, {1.2, 8.3}, {1.5, 8.1}},                         // the niche of an extreme point is crowded
  {{0, 10, 0.5}, {10, 0, 0.3}, {0.2, 0.4, 10}, {5, 5.1, 0.6}, {4.8, 5.2, 0.9}, {4.7, 5.35, 0.7}, {5.2, 4.8, 1.2}},
  {{0, 10, 0.5}, {10, 0, 0.3}, {0.2, 0.4, 10}, {3.4, 3.3, 3.2}, {3.6, 3.1, 3.3}, {3.1, 3.7, 3.4}, {3.9, 3.5, 2.7}},
};
// objective tables: grid (all assignments of `levels` values) or permutations (all values distinct per objective)
static const double PV[] = {0, 1, 3, 7, 15, 20, 28, 50, 51, 70};
static void objTables(int N, int M, int levels, bool perms, double step, const std::function<void(const vector<Vec> &, long)> &f) {
  if (levels < 0) {  // handmade table -levels - 1, from every rotation
    const auto &t = CROWD[-levels - 1]; if ((int)t.size() != N || (int)t[0].size() != M) abort();
    for (int r = 0; r < N; r++) { vector<Vec> v; for (int i = 0; i < N; i++) v.push_back(t[(i + r) % N]); f(v, r); }
    return;
  }
  if (!perms) {
    tables(N * M, levels, [&](const vector<int> &t, long idx) {
      vector<Vec> v(N, Vec(M)); for (int i = 0; i < N; i++) for (int k = 0; k < M; k++) v[i][k] = step * t[i * M + k] * (1 + k) - k; f(v, idx);
    });
    return;
  }
  // first objective in a fixed non-monotone order, the others in every order
  vector<vector<int>> perm(M, vector<int>(N)); for (auto &q : perm) std::iota(q.begin(), q.end(), 0);
  for (int i = 0; i + 1 < N; i += 2) std::swap(perm[0][i], perm[0][i + 1]);
  long idx = 0;
  for (;;) {
    vector<Vec> v(N, Vec(M)); for (int i = 0; i < N; i++) for (int k = 0; k < M; k++) v[i][k] = step * PV[perm[k][i]] - k * 5; f(v, idx++);
    int k = M - 1;
    while (k >= 1 && !std::next_permutation(perm[k].begin(), perm[k].end())) k--;
    if (k < 1) return;
  }
}

struct Cfg { int N, K, M, levels; bool perms; int mode; double step; };

template <int OM, FitnessOption F> void nsga2(const vector<Cfg> &cfgs) {
  auto &c = mc::ctx(); const bool G = F == FITNESS_GREATER_BETTER;
  long skipped = 0;
  for (auto &g : cfgs) {
    if (OM != Eigen::Dynamic && g.M != OM) continue;
    objTables(g.N, g.M, g.levels, g.perms, g.step, [&](const vector<Vec> &t, long idx) {
      if (idx % c.nranks != c.rank) return;
      mc::explore(mc::fmt("nsga2-%d-%s", OM, G ? "max" : "min"), mc::fmt("K=%d mode=%d f=%s", g.K, g.mode, tstr(t).c_str()), [&] {
        W = World(); W.table = t;
        NSGA2<Ind, OM, F, RECORD_FITNESS> s; prep(s, g.M);
        go(s, g.N, g.K, g.mode);
        vector<Vec> pre; for (int i = 0; i < W.next; i++) pre.push_back(W.fit(i));
        bool sane; const int m = maskOf(s, sane);
        mc::stats().transitions++;
        mc::state(mc::h64(mc::hstr(tstr(t)), m)); mc::outcome(m);
        MC_P("B02", sane && (int)s.population().size() == g.K, "size", "NSGA2 kept %zu of %d, populationSize %d%s", s.population().size(), W.next, g.K, sane ? "" : " (survivor altered or duplicated)");
        if (c.prop == "B02" && sane) {
          std::set<int> ok;
          if (nsga2Allowed(G, pre, g.K, ok)) MC_P("B02", ok.count(m), "crowding", "survivor set %x is not one the documented rule allows (%zu allowed)", m, ok.size());
          else {
            skipped++;
            Layers L = layers(G, pre, g.K); bool lay = true; for (int i : L.sel) lay &= m >> i & 1;
            for (int i = 0; i < W.next; i++) if ((m >> i & 1) && std::find(L.sel.begin(), L.sel.end(), i) == L.sel.end() && std::find(L.fl.begin(), L.fl.end(), i) == L.fl.end()) lay = false;
            MC_P("B02", lay, "layers", "an individual dominated by more members was preferred");
          }
        }
        if (c.prop == "B01") frontChecks(s, G);
        if (c.rank == 0 && c.st.executions % 997 == 0) mc::sample(mc::fmt("NSGA2<%d> %s K=%d f=%s -> survivors mask %x", OM, G ? "max" : "min", g.K, tstr(t).c_str(), m));
      });
    });
  }
  if (skipped) c.st.notes.push_back(mc::fmt("nsga2: %ld tables with too many ties: layer order only", skipped));
}

template <class S> static vector<Vec> rpsOf(S &s) { vector<Vec> r; const auto &m = s.referencePoints(); for (int c = 0; c < m.cols(); c++) { Vec v; for (int k = 0; k < m.rows(); k++) v.push_back(m(k, c)); r.push_back(v); } return r; }

template <class S> struct HasRefPoints : std::false_type {};
template <int OM, RecordOption R, ReferencePointOption RO> struct HasRefPoints<NSGA3<Ind, OM, R, RO>> : std::true_type {};

template <int OM, ReferencePointOption RO> void nsga3(const vector<Cfg> &cfgs, int prec, bool lawMode) {
  auto &c = mc::ctx();
  long skipped = 0, laws = 0; const auto saved = c.real_menu;
  for (auto &g : cfgs) {
    if (OM != Eigen::Dynamic && g.M != OM) continue;
    objTables(g.N, g.M, g.levels, g.perms, g.step, [&](const vector<Vec> &t, long idx) {
      if (idx % c.nranks != c.rank) return;
      Niche ref; bool have = false; std::map<int, double> got; bool isLaw = lawMode; int leaves = 0;
      if (lawMode) { c.real_menu.clear(); for (int i = 0; i < 6; i++) c.real_menu.push_back((i + 0.5) / 6); c.max_dev = 1 << 30; c.horizon = 16; }
      else { c.real_menu = {0.0, 0.3, 0.6, 1.0 - 1.0 / 9007199254740992.0}; c.max_dev = mc::thorough() ? 4 : 2; c.horizon = 24; }
      mc::explore(mc::fmt("nsga3-%d-%s%s", OM, RO == SINGLE_LAYER ? "single" : "double", lawMode ? "-law" : ""), mc::fmt("K=%d prec=%d mode=%d f=%s", g.K, prec, g.mode, tstr(t).c_str()), [&] {
        W = World(); W.table = t;
        NSGA3<Ind, OM, RECORD_FITNESS, RO> s; prep(s, g.M);
        if constexpr (RO == SINGLE_LAYER) s.setReferencePointPrecision(prec); else s.setReferencePointPrecision(2, prec);
        go(s, g.N, g.K, g.mode);
        bool sane; const int m = maskOf(s, sane);
        mc::state(mc::h64(mc::hstr(tstr(t)), m)); mc::outcome(m);
        MC_P("B04", sane && (int)s.population().size() == g.K, "size", "NSGA3 kept %zu of %d, populationSize %d%s", s.population().size(), W.next, g.K, sane ? "" : " (survivor altered or duplicated)");
        if (c.prop == "B04" && sane) {
          if (!have) { vector<Vec> pre; for (int i = 0; i < W.next; i++) pre.push_back(W.fit(i)); ref = nsga3Allowed(pre, g.K, rpsOf(s)); have = true; if (!ref.tractable) skipped++; }
          if (ref.tractable) MC_P("B04", ref.sets.count(m), "niche", "survivor set %x is not one reference-point niching allows (%zu allowed)", m, ref.sets.size());
          else {
            vector<Vec> pre; for (int i = 0; i < W.next; i++) pre.push_back(W.fit(i));
            Layers L = layers(false, pre, g.K); bool lay = true; for (int i : L.sel) lay &= m >> i & 1;
            for (int i = 0; i < W.next; i++) if ((m >> i & 1) && std::find(L.sel.begin(), L.sel.end(), i) == L.sel.end() && std::find(L.fl.begin(), L.fl.end(), i) == L.fl.end()) lay = false;
            MC_P("B04", lay, "layers", "an individual dominated by more members was preferred");
          }
          got[m] += mc::trail_prob(); leaves++;
        }
        if (c.prop == "B01") frontChecks(s, false);
        if (c.rank == 0 && c.st.executions % 1997 == 0) mc::sample(mc::fmt("NSGA3<%d> K=%d prec=%d f=%s choices=[%s] -> mask %x", OM, g.K, prec, tstr(t).c_str(), mc::trail_str().c_str(), m));
      });
      if (isLaw && have && ref.tractable && ref.exactLaw && !c.replaying && !c.hit_horizon) {
        laws++;
        for (auto &q : ref.law) {
          const double pr = got.count(q.first) ? got[q.first] : 0;
          MC_P("B04", std::abs(pr - q.second) < 1e-6, "niche-law", "survivor set %x has probability %.5f, random tie-breaking among minimal niches gives %.5f (%d executions) f=%s", q.first, pr, q.second, leaves, tstr(t).c_str());
        }
      }
    });
  }
  c.real_menu = saved;
  if (skipped) c.st.notes.push_back(mc::fmt("nsga3: %ld tables with unstable or too many ties: size and layer order only", skipped));
  if (laws) c.st.notes.push_back(mc::fmt("nsga3: exact outcome probabilities compared for %ld tables", laws));
}

// ---- several generations: every selection of a run is judged from the members it started from ----
template <class S, class Set> void chain(const char *name, const char *prop, bool G, int K, int M, int gens, int runs, int levels, bool pinned, int dev, Set &&set) {
  auto &c = mc::ctx(); const int N = K * (gens * runs + 1); long skipped = 0; std::map<vector<Vec>, std::pair<bool, std::set<int>>> memo;
  objTables(N, M, levels, levels == 0, 1, [&](const vector<Vec> &t, long idx) {
    if (pinned) for (int i = 0; i < K; i++) if (t[i][1] != PV[2 * (K - i)] - 5) return;
    if (pinned) idx = long(mc::hstr(tstr(t)) >> 8);
    if (idx % c.nranks != c.rank) return;
    c.real_menu = {0.0, 0.3, 0.6, 1.0 - 1.0 / 9007199254740992.0}; c.max_dev = c.prop == prop ? dev + mc::thorough() : 0; c.horizon = 24;
    mc::explore(mc::fmt("chain-%s", name), mc::fmt("K=%d gens=%d runs=%d pinned=%d f=%s", K, gens, runs, pinned, tstr(t).c_str()), [&] {
      W = World(); W.table = t; S s; prep(s, M); set(s); vector<std::pair<std::set<int>, int>> snaps;
      auto ids = [&] { std::set<int> r; for (auto &g : s.population()) if (g.decision_variable.id >= 0 && g.decision_variable.id < W.next) r.insert(g.decision_variable.id); return r; };
      perGeneration = K; mutations = 0; onGeneration = [&] { c.active = false; W.armed = false; snaps.push_back({ids(), W.next}); };
      GAOption o; o.maxFailTimes = 0; o.crossoverProb = -1; o.mutateProb = 2; o.populationSize = K; o.maxGenerations = gens; s.setOption(o); s.initializePop();
      for (int r = 0; r < runs; r++) { s.run(); c.active = false; W.armed = false; }
      perGeneration = 0; snaps.push_back({ids(), W.next});
      bool sane; maskOf(s, sane);
      MC_P(prop, sane && (int)s.population().size() == K && (int)snaps.size() == gens * runs + 1 && W.next == N, "chain-size", "%zu members and %d individuals after %d generations, populationSize %d%s", s.population().size(), W.next, gens * runs, K, sane ? "" : " (survivor altered or duplicated)");
      uint64_t h = mc::hstr(tstr(t));
      if (sane && c.prop == prop) for (size_t g = 0; g + 1 < snaps.size(); g++) {
        vector<int> pre(snaps[g].first.begin(), snaps[g].first.end()); for (int i = snaps[g].second; i < snaps[g + 1].second; i++) pre.push_back(i);
        vector<Vec> f; int m = 0; bool in = true; for (int i : pre) f.push_back(W.fit(i));
        for (int i : snaps[g + 1].first) { auto it = std::find(pre.begin(), pre.end(), i); if (it == pre.end()) in = false; else m |= 1 << (it - pre.begin()); }
        h = mc::h64(h, m); mc::state(h); mc::stats().transitions++;
        MC_P(prop, in && (int)snaps[g].first.size() == K && (int)pre.size() == 2 * K, "chain-members", "generation %zu: %zu of %zu individuals go on, populationSize %d", g + 1, snaps[g + 1].first.size(), pre.size(), K);
        if (memo.size() > 20000) memo.clear();
        auto it = memo.find(f);
        if (it == memo.end()) { auto &e = memo[f]; if constexpr (HasRefPoints<S>::value) { Niche r = nsga3Allowed(f, K, rpsOf(s)); e = {r.tractable, r.sets}; } else e.first = nsga2Allowed(G, f, K, e.second); it = memo.find(f); }
        if (!it->second.first) { skipped++; continue; }
        const std::set<int> &ok = it->second.second;
        MC_P(prop, ok.count(m), "chain", "generation %zu: survivors %x of the individuals %s are not what the documented rule allows", g + 1, m, tstr(f).c_str());
      }
      mc::outcome(h);
      if (c.prop == "B01") frontChecks(s, G);
      if (c.rank == 0 && c.st.executions % 1999 == 0) mc::sample(mc::fmt("%s K=%d generations=%d x %d f=%s", name, K, gens, runs, tstr(t).c_str()));
    });
  });
  if (skipped) c.st.notes.push_back(mc::fmt("%s: %ld selections with too many ties not judged", name, skipped));
}

// ---- B05 reference points ----
static double choose_(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return std::round(r); }
// every point: non-negative multiples of scale/p summing to scale, all distinct, complete
static void simplex(const vector<Vec> &pts, int M, int p, double scale, const char *what) {
  const double want = choose_(M + p - 1, p);
  MC_P("B05", pts.size() == (size_t)want, "count", "%s: %zu reference points, the simplex lattice has %g (objectives %d, precision %d)", what, pts.size(), want, M, p);
  std::set<vector<int>> seen; bool lat = true, sum = true;
  for (auto &v : pts) {
    vector<int> q; int tot = 0;
    for (double x : v) { const double y = x / scale * p; const int r = (int)std::lround(y); lat &= r >= 0 && r <= p && std::abs(y - r) < 1e-6; q.push_back(r); tot += r; }
    sum &= tot == p;
    seen.insert(q);
  }
  MC_P("B05", lat, "lattice", "%s: a coordinate is not a multiple of 1/precision (objectives %d, precision %d)", what, M, p);
  MC_P("B05", sum, "sum", "%s: a reference point does not lie on its hyperplane (objectives %d, precision %d)", what, M, p);
  MC_P("B05", seen.size() == (size_t)want, "distinct", "%s: %zu distinct of %g reference points (objectives %d, precision %d)", what, seen.size(), want, M, p);
}
template <int OM> void refpoints() {
  auto &c = mc::ctx(); long idx = 0;
  for (int M = 2; M <= (mc::thorough() ? 8 : 7); M++) {
    if (OM != Eigen::Dynamic && M != OM) continue;
    for (int p = 1; p <= (mc::thorough() ? 14 : 10); p++) {
      const double n = choose_(M + p - 1, p);
      if (n > 8000 || M + p - 1 > 20) continue;
      if ((idx++) % c.nranks != c.rank) continue;
      c.max_dev = n <= 10 ? 2 : 0; c.horizon = 4096;
      mc::explore(mc::fmt("rp-single-%d", OM), mc::fmt("M=%d p=%d", M, p), [&] {
        W = World(); W.table = {Vec(M, 0.0)};
        NSGA3<Ind, OM, DONT_RECORD_FITNESS, SINGLE_LAYER> s; prep(s, M);
        s.setReferencePointPrecision(p); GAOption o; o.populationSize = 1; s.setOption(o);
        c.active = true; s.initializePop(); c.active = false;
        auto r = rpsOf(s); mc::stats().transitions += r.size();
        uint64_t h = 1; for (auto &v : r) for (double x : v) h = mc::h64(h, (uint64_t)std::llround(x * 1e6)); mc::state(h); mc::outcome(mc::h64(M, p));
        MC_P("B05", s.referencePointCount() == r.size() && s.referencePointPrecision() == (size_t)p, "accessors", "referencePointCount() %zu but %zu points", s.referencePointCount(), r.size());
        MC_P("B05", r.empty() || (int)r[0].size() == M, "dims", "reference points have %zu coordinates for %d objectives", r[0].size(), M);
        simplex(r, M, p, 1.0, "single layer");
        if (c.rank == 0) mc::sample(mc::fmt("single layer M=%d p=%d: %zu points", M, p, r.size()));
      });
    }
    for (int pi = 2; pi <= 6; pi++) for (int po = 2; po <= 6; po++) {
      if (choose_(M + pi - 1, pi) + choose_(M + po - 1, po) > 3000) continue;
      if ((idx++) % c.nranks != c.rank) continue;
      c.max_dev = 0;
      mc::explore(mc::fmt("rp-double-%d", OM), mc::fmt("M=%d pi=%d po=%d", M, pi, po), [&] {
        W = World(); W.table = {Vec(M, 0.0)};
        NSGA3<Ind, OM, DONT_RECORD_FITNESS, DOUBLE_LAYER> s; prep(s, M);
        s.setReferencePointPrecision(pi, po); GAOption o; o.populationSize = 1; s.setOption(o);
        c.active = true; s.initializePop(); c.active = false;
        auto r = rpsOf(s); mc::stats().transitions += r.size();
        mc::state(mc::h64(mc::h64(M, pi), po)); mc::outcome(mc::h64(mc::h64(M, pi), po));
        MC_P("B05", s.referencePointCount() == r.size() && s.innerPrecision() == (size_t)pi && s.outerPrecision() == (size_t)po, "accessors", "referencePointCount() %zu but %zu points", s.referencePointCount(), r.size());
        vector<Vec> in, out; double sc = -1; bool same = true;
        for (auto &v : r) { double t = 0; for (double x : v) t += x; if (t < 1 - 1e-6) { in.push_back(v); if (sc < 0) sc = t; same &= std::abs(t - sc) < 1e-9; } else out.push_back(v); }
        MC_P("B05", same && sc > 0 && sc < 1, "inner", "inner layer is not one plane strictly inside the outer one (M=%d)", M);
        if (same && sc > 0) simplex(in, M, pi, sc, "inner layer");
        simplex(out, M, po, 1.0, "outer layer");
        if (c.rank == 0) mc::sample(mc::fmt("double layer M=%d p=%d,%d: %zu+%zu points, inner scale %.6f", M, pi, po, in.size(), out.size(), sc));
      });
    }
  }
}

int mc::main_impl() {
  const string p = ctx().prop; const bool th = thorough();
  const vector<Cfg> two = {{4, 2, 2, 3, false, 3, 1}, {4, 3, 2, 2, false, 3, 0.5}, {4, 2, 2, 3, false, 0, 1}, {5, 3, 2, 2, false, 3, 1}, {6, 3, 2, 2, false, 0, 1}, {5, 3, 2, 0, true, 3, 1}, {6, 4, 2, 0, true, 3, 0.01}, {6, 3, 2, 0, true, 0, 1}, {7, 4, 2, 0, true, 3, 1000}, {2, 1, 2, 3, false, 3, 1}, {3, 3, 2, 3, false, 3, 1}, {7, 2, 2, 0, true, 3, 1}};
  const vector<Cfg> three = {{3, 2, 3, 2, false, 3, 1}, {4, 2, 3, 2, false, 3, 1}, {4, 2, 3, 0, true, 3, 1}, {5, 3, 3, 0, true, 3, 0.1}, {4, 3, 3, 0, true, 3, 100}, {2, 2, 3, 3, false, 3, 1}};
  vector<Cfg> t2 = two, t3 = three;
  if (th) { t2.push_back({8, 5, 2, 0, true, 3, 1}); t2.push_back({5, 2, 2, 3, false, 3, 1}); t2.push_back({5, 3, 2, 3, false, 3, 1}); t2.push_back({8, 4, 2, 0, true, 0, 0.2}); t3.push_back({5, 2, 3, 0, true, 3, 1}); t3.push_back({5, 3, 3, 2, false, 3, 1}); }
#ifdef SMALL  // the branch compiled without OpenMP: smaller bounds
  t2 = {{4, 2, 2, 3, false, 3, 1}, {5, 3, 2, 0, true, 3, 1}, {6, 3, 2, 0, true, 0, 1}, {2, 1, 2, 3, false, 3, 1}}; t3 = {{3, 2, 3, 2, false, 3, 1}, {4, 2, 3, 0, true, 3, 1}};
#endif
#if PART & 1
  section("nsga2-fixed2-min", [&] { nsga2<2, FITNESS_LESS_BETTER>(t2); });
  section("nsga2-fixed3-min", [&] { nsga2<3, FITNESS_LESS_BETTER>(t3); });
  section("nsga2-dynamic-max", [&] { nsga2<Eigen::Dynamic, FITNESS_GREATER_BETTER>({{4, 2, 2, 3, false, 3, 1}, {5, 3, 2, 0, true, 3, 1}, {6, 3, 2, 0, true, 0, 1}, {4, 2, 3, 0, true, 3, 1}, {4, 2, 4, 2, false, 3, 1}}); });
#endif
#if PART & 2
  section("nsga2-fixed2-max", [&] { nsga2<2, FITNESS_GREATER_BETTER>(t2); });
  section("nsga2-fixed3-max", [&] { nsga2<3, FITNESS_GREATER_BETTER>(t3); });
  section("nsga2-dynamic-min", [&] { nsga2<Eigen::Dynamic, FITNESS_LESS_BETTER>({{4, 2, 2, 3, false, 3, 1}, {5, 3, 2, 0, true, 3, 1}, {6, 3, 2, 0, true, 0, 1}, {4, 2, 3, 0, true, 3, 1}, {4, 2, 4, 2, false, 3, 1}}); });
#endif
#if PART & 4
  section("nsga3-fixed2", [&] { nsga3<2, SINGLE_LAYER>(t2, 3, false); });
  section("nsga3-fixed2-double", [&] { nsga3<2, DOUBLE_LAYER>({{4, 2, 2, 3, false, 3, 1}, {6, 3, 2, 0, true, 0, 1}}, 3, false); });
  if (p == "B04") section("nsga3-law", [&] { nsga3<2, SINGLE_LAYER>(th ? vector<Cfg>{{5, 2, 2, 0, true, 3, 1}, {5, 3, 2, 0, true, 3, 1}, {4, 2, 2, 3, false, 3, 1}} : vector<Cfg>{{5, 2, 2, 0, true, 3, 1}, {5, 3, 2, 0, true, 3, 1}, {4, 2, 2, 2, false, 3, 1}}, 2, true); });
  if (p == "B04") section("nsga3-crowd", [&] { vector<Cfg> v{{6, 4, 2, -1, false, 3, 1}, {7, 5, 2, -2, false, 3, 1}, {5, 2, 2, -3, false, 3, 1}}; if (th) { v.push_back({5, 3, 2, -3, false, 3, 1}); } nsga3<2, SINGLE_LAYER>(v, 2, true); });
#endif
#if PART & 8
  section("nsga3-fixed3", [&] { nsga3<3, SINGLE_LAYER>(t3, 2, false); });
  section("nsga3-dynamic", [&] { nsga3<Eigen::Dynamic, SINGLE_LAYER>({{4, 2, 2, 3, false, 3, 1}, {5, 3, 2, 0, true, 3, 1}, {4, 2, 3, 0, true, 3, 1}}, 3, false); });
  if (p == "B04") section("nsga3-crowd3", [&] { nsga3<3, SINGLE_LAYER>({{7, 4, 3, -4, false, 3, 1}, {7, 5, 3, -4, false, 3, 1}, {7, 5, 3, -5, false, 3, 1}, {7, 6, 3, -5, false, 3, 1}}, 2, false); });
  if (p == "B04" && th) section("nsga3-law3", [&] { nsga3<3, SINGLE_LAYER>({{4, 2, 3, 0, true, 3, 1}}, 2, true); });
#endif
#if PART & 32
  if (p != "B04") section("nsga2-chain-min", [&] { auto no = [](auto &) {}; typedef NSGA2<Ind, 2, FITNESS_LESS_BETTER, RECORD_FITNESS> S; chain<S>("nsga2-min", "B02", false, 2, 2, 2, 1, 0, false, 0, no); chain<S>("nsga2-min", "B02", false, 2, 2, 1, 2, 2, false, 0, no); chain<S>("nsga2-min", "B02", false, 2, 2, 3, 1, 0, false, 0, no); chain<S>("nsga2-min", "B02", false, 3, 2, 2, 1, 0, true, 0, no); });
  if (p != "B02") section("nsga3-chain", [&] { auto set = [](auto &s) { s.setReferencePointPrecision(3); }; typedef NSGA3<Ind, 2, RECORD_FITNESS, SINGLE_LAYER> S; chain<S>("nsga3", "B04", false, 2, 2, 2, 1, 0, false, 2, set); chain<S>("nsga3", "B04", false, 2, 2, 1, 2, 2, false, 1, set); chain<S>("nsga3", "B04", false, 3, 2, 2, 1, 0, true, 1, set); if (th) chain<S>("nsga3", "B04", false, 2, 2, 3, 1, 0, false, 1, set); });
  if (p != "B04") section("nsga2-chain-max", [&] { auto no = [](auto &) {}; typedef NSGA2<Ind, Eigen::Dynamic, FITNESS_GREATER_BETTER, RECORD_FITNESS> S; chain<S>("nsga2-max", "B02", true, 2, 2, 2, 1, 2, false, 0, no); chain<S>("nsga2-max", "B02", true, 2, 2, 1, 2, 0, false, 0, no); chain<S>("nsga2-max", "B02", true, 2, 3, 2, 1, 0, true, 0, no); });
  if (p != "B02") section("nsga3-chain3", [&] { auto set = [](auto &s) { s.setReferencePointPrecision(2); }; typedef NSGA3<Ind, 3, RECORD_FITNESS, SINGLE_LAYER> S; chain<S>("nsga3-3", "B04", false, 2, 3, 2, 1, 0, true, 1, set); auto dbl = [](auto &s) { s.setReferencePointPrecision(2, 2); }; typedef NSGA3<Ind, Eigen::Dynamic, RECORD_FITNESS, DOUBLE_LAYER> D; 
    if (p == "B04") chain<D>("nsga3-dynamic", "B04", false, 2, 2, 2, 1, 2, false, 0, dbl);
  });
#endif
#if PART & 16
  section("rp-fixed2", [] { refpoints<2>(); }); section("rp-fixed3", [] { refpoints<3>(); }); section("rp-fixed5", [] { refpoints<5>(); });
  section("rp-dynamic", [] { refpoints<Eigen::Dynamic>(); });
#endif
  return 0;
}
