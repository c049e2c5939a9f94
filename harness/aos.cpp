// F01 (layers and electron moves) and F02 (best, record, counters, evaluate once): AOS over every supported
// container and box through its public interface; initial energies, layer numbers, photon decisions and all
// other random answers (including std::rand, which Eigen's Random() uses) are enumerated.
#include <HeuristicFlow/Global>
#include <HeuristicFlow/SimpleMatrix>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/AOS>
using namespace heu;
using std::string; using std::vector;
static double lastRand() { return mc::env_real(); }
extern "C" int rand(void) noexcept { const double q = lastRand(); return int(q * RAND_MAX); }

template <class V> vector<double> flat(const V &v) { vector<double> r; for (int i = 0; i < (int)v.size(); i++) r.push_back(v.data()[i]); return r; }
static uint64_t hv(uint64_t h, const vector<double> &v) { for (double x : v) { uint64_t u; memcpy(&u, &x, 8); h = mc::h64(h, u); } return h; }
static string show(const vector<double> &v) { string s; for (double x : v) s += mc::fmt("%s%.9g", s.empty() ? "" : ",", x + 0.0); return s; }
struct Args { int tag = 0; };
struct World {
  int dim = 1, kind = 0, mode = 0, levels = 3; bool square = true, inf = false;
  vector<vector<double>> pos; vector<double> en; bool outside = false, badSize = false, badArg = false; const void *args = nullptr; int inits = 0; std::map<vector<double>, double> memo;
  double lo(int i) const { return inf ? -INFINITY : square ? -1.0 : -1.0 - i; }
  double hi(int i) const { return inf ? INFINITY : square ? 2.0 : 2.0 + 0.5 * i; }
  double dl(int i) const { return kind == 1 ? 4.0 : square || inf ? 0.25 : 0.25 * (i + 1); }
  double fit(const vector<double> &x) {
    auto it = memo.find(x); if (it != memo.end()) return it->second;
    const int k = (int)memo.size();
    double f = 0;
    if (mode == 0) f = mc::choose(levels, (2 * k + 1) % levels) - 1.0;                                  // ties
    else if (mode == 1) f = mc::choose(levels, (2 * k + 1) % levels) - 1.0 + 0.001 * ((k * 7) % 11) + 1e-5 * k;  // all different
    else f = (k % 2 ? 1 : -1) * 0.5 * (k + 1);
    return memo[x] = f;
  }
  void eval(const vector<double> &x, double *f) {
    if ((int)x.size() != dim) badSize = true;
    for (int i = 0; i < (int)x.size(); i++) if (!(x[i] >= lo(i) && x[i] <= hi(i))) outside = true;
    *f = fit(x); pos.push_back(x); en.push_back(*f);
  }
  double clamp(double x, int i) const { return std::max(lo(i), std::min(hi(i), x)); }
} W;
template <class V> V make() { V v; if constexpr (!array_traits<V>::isFixedSize) { if constexpr (array_traits<V>::isEigenClass && array_traits<V>::isMatrix) v.resize(2, W.dim / 2); else v.resize(W.dim); } return v; }
template <class V> void iF(V *p) { *p = make<V>(); const int k = W.inits++; const double b[] = {0.3, -0.7, 1.6, 0.9, -0.2, 1.9, -0.95, 1.1}; for (int i = 0; i < W.dim; i++) p->data()[i] = b[(k + 3 * i) % 8] + 0.001 * (k / 8); }
template <class V> void iFa(V *p, const Args *a) { if (a != W.args || !a || a->tag != 77) W.badArg = true; iF(p); }
template <class V> void fF(const V *p, double *f) { W.eval(flat(*p), f); }
template <class V> void fFa(const V *p, const Args *a, double *f) { if (a != W.args || !a || a->tag != 77) W.badArg = true; fF(p, f); }

template <class S> struct Tr;
template <class B, FitnessOption F, RecordOption R, class A, typename internal::AOSParameterPack<typename B::Var_t, double, A>::fFun_t ff, typename internal::AOSParameterPack<typename B::Var_t, double, A>::iFun_t ii>
struct Tr<AOS<B, F, R, A, ff, ii>> { typedef typename B::Var_t V; typedef B Box; static constexpr bool less = F == FITNESS_LESS_BETTER, rec = R == RECORD_FITNESS, args = !std::is_void<A>::value, ctf = ff != nullptr, rti = ii == nullptr,
  inf = std::is_same<B, GaussianBox<V>>::value, square = B::Shape == SQUARE_BOX; };
template <class B> struct Fixed { static constexpr bool value = false; };
typedef FixedContinousBox17<Eigen::Array<double, 3, 1>, heu::encode(-1.0), heu::encode(2.0), heu::encode(0.25)> FBox;
template <> struct Fixed<FBox> { static constexpr bool value = true; };
template <class S> void prep(S &s, int kind, int dim, int n, int gens, int early, int maxL, double pr) {
  typedef Tr<S> T; typedef typename T::V V; W.kind = kind; W.dim = dim; W.square = T::square; W.inf = T::inf;
  if constexpr (!array_traits<V>::isFixedSize) { if constexpr (array_traits<V>::isEigenClass && array_traits<V>::isMatrix) s.setDimensions(2, dim / 2); else s.setDimensions(dim); }
  if constexpr (T::inf) { s.setMu(0.5); s.setSigma(1); s.setDelta(W.dl(0)); }
  else if constexpr (Fixed<typename T::Box>::value) { W.kind = 0; }
  else if constexpr (T::square) { s.setRange(W.lo(0), W.hi(0)); s.setDelta(W.dl(0)); }
  else { V a = make<V>(), b = a, c = a; for (int i = 0; i < dim; i++) { a.data()[i] = W.lo(i); b.data()[i] = W.hi(i); c.data()[i] = W.dl(i); } s.setRange(a, b); s.setDelta(c); }
  AOSOption o; o.electronNum = n; o.maxGeneration = gens; o.maxEarlyStop = early; o.maxLayerNum = maxL; o.photonRate = pr; s.setOption(o);
  if constexpr (T::args) { Args a; a.tag = 77; s.setArg(a); W.args = &s.arg(); }
  if constexpr (!T::ctf) { if constexpr (T::args) s.setfFun(fFa<V>); else s.setfFun(fF<V>); }
  if constexpr (T::rti) { if constexpr (T::args) s.setiFun(iFa<V>); else s.setiFun(iF<V>); }
}
template <class S> bool better(double a, double b) { return Tr<S>::less ? a < b : a > b; }

// documented layer sizes: Gaussian weights, rounded; electrons left over by the rounding fill the outer layers one by one
static vector<int> layerSizes(int N, int L) {
  vector<double> w(L); double s = 0; for (int i = 0; i < L; i++) { w[i] = std::exp(-(i + 1.0) * (i + 1) / (2 * (L / 6.0) * (L / 6.0))); s += w[i]; }
  vector<int> r, cum; int c = 0; for (int i = 0; i < L; i++) { c = std::min(N, c + int(std::floor(N * w[i] / s + 0.5))); cum.push_back(c); }
  size_t cur = 0; r.push_back(0); for (int k = 0; k < N; k++) { if (k >= cum[cur]) { cur++; r.push_back(0); } r.back()++; }
  return r;
}
// may child c have come from parent p of layer k (1-based)?
struct Gen { vector<vector<double>> x; vector<double> e; vector<double> bs; double be; vector<double> best; vector<vector<double>> mean; vector<vector<double>> lbest; vector<double> lbe; vector<int> layer; };
template <class S> bool canMove(const Gen &g, int p, const vector<double> &c, double pr, const vector<double> &menu, double tol) {
  const int k = g.layer[p]; bool ph = pr < 1, np = pr > 0;
  const bool own = better<S>(g.e[p], g.lbe[k]);
  const vector<double> &B = own ? g.lbest[k] : g.best, &M = own ? g.mean[k] : g.bs; const double div = own ? 1 : k + 1;
  for (int i = 0; i < W.dim && (ph || np); i++) {
    bool a = false, b = false;
    if (ph) for (double al : menu) for (double be : menu) for (double ga : menu) a |= std::abs(W.clamp(g.x[p][i] + al * (be * B[i] - ga * M[i]) / div, i) - c[i]) <= tol;
    if (np) for (double q : menu) b |= std::abs(W.clamp(g.x[p][i] + W.dl(i) * (2 * q - 1), i) - c[i]) <= tol;
    ph &= a; np &= b;
  }
  return ph || np;
}
static bool match(const vector<vector<char>> &ok) {
  const int n = (int)ok.size(); bool id = true; for (int i = 0; i < n; i++) id &= ok[i][i]; if (id) return true;
  vector<int> to(n, -1); std::function<bool(int, vector<char> &)> go = [&](int p, vector<char> &seen) { for (int c = 0; c < n; c++) if (ok[p][c] && !seen[c]) { seen[c] = 1; if (to[c] < 0 || go(to[c], seen)) { to[c] = p; return true; } } return false; };
  for (int p = 0; p < n; p++) { vector<char> seen(n, 0); if (!go(p, seen)) return false; }
  return true;
}
template <class S> void fill(Gen &g, const vector<vector<double>> &px, const vector<double> &pe, int n) {
  // population -> statistics over everything evaluated, survivors sorted
  g = Gen(); g.bs.assign(W.dim, 0); g.be = 0; for (size_t i = 0; i < px.size(); i++) { for (int k = 0; k < W.dim; k++) g.bs[k] += px[i][k] / px.size(); g.be += pe[i] / px.size(); }
  vector<int> o(px.size()); for (size_t i = 0; i < o.size(); i++) o[i] = (int)i; std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return better<S>(pe[a], pe[b]); });
  for (int i = 0; i < n; i++) { g.x.push_back(px[o[i]]); g.e.push_back(pe[o[i]]); }
  g.best = g.x[0];
}
static void layers(Gen &g, int L) {
  const int n = (int)g.x.size(); auto sz = layerSizes(n, L); g.layer.assign(n, 0); g.mean.clear(); g.lbest.clear(); g.lbe.clear(); int a = 0;
  for (size_t k = 0; k < sz.size(); k++) { vector<double> m(W.dim, 0); double e = 0; for (int i = a; i < a + sz[k]; i++) { g.layer[i] = (int)k; e += g.e[i] / sz[k]; for (int d = 0; d < W.dim; d++) m[d] += g.x[i][d] / sz[k]; } g.mean.push_back(m); g.lbe.push_back(e); g.lbest.push_back(g.x[a]); a += sz[k]; }
}

template <class S> void finalState(S &s, int n, const char *when) {
  MC_P("F01", s.electrons().size() == size_t(n), "count", "%s: %zu electrons, electronNum %d", when, s.electrons().size(), n);
  std::set<const void *> all, seen; for (auto &e : s.electrons()) all.insert(&e);
  bool part = true, sorted = true, nonempty = !s.layers().empty(); double worst = 0; bool first = true; size_t tot = 0;
  for (auto &l : s.layers()) {
    nonempty &= !l.empty(); double w = 0; bool f = true; tot += l.size();
    for (auto *e : l) { if (!all.count(e)) { part = false; continue; } part &= seen.insert(e).second; if (!first && better<S>(e->energy, worst)) sorted = false; if (f || better<S>(w, e->energy)) w = e->energy; f = false; }
    if (!l.empty()) { worst = w; first = false; }
  }
  MC_P("F01", part && tot == s.electrons().size() && nonempty && s.layers().size() <= s.option().maxLayerNum, "partition", "%s: the %zu layers (at most %zu) do not split the electrons: %zu of %zu, %s", when, s.layers().size(), s.option().maxLayerNum, seen.size(), all.size(), nonempty ? "foreign or repeated members" : "an empty layer");
  MC_P("F01", sorted, "sorted", "%s: an electron of an outer layer is better than one of an inner layer", when);
  for (auto &e : s.electrons()) { auto x = flat(e.state); bool in = (int)x.size() == W.dim; for (int i = 0; in && i < W.dim; i++) in = x[i] >= W.lo(i) && x[i] <= W.hi(i);
    MC_P("F01", in, "box", "%s: an electron at %s is outside the box", when, show(x).c_str());
    MC_P("F02", e.isComputed && e.energy == W.fit(x), "energy", "%s: an electron carries energy %g, its state has %g", when, e.energy, W.fit(x)); }
}

template <class S> void life(const char *name, int kind, int dim, int n, int gens, int early, int maxL, double pr, int mode, int runs, double dev) {
  auto &c = mc::ctx(); c.real_menu = {0.5, 0.0, 1 - 1 / 9007199254740992.0, 0.25}; c.budget = dev; c.horizon = 400;
  const double tol = 1e-8;
  mc::explore(string("life-") + name, mc::fmt("delta=%d dim=%d n=%d gens=%d early=%d layers=%d photonRate=%g ties=%d runs=%d", kind, dim, n, gens, early, maxL, pr, mode == 0, runs), [&] {
    W = World(); W.mode = mode; S s; prep(s, kind, dim, n, gens, early, maxL, pr);
    size_t m = 0, recBase = 0; double g = 0; int fail0 = 0, fail1 = 0; size_t genBase = 0;
    vector<vector<double>> px; vector<double> pe;
    for (int r = 0; r < runs; r++) {
      const bool re = r == 0 || r == 2; if (r == 1) { auto o = s.option(); o.maxGeneration = gens + 1; s.setOption(o); } if (r == 2) { auto o = s.option(); o.maxGeneration = gens; s.setOption(o); }
      if (re) {
        m = W.pos.size(); s.initializePop(); recBase = 0; genBase = 0; fail0 = 0; fail1 = 0; px.clear(); pe.clear();
        MC_P("F02", s.electrons().size() == size_t(n) && W.pos.size() == m && s.generation() == 0 && s.earlyStopCounter() == 0, "init", "initializePop: %zu electrons, %zu evaluations, generation %zu", s.electrons().size(), W.pos.size() - m, s.generation());
      }
      m = W.pos.size();
      c.active = true; s.run(); c.active = false;
      const size_t gen = s.generation(), steps = gen - genBase, news = W.pos.size() - m;
      const size_t rounds = steps + 1;  // evaluation rounds of this run
      MC_P("F02", gen >= genBase && news == (re ? rounds : steps) * n, "evals", "%zu evaluations in %zu generations of %d electrons", news, steps, n);
      vector<double> rec; bool moved = true, early1 = false; size_t at = m; Gen G;
      for (size_t k = 0; k < rounds && at <= W.pos.size(); k++) {
        const bool has = re || k > 0; double prev = g;
        if (has) { if (at + n > W.pos.size()) break;
          if (k > 0 && mode == 1) {  // children against the previous generation's survivors, for some number of layers
            bool ok = false; string why;
            for (int L = 1; L <= maxL && !ok; L++) { layers(G, L); vector<vector<char>> cm(n, vector<char>(n)); for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) cm[p][q] = canMove<S>(G, p, W.pos[at + q], pr, c.real_menu, tol); ok = match(cm); }
            if (!ok) { for (int i = 0; i < n; i++) why += show(G.x[i]) + "->" + show(W.pos[at + i]) + " "; MC_P("F01", false, "move", "generation %zu: no layering and no random factors give the children: %s (sorted parents -> children), atom best %s mean %s", k, why.c_str(), show(G.best).c_str(), show(G.bs).c_str()); }
            else MC_P("F01", true, "move", "-");
          }
          for (int i = 0; i < n; i++) { px.push_back(W.pos[at + i]); pe.push_back(W.en[at + i]); } at += n; }
        fill<S>(G, px, pe, n); g = G.e[0];
        if (re && k == 0) { fail0 = 0; fail1 = 1; } else if (g == prev) { fail0++; fail1++; } else fail0 = fail1 = 0;
        rec.push_back(g);
        if (k + 1 < rounds && fail0 >= early) early1 = true;
        if (k + 1 == rounds) {
          double bs = 0; for (int i = 0; i < W.dim; i++) bs = std::max(bs, std::abs(flat(s.bindingState())[i] - G.bs[i]));
          MC_P("F02", bs < 1e-9 && std::abs(s.bindingEnergy() - G.be) < 1e-9, "binding", "binding state %s and energy %g, mean of the generation %s and %g", show(flat(s.bindingState())).c_str(), s.bindingEnergy(), show(G.bs).c_str(), G.be);
        }
        // survivors (with ties any choice among equals is fine: continue with the solver's own)
        if (mode == 1 || k + 1 < rounds) { px = G.x; pe = G.e; } else { px.clear(); pe.clear(); for (auto &e : s.electrons()) { px.push_back(flat(e.state)); pe.push_back(e.energy); } }
        mc::state(hv(hv(k + 1, G.e), G.bs));
      }
      if (mode == 1) { std::multiset<double> a, b; for (double x : pe) a.insert(x); for (auto &e : s.electrons()) b.insert(e.energy); MC_P("F01", a == b, "survivors", "the survivors are not the %d best electrons", n); }
      else { vector<double> a = G.e, b; for (auto &e : s.electrons()) b.push_back(e.energy); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MC_P("F01", a == b, "survivors", "the survivors are not the %d best electrons", n); }
      const size_t ec = s.earlyStopCounter();
      MC_P("F02", ec == size_t(fail0) || ec == size_t(fail1), "counter", "earlyStopCounter() %zu, the best energy was unchanged for %d generations", ec, fail0);
      MC_P("F02", !early1 && gen <= size_t(s.option().maxGeneration) && (gen == size_t(s.option().maxGeneration) || ec >= size_t(early)), "stop", "run() ended at generation %zu with earlyStopCounter %zu; limits %zu and %d", gen, ec, s.option().maxGeneration, early);
      bool in = false; for (auto &e : s.electrons()) in |= &e == &s.bestElectron();
      MC_P("F02", in, "best-alive", "bestElectron() is not one of the electrons");
      if (in) MC_P("F02", s.bestElectron().energy == g, "best", "bestElectron() has energy %g, best energy found %g", s.bestElectron().energy, g);
      if constexpr (Tr<S>::rec) { MC_P("F02", s.record().size() == recBase + rec.size() && std::equal(rec.begin(), rec.end(), s.record().begin() + std::min(recBase, s.record().size())), "record", "record %s, best energies of the run %s", show(s.record()).c_str(), show(rec).c_str()); recBase = s.record().size(); }
      genBase = gen; finalState(s, n, "after run()");
      mc::outcome(hv(hv(r + 1, rec), flat(s.bestElectron().state)));
    }
    MC_P("F01", !W.outside && !W.badSize, "eval-box", "the fitness function was given a state outside the box or of the wrong size");
    MC_P("F02", !W.badArg, "args", "a callback did not receive the solver's own arguments");
    if (c.rank == 0 && c.st.executions % 9973 == 0) mc::sample(mc::fmt("%s n=%d dim=%d: %zu evaluations, %zu layers, best %g", name, n, dim, W.pos.size(), s.layers().size(), s.bestElectron().energy));
  });
}
// exact law of the children of one generation
template <class S> void law(const char *name, int dim, int n, double pr, int Q) {
  auto &c = mc::ctx(); c.real_menu.clear(); for (int i = 0; i < Q; i++) c.real_menu.push_back((i + 0.5) / Q); c.max_dev = 1 << 30; c.budget = 0; c.horizon = 64;
  std::map<string, double> got, want; auto key = [](vector<vector<double>> v) { std::sort(v.begin(), v.end()); string k; for (auto &x : v) for (double y : x) k += mc::fmt("%.7f,", y + 0.0 == 0 ? 0.0 : y); return k; };
  vector<vector<double>> px; vector<double> pe;
  mc::explore(string("law-") + name, mc::fmt("dim=%d n=%d photonRate=%g Q=%d", dim, n, pr, Q), [&] {
    W = World(); W.mode = 2; S s; prep(s, 0, dim, n, 1, 100, n, pr); s.initializePop(); c.active = true; s.run(); c.active = false;
    if ((int)W.pos.size() != 2 * n) { MC_P("F01", false, "evals", "%zu evaluations in one generation of %d electrons", W.pos.size(), n); return; }
    px.assign(W.pos.begin(), W.pos.begin() + n); pe.assign(W.en.begin(), W.en.begin() + n);
    const string k = key({W.pos.begin() + n, W.pos.end()}); got[k] += mc::trail_prob(); mc::state(mc::hstr(k)); mc::outcome(mc::hstr(k));
  });
  if (c.replaying || c.prop != "F01" || px.empty()) return;
  Gen G; fill<S>(G, px, pe, n); layers(G, 1);  // fewer than five electrons always form one layer
  double ph = 0; for (double q : c.real_menu) ph += (q >= pr) * 1.0 / Q;
  vector<vector<std::pair<vector<double>, double>>> kids(n);
  for (int p = 0; p < n; p++) {
    const bool own = better<S>(G.e[p], G.lbe[0]); const auto &B = own ? G.lbest[0] : G.best, &M = own ? G.mean[0] : G.bs;
    vector<std::map<double, double>> cp(dim), cn(dim); auto rnd = [](double x) { return std::round(x * 1e10) / 1e10; };
    for (int i = 0; i < dim; i++) { for (double a : c.real_menu) { cn[i][rnd(W.clamp(G.x[p][i] + W.dl(i) * (2 * a - 1), i))] += 1.0 / Q; for (double b : c.real_menu) for (double g : c.real_menu) cp[i][rnd(W.clamp(G.x[p][i] + a * (b * B[i] - g * M[i]), i))] += 1.0 / Q / Q / Q; } }
    for (int w = 0; w < 2; w++) { auto &m = w ? cn : cp; const double base = w ? 1 - ph : ph; if (base <= 0) continue; vector<std::pair<vector<double>, double>> v{{{}, base}};
      for (int i = 0; i < dim; i++) { vector<std::pair<vector<double>, double>> nv; for (auto &q : v) for (auto &z : m[i]) { auto t = q; t.first.push_back(z.first); t.second *= z.second; nv.push_back(t); } v = nv; }
      for (auto &q : v) kids[p].push_back(q); }
  }
  vector<std::pair<vector<vector<double>>, double>> all{{{}, 1}};
  for (int p = 0; p < n; p++) { vector<std::pair<vector<vector<double>>, double>> nv; for (auto &q : all) for (auto &z : kids[p]) { auto t = q; t.first.push_back(z.first); t.second *= z.second; nv.push_back(t); } all = nv; }
  for (auto &q : all) want[key(q.first)] += q.second;
  string bad; double diff = 0; for (auto &w : want) { const double d = std::abs(w.second - got[w.first]); if (d > 1e-9 && bad.empty()) bad = mc::fmt("children %s have probability %g, the move rule gives %g", w.first.c_str(), got[w.first], w.second); diff += d; }
  for (auto &g : got) if (!want.count(g.first) && g.second > 0) { if (bad.empty()) bad = mc::fmt("children %s (probability %g) cannot come from the move rule", g.first.c_str(), g.second); diff += g.second; }
  MC_P("F01", diff < 1e-6, "law", "%s dim=%d n=%d photonRate=%g: %s", name, dim, n, pr, bad.c_str());
}
// layer sizes: exact law over the layer number
template <class S> void sizes(const char *name, int N, int L) {
  auto &c = mc::ctx(); c.real_menu.clear(); for (int i = 0; i < L; i++) c.real_menu.push_back((i + 0.5) / L); c.max_dev = 1 << 30; c.budget = 0; c.horizon = 8;
  std::map<string, double> got, want; auto key = [](const vector<int> &v) { string k; for (int x : v) k += mc::fmt("%d ", x); return k; };
  mc::explore(string("sizes-") + name, mc::fmt("N=%d L=%d", N, L), [&] {
    W = World(); W.mode = 2; S s; prep(s, 0, 1, N, 0, 100, L, 0.5); s.initializePop(); c.active = true; s.run(); c.active = false; finalState(s, N, "layers");
    vector<int> v; for (auto &l : s.layers()) v.push_back((int)l.size()); got[key(v)] += mc::trail_prob(); mc::state(mc::hstr(key(v)));
  });
  if (c.replaying || c.prop != "F01") return;
  for (int k = 1; k <= L; k++) want[key(layerSizes(N, k))] += 1.0 / L;
  for (auto &w : want) MC_P("F01", std::abs(got[w.first] - w.second) < 1e-9, "layer-law", "N=%d maxLayerNum=%d: layer sizes %shave probability %g, the Gaussian distribution over a uniform layer number gives %g", N, L, w.first.c_str(), got[w.first], w.second);
}

static int slot = 0;
static bool mine() { return mc::ctx().replaying || (slot++ % mc::ctx().nranks) == mc::ctx().rank; }
template <class B> void all(const char *name, vector<int> dims, bool deep = false) {
  const bool th = mc::thorough(); auto &c = mc::ctx(); const bool f1 = c.prop == "F01"; typedef typename B::Var_t V;
  typedef AOS<B, FITNESS_LESS_BETTER, RECORD_FITNESS, void, nullptr, nullptr> RT;
  typedef AOS<B, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS, Args, fFa<V>, iFa<V>> CT;
  typedef AOS<B, FITNESS_GREATER_BETTER, RECORD_FITNESS, Args> Def;
  mc::section(name, [&] {
    for (int d : dims) for (int mode : {0, 1}) for (int n : {1, 2, 3, 5, 6}) for (int gens : {0, 1, 2, 3}) for (int early : {1, 2, 100}) for (double pr : {0.0, 0.3, 1.0}) for (int runs : {1, 3}) {
      if (early != 100 && (gens < 2 || n > 3 || mode == 1 || pr != 0.3)) continue;
      if (f1 && mode == 0 && (early != 100 || runs == 3 || gens > 2)) continue;
      if (!f1 && mode == 1 && (pr != 0.3 || n > 3)) continue;
      if (!f1 && mode == 0 && pr != 0.3 && (n > 2 || runs == 3)) continue;
      if (gens == 3 && n > 3) continue;
      if (runs == 3 && (n > 3 || gens > 2)) continue;
      if (!th && !deep && (d != dims.back() || n == 2 || (n == 6 && pr != 0.3))) continue;
      // deviations from the default answers so that one configuration costs at most a few thousand executions
      const int dev = th ? 40000 : deep ? 2500 : 1200;  // executions
      const int kind = (n + gens) % 2;
      if (mine()) life<RT>((string(name) + "-rt").c_str(), kind, d, n, gens, early, std::min(n, 6), pr, mode, runs, dev);
      if (pr == 0.3 && mine()) life<CT>((string(name) + "-ct").c_str(), 1 - kind, d, n, gens, early, std::min(n, 5), pr, mode, runs, dev / 3);
      if (pr == 0.3 && (gens == 1 || gens == 3) && n != 5 && mine()) life<Def>((string(name) + "-def").c_str(), kind, d, n, gens, early, std::min(n, 3), pr, mode, runs, dev / 3);
    }
    if (!f1) return;
    for (int d : dims) for (double pr : {0.0, 0.5, 0.25, 1.0}) { const int Q = 4;
      if (d == 1 && mine()) law<RT>(name, 1, 1, pr, pr == 0.25 ? 4 : 6);
      if (d == 1 && mine()) law<CT>(name, 1, 2, pr, pr == 0.25 ? (th ? 4 : 3) : 2);
      if (d <= 2 && mine()) law<RT>(name, d, 2, pr, 2);
      if (d == 2 && mine()) law<RT>(name, 2, 1, pr, Q); if (d == 3 && mine()) law<RT>(name, 3, 1, pr, 2); }
    if (dims[0] == 1) for (int N = 1; N <= (th ? 40 : deep ? 24 : 12); N++) for (int L = 1; L <= N; L++) if (mine()) sizes<RT>(name, N, L);
  });
}

int mc::main_impl() {
#if PART == 0
  all<ContinousBox<Eigen::ArrayXd, SQUARE_BOX>>("ArrayXd-square", {1, 2}, true);
  all<ContinousBox<Eigen::Array2d, RECTANGLE_BOX>>("Array2d-rect", {2});
  all<ContinousBox<Eigen::ArrayXXd, RECTANGLE_BOX>>("ArrayXXd-rect", {4});
  all<GaussianBox<Eigen::ArrayXd>>("ArrayXd-inf", {2});
#elif PART == 1
  all<ContinousBox<std::vector<double>, RECTANGLE_BOX>>("vector-rect", {1, 2}, true);
  all<ContinousBox<std::array<double, 2>, SQUARE_BOX>>("array2-square", {2});
  all<GaussianBox<std::vector<double>>>("vector-inf", {1});
#else
  all<FBox>("Array3d-fixed", {3});
  all<ContinousBox<std::vector<double>, SQUARE_BOX>>("vector-square", {1});
#endif
  return 0;
}
