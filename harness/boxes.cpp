// D01 (box constraints), C01 (default crossovers and initialisers), C02 (default mutations).
#include <HeuristicFlow/Global>
#include <HeuristicFlow/SimpleMatrix>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
using namespace heu;
using std::string; using std::vector;

template <class V> struct El { typedef typename array_traits<V>::Scalar_t type; };
template <class V> double get(const V &v, int i) { if constexpr (array_traits<V>::isEigenClass) return double(v(i)); else return double(v[i]); }
template <class V> void set(V &v, int i, double x) { typedef typename El<V>::type T; if constexpr (array_traits<V>::isEigenClass) v(i) = T(x); else v[i] = T(x); }
template <class V> vector<double> flat(const V &v) { vector<double> r; for (int i = 0; i < (int)v.size(); i++) r.push_back(get(v, i)); return r; }
static string show(const vector<double> &v) { string s; for (double d : v) s += (s.empty() ? "" : ",") + mc::fmt("%.9g", d); return "(" + s + ")"; }
static uint64_t hv(uint64_t h, const vector<double> &v) { for (double d : v) { uint64_t u; memcpy(&u, &d, 8); h = mc::h64(h, u); } return h; }
template <class T> constexpr bool isIntV = std::is_integral<T>::value;

template <class B, class = void> struct HasDelta : std::false_type {};
template <class B> struct HasDelta<B, decltype(std::declval<const B>().delta(0), void())> : std::true_type {};
template <class V> void fresh(V &v, int r, int c) {
  if constexpr (array_traits<V>::isEigenClass) { v.resize(r, c); }
  else if constexpr (!array_traits<V>::isFixedSize) v.resize(r * c);
  (void)r; (void)c;
}
static vector<double> mids(int Q) { vector<double> m; for (int i = 0; i < Q; i++) m.push_back((i + 0.5) / Q); return m; }
static const double TOP = 1.0 - 1.0 / 9007199254740992.0;
static bool mine() { static int slot = 0; auto &c = mc::ctx(); return c.replaying || slot++ % c.nranks == c.rank; }

// enumerate all vectors with coordinate values from per-coordinate menus
static void grid(const vector<vector<double>> &m, const std::function<void(const vector<double> &)> &f) {
  vector<size_t> ix(m.size(), 0); vector<double> v(m.size());
  for (;;) { for (size_t i = 0; i < m.size(); i++) v[i] = m[i][ix[i]]; f(v); int k = int(m.size()) - 1; while (k >= 0 && ++ix[k] == m[k].size()) ix[k--] = 0; if (k < 0) return; }
}

// ------------------------------------------------------------------ D01
struct Shape { int r, c; };
template <class B> void boxChecks(const char *name, const B &b, Shape sh, vector<double> lo, vector<double> hi, vector<double> dl) {
  typedef typename B::Var_t V; typedef typename El<V>::type T;
  auto &c = mc::ctx(); const int d = sh.r * sh.c; const bool th = mc::thorough();
  const bool inf = std::isinf(lo[0]);
  constexpr bool integral = isIntV<T>; constexpr bool boolean = std::is_same<T, bool>::value; constexpr bool cont = HasDelta<B>::value;
  const double eps = sizeof(T) == 4 && !integral ? 1e-5 : 1e-12;
  auto inside = [&](const vector<double> &v) { for (int i = 0; i < d; i++) if (!(v[i] >= lo[i] && v[i] <= hi[i])) return false; return true; };
  mc::once(string("shape-") + name, "", [&] {
    MC_P("D01", (int)b.dimensions() == d, "dims", "%s: dimensions() %d, expected %d", name, (int)b.dimensions(), d);
    for (int i = 0; i < d; i++) MC_P("D01", double(b.min(i)) == lo[i] && double(b.max(i)) == hi[i], "range", "%s: range of dimension %d is [%g,%g], expected [%g,%g]", name, i, double(b.min(i)), double(b.max(i)), lo[i], hi[i]);
    if constexpr (cont) for (int i = 0; i < d; i++) MC_P("D01", double(b.delta(i)) == double(T(dl[i])), "deltaget", "%s: delta of dimension %d is %g, expected %g", name, i, double(b.delta(i)), dl[i]);
    if constexpr (!array_traits<V>::isFixedSize || array_traits<V>::isEigenClass) { V v; b.initializeSize(&v); MC_P("D01", (int)v.size() == d, "size", "%s: initializeSize gave %d elements", name, (int)v.size()); }
    if constexpr (array_traits<V>::isEigenClass) { V v; b.initializeSize(&v); MC_P("D01", v.rows() == sh.r && v.cols() == sh.c, "matshape", "%s: initializeSize gave %d x %d", name, (int)v.rows(), (int)v.cols()); }
    mc::state(mc::hstr(name));
  });
  // initialise: inside the box for the extreme answers
  c.real_menu = {0.0, 0.5, TOP, 0.25, 0.75}; c.norm_menu = {-3, -1, 0, 1, 3}; c.max_dev = th ? 1 << 30 : 4; c.horizon = 64;
  if (mine()) mc::explore(string("init-") + name, "", [&] {
    V v; c.active = true; b.initialize(&v); c.active = false;
    auto f = flat(v); mc::state(hv(1, f)); mc::outcome(hv(1, f));
    MC_P("D01", (int)f.size() == d, "initsize", "%s: initialize gave %zu elements", name, f.size());
    MC_P("D01", inside(f), "initbox", "%s: initialised to %s", name, show(f).c_str());
    if (c.st.executions % 101 == 0) mc::sample(mc::fmt("%s initialised to %s", name, show(f).c_str()));
  });
  // initialise: every cell of the grid equally likely
  if (!inf && mine()) {
    double span = 0; for (int i = 0; i < d; i++) span = std::max(span, hi[i] - lo[i] + 1);
    int Q = integral ? 12 : 4; if (integral && span > 12) Q = 8;
    if (std::pow(Q, d) <= 30000) {
      c.real_menu = mids(Q); c.max_dev = 1 << 30; c.horizon = 64;
      std::map<vector<int>, double> cell;
      mc::explore(string("initlaw-") + name, mc::fmt("Q=%d", Q), [&] {
        V v; c.active = true; b.initialize(&v); c.active = false; auto f = flat(v); if ((int)f.size() != d) return;
        vector<int> k; for (int i = 0; i < d; i++) { const double w = integral ? hi[i] - lo[i] + 1 : hi[i] - lo[i]; const double n = integral && w <= 12 ? w : Q; k.push_back(int(std::floor((f[i] - lo[i]) / w * n))); }
        cell[k] += mc::trail_prob(); mc::state(hv(2, f));
      });
      if (!c.replaying && !c.st.capped) {
        double want = 1; for (int i = 0; i < d; i++) { const double w = hi[i] - lo[i] + 1; want /= integral && w <= 12 ? w : Q; }
        bool exact = true; for (int i = 0; i < d; i++) { const double w = hi[i] - lo[i] + 1; if (integral && w <= 12 && 12 % int(w)) exact = false; }
        const size_t cells = size_t(std::llround(1 / want));
        if (exact) { bool ok = cell.size() == cells; double worst = 0; for (auto &x : cell) worst = std::max(worst, std::abs(x.second - want)); MC_P("D01", ok && worst < 1e-9, "initlaw", "%s: initialisation is not uniform: %zu of %zu cells, worst probability error %g", name, cell.size(), cells, worst); }
        else MC_P("D01", cell.size() == cells, "initreach", "%s: initialisation reaches %zu of %zu values", name, cell.size(), cells);
      }
    }
  }
  // projection on every vector over values in, on and beyond the boundaries
  if (mine() && !boolean) {
    vector<vector<double>> m(d);
    for (int i = 0; i < d; i++) {
      const double L = inf ? -5 : lo[i], H = inf ? 5 : hi[i], mid = integral ? std::floor((L + H) / 2) : (L + H) / 2;
      std::set<double> s{L, H, mid};
      const double tlo = integral ? double(std::numeric_limits<T>::min()) : -1e30, thi = integral ? double(std::numeric_limits<T>::max()) : 1e30;
      for (double x : {L - 1, H + 1, tlo, thi}) if (x >= tlo && x <= thi && (d <= 4 || s.size() < 5)) s.insert(x);
      if (!integral && d <= 3) { s.insert(L + 0.25 * (H - L)); s.insert(INFINITY); s.insert(-INFINITY); }
      m[i].assign(s.begin(), s.end());
      if (d > 4) m[i] = {i % 2 ? L - 1 : L, H, std::min(H + 1, thi)};
    }
    long n = 0;
    mc::explore(string("project-") + name, "", [&] {
      grid(m, [&](const vector<double> &x) {
        n++; mc::stats().transitions++;
        V v; fresh(v, sh.r, sh.c); for (int i = 0; i < d; i++) set(v, i, x[i]);
        const auto before = flat(v); V w = v;
        b.applyConstraint(&w); auto a = flat(w); bool ok = true;
        for (int i = 0; i < d; i++) ok &= a[i] == std::max(lo[i], std::min(hi[i], before[i]));
        MC_P("D01", ok, "project", "%s: applyConstraint%s gave %s", name, show(before).c_str(), show(a).c_str());
        for (int i = 0; i < d; i++) { V u = v; b.applyConstraint(&u, i); auto y = flat(u); bool one = true; for (int k = 0; k < d; k++) one &= y[k] == (k == i ? std::max(lo[k], std::min(hi[k], before[k])) : before[k]); MC_P("D01", one, "project1", "%s: applyConstraint%s in dimension %d gave %s", name, show(before).c_str(), i, show(y).c_str()); }
        mc::state(hv(3, before));
      });
    });
  }
  // local step from every grid point
  vector<vector<double>> st(d);
  for (int i = 0; i < d; i++) {
    const double L = inf ? -5 : lo[i], H = inf ? 5 : hi[i], mid = integral ? std::floor((L + H) / 2) : L + 0.5 * (H - L);
    std::set<double> s{L, H, mid}; if (integral && d <= 2) for (double x = L; x <= H && s.size() < 8; x++) s.insert(x); st[i].assign(s.begin(), s.end());
  }
  if (std::pow(st[0].size(), d) > 300) for (int i = 0; i < d; i++) st[i] = {st[i][size_t(i) % st[i].size()], st[i].back()};
  long gi = 0;
  grid(st, [&](const vector<double> &x) {
    if (!c.replaying && (gi++ % c.nranks) != c.rank) return;
    for (int mode = 0; mode < 2; mode++) {
      const int Q = mode == 0 ? 12 : 5;
      if (mode == 0) c.real_menu = mids(12); else c.real_menu = {0.0, 0.5, TOP, 0.25, 0.75};
      c.max_dev = 1 << 30; c.horizon = 16;
      std::map<std::pair<int, int>, double> law; int maxDraw = 0;
      mc::explore(string("delta-") + name, mc::fmt("x=%s mode=%d", show(x).c_str(), mode), [&] {
        V v; fresh(v, sh.r, sh.c); for (int i = 0; i < d; i++) set(v, i, x[i]);
        const auto a = flat(v); c.active = true; b.applyDelta(&v); c.active = false; const auto y = flat(v);
        int ch = -1, nch = 0; for (int i = 0; i < d; i++) if (a[i] != y[i]) { ch = i; nch++; }
        mc::state(hv(hv(4, a), y)); mc::outcome(hv(5, y)); maxDraw = std::max(maxDraw, (int)c.trail.size());
        MC_P("D01", (int)y.size() == d && inside(y), "deltabox", "%s: applyDelta moved %s to %s, outside the box", name, show(a).c_str(), show(y).c_str());
        MC_P("D01", nch <= 1 && (!boolean || nch == 1), "delta1", "%s: applyDelta changed %d coordinates: %s -> %s", name, nch, show(a).c_str(), show(y).c_str());
        if (nch == 1) {
          const double step = y[ch] - a[ch], lim = cont ? dl[ch] : 1;
          MC_P("D01", std::abs(step) <= lim * (1 + eps) + eps * std::abs(a[ch]), "deltamax", "%s: applyDelta moved dimension %d by %g, at most %g allowed", name, ch, step, lim);
          const int bin = boolean ? 0 : cont ? int(std::floor((step + lim) / (2 * lim) * 6 + 1e-9)) : step > 0;
          law[{ch, bin}] += mc::trail_prob();
        } else law[{-1, 0}] += mc::trail_prob();
      });
      if (mode == 0 && !c.replaying && 12 % d == 0 && (!inf || cont)) {
        // the exact law of "one dimension uniformly, a uniform step, then back into the box", from this point
        std::map<std::pair<int, int>, double> ref; double worst = 0;
        for (int i = 0; i < d; i++) for (double q : mids(12)) {
          const double step = boolean ? (x[i] ? -1 : 1) : cont ? double(T(dl[i])) * (2 * q - 1) : q < 0.5 ? -1 : 1;
          const double x0 = double(T(x[i])), y = std::max(double(b.min(i)), std::min(double(b.max(i)), x0 + step));
          const double lim = cont ? dl[i] : 1, s2 = y - x0;
          if (y == x0) ref[{-1, 0}] += 1.0 / d / 12;
          else ref[{i, boolean ? 0 : cont ? int(std::floor((s2 + lim) / (2 * lim) * 6 + 1e-9)) : s2 > 0}] += 1.0 / d / 12;
        }
        for (auto &k : law) worst = std::max(worst, std::abs(k.second - (ref.count(k.first) ? ref[k.first] : 0)));
        for (auto &k : ref) worst = std::max(worst, std::abs(k.second - (law.count(k.first) ? law[k.first] : 0)));
        MC_P("D01", worst < 1e-9, "deltalaw", "%s at %s: applyDelta does not choose a dimension uniformly and a uniform step clamped to the box (probability error %g)", name, show(x).c_str(), worst);
      }
      (void)Q;
    }
  });
}

template <class V> V vec(std::initializer_list<double> l, int r = 0, int c = 1) { V v; fresh(v, r ? r : (int)l.size(), c); int i = 0; for (double x : l) set(v, i++, x); return v; }
template <class V, class B> B sq(B b, double lo, double hi) { b.setRange(typename El<V>::type(lo), typename El<V>::type(hi)); return b; }
static vector<double> rep(int n, double x) { return vector<double>(n, x); }
typedef Eigen::Array<int, 2, 2> AI22; typedef Eigen::Array<int, Eigen::Dynamic, Eigen::Dynamic> AIXX; typedef Eigen::Array<int, 3, 1> AI3;
typedef Eigen::Array<double, 2, 2> AD22; typedef Eigen::Array<int, Eigen::Dynamic, 1> AIX;

static void discrete() {
  { DiscretBox<std::array<int, 3>> b; b.setRange(-1, 2); boxChecks("square array<int,3>", b, {3, 1}, rep(3, -1), rep(3, 2), {}); }
  { DiscretBox<vector<int>> b; b.setDimensions(2); b.setRange(0, 5); boxChecks("square vector<int>", b, {2, 1}, rep(2, 0), rep(2, 5), {}); }
  { DiscretBox<AI22> b; b.setRange(3, 5); boxChecks("square Array<int,2,2>", b, {2, 2}, rep(4, 3), rep(4, 5), {}); }
  { DiscretBox<AIXX> b; b.setDimensions(1, 3); b.setRange(-4, -2); boxChecks("square ArrayXX<int> 1x3", b, {1, 3}, rep(3, -4), rep(3, -2), {}); }
  { DiscretBox<AIXX> b; b.setDimensions(3, 2); b.setRange(0, 1); boxChecks("square ArrayXX<int> 3x2", b, {3, 2}, rep(6, 0), rep(6, 1), {}); }
  { DiscretBox<std::array<bool, 4>> b; boxChecks("array<bool,4>", b, {4, 1}, rep(4, 0), rep(4, 1), {}); }
  { DiscretBox<Eigen::Array<bool, Eigen::Dynamic, 1>> b; b.setDimensions(3); boxChecks("ArrayX<bool>", b, {3, 1}, rep(3, 0), rep(3, 1), {}); }
  { DiscretBox<std::array<unsigned, 2>> b; b.setRange(0, 3); boxChecks("square array<unsigned,2>", b, {2, 1}, rep(2, 0), rep(2, 3), {}); }
  { DiscretBox<std::array<uint8_t, 2>> b; b.setRange(0, 255); boxChecks("square array<uint8_t,2> full range", b, {2, 1}, rep(2, 0), rep(2, 255), {}); }
  { DiscretBox<std::array<int8_t, 2>> b; b.setRange(-128, 127); boxChecks("square array<int8_t,2> full range", b, {2, 1}, rep(2, -128), rep(2, 127), {}); }
  { DiscretBox<std::array<int, 2>> b; b.setRange(0, 2147483647); boxChecks("square array<int,2> to INT_MAX", b, {2, 1}, rep(2, 0), rep(2, 2147483647), {}); }
  { DiscretBox<Eigen::Array3d> b; b.setRange(-1.5, 2.5); boxChecks("square Array3d", b, {3, 1}, rep(3, -1.5), rep(3, 2.5), {}); }
  { FixedDiscreteBox<AI22, -3, -2> b; boxChecks("fixed Array<int,2,2>", b, {2, 2}, rep(4, -3), rep(4, -2), {}); }
  { FixedDiscreteBox<vector<int>, 2, 7> b; b.setDimensions(2); boxChecks("fixed vector<int>", b, {2, 1}, rep(2, 2), rep(2, 7), {}); }
  { FixedDiscreteBox17<std::array<double, 2>, encode(-2.5), encode(4.0)> b; boxChecks("fixed17 array<double,2>", b, {2, 1}, rep(2, -2.5), rep(2, 4), {}); }
}
static void rectangle() {
  { DiscretBox<std::array<int, 3>, RECTANGLE_BOX> b; b.setRange({0, -2, 5}, {1, 1, 7}); boxChecks("rectangle array<int,3>", b, {3, 1}, {0, -2, 5}, {1, 1, 7}, {}); }
  { DiscretBox<vector<int>, RECTANGLE_BOX> b; b.setDimensions(2); b.min() = {1, -6}; b.max() = {3, -1}; boxChecks("rectangle vector<int>", b, {2, 1}, {1, -6}, {3, -1}, {}); }
  { DiscretBox<AIX, RECTANGLE_BOX> b; b.setRange(vec<AIX>({0, 10}), vec<AIX>({2, 13})); boxChecks("rectangle ArrayX<int>", b, {2, 1}, {0, 10}, {2, 13}, {}); }
  { DiscretBox<AI22, RECTANGLE_BOX> b; b.setRange(vec<AI22>({0, 1, 2, 3}, 2, 2), vec<AI22>({1, 3, 5, 4}, 2, 2)); boxChecks("rectangle Array<int,2,2>", b, {2, 2}, {0, 1, 2, 3}, {1, 3, 5, 4}, {}); }
  { DiscretBox<AIXX, RECTANGLE_BOX> b; b.setDimensions(2, 1); b.setRange(vec<AIXX>({0, 1}, 2, 1), vec<AIXX>({2, 2}, 2, 1)); boxChecks("rectangle ArrayXX<int>", b, {2, 1}, {0, 1}, {2, 2}, {}); }
}
static void continuous() {
  { ContinousBox<Eigen::Array3d, SQUARE_BOX> b; b.setRange(-1, 3); b.setDelta(0.5); boxChecks("continous square Array3d", b, {3, 1}, rep(3, -1), rep(3, 3), rep(3, 0.5)); }
  { ContinousBox<std::array<float, 2>, SQUARE_BOX> b; b.setRange(-0.1f, 0.7f); b.setDelta(0.05f); boxChecks("continous square array<float,2>", b, {2, 1}, rep(2, -0.1f), rep(2, 0.7f), rep(2, 0.05f)); }
  { ContinousBox<vector<double>, SQUARE_BOX> b; b.setDimensions(2); b.setRange(-1e6, 1e-3); b.setDelta(10); boxChecks("continous square vector<double>", b, {2, 1}, rep(2, -1e6), rep(2, 1e-3), rep(2, 10)); }
  { ContinousBox<Eigen::ArrayXXf, SQUARE_BOX> b; b.setDimensions(1, 2); b.setRange(2, 4); b.setDelta(3); boxChecks("continous square ArrayXXf wide delta", b, {1, 2}, rep(2, 2), rep(2, 4), rep(2, 3)); }
  { ContinousBox<AD22, SQUARE_BOX> b; b.setRange(0, 1); b.setDelta(0.125); boxChecks("continous square Array22d", b, {2, 2}, rep(4, 0), rep(4, 1), rep(4, 0.125)); }
  { ContinousBox<std::array<double, 3>, RECTANGLE_BOX> b; b.setRange({-1, 0, 10}, {1, 4, 20}); b.setDelta({0.25, 1, 5}); boxChecks("continous rectangle array<double,3>", b, {3, 1}, {-1, 0, 10}, {1, 4, 20}, {0.25, 1, 5}); }
  { ContinousBox<Eigen::ArrayXd, RECTANGLE_BOX> b; b.setDimensions(2); b.min() << -1, 5; b.max() << 1, 9; b.delta() << 0.5, 2; boxChecks("continous rectangle ArrayXd", b, {2, 1}, {-1, 5}, {1, 9}, {0.5, 2}); }
  { ContinousBox<vector<double>, RECTANGLE_BOX> b; b.setDimensions(2); b.setRange({-1, 5}, {1, 9}); b.setDelta({0.5, 2}); boxChecks("continous rectangle vector<double>", b, {2, 1}, {-1, 5}, {1, 9}, {0.5, 2}); }
}
static void continuous2() {
  mc::once("boundsizes", "", [] {   // setDimensions gives the bounds and the step their size
    ContinousBox<Eigen::ArrayXXd, RECTANGLE_BOX> b; b.setDimensions(3, 2); 
    for (auto *m : {&b.min(), &b.max(), &b.delta()}) MC_P("D01", m->rows() == 3 && m->cols() == 2, "boundsizes", "after setDimensions(3,2) a bound or step is %d x %d", int(m->rows()), int(m->cols()));
    ContinousBox<vector<double>, RECTANGLE_BOX> w; w.setDimensions(4); MC_P("D01", w.min().size() == 4 && w.max().size() == 4 && w.delta().size() == 4, "boundsizes", "after setDimensions(4) the bounds have %zu, %zu, the step %zu elements", w.min().size(), w.max().size(), w.delta().size());
  });
  { ContinousBox<Eigen::ArrayXXd, RECTANGLE_BOX> b; b.setDimensions(2, 2); b.setRange(vec<Eigen::ArrayXXd>({0, 1, 2, 3}, 2, 2), vec<Eigen::ArrayXXd>({1, 3, 5, 4}, 2, 2)); b.delta() = vec<Eigen::ArrayXXd>({.1, .2, .3, .4}, 2, 2); boxChecks("continous rectangle ArrayXXd", b, {2, 2}, {0, 1, 2, 3}, {1, 3, 5, 4}, {.1, .2, .3, .4});
    mc::once("matdelta", "", [&] { for (int i = 0; i < 4; i++) MC_P("D01", b.delta(i % 2, i / 2) == b.delta(i), "matdelta", "delta(r,c) does not address element (r,c)"); }); }
  { FixedContinousBox17<Eigen::Array2d, encode(-1.0), encode(3.0), encode(0.25)> b; boxChecks("fixed continous Array2d", b, {2, 1}, rep(2, -1), rep(2, 3), rep(2, 0.25)); }
  { FixedContinousBox17<Eigen::ArrayXXf, encode(-10.0f), encode(5.0f), encode(0.5f)> b; b.setDimensions(1, 3); boxChecks("fixed continous ArrayXXf", b, {1, 3}, rep(3, -10), rep(3, 5), rep(3, 0.5)); }
  { FixedContinousBox17<vector<double>, encode(-10.0), encode(5.0), encode(2.0)> b; b.setDimensions(2); boxChecks("fixed continous vector<double>", b, {2, 1}, rep(2, -10), rep(2, 5), rep(2, 2)); }
  { GaussianBox<Eigen::ArrayXXd> b; b.setDimensions(1, 2); b.setMu(1); b.setSigma(2); b.setDelta(0.5); boxChecks("gaussian ArrayXXd", b, {1, 2}, rep(2, -INFINITY), rep(2, INFINITY), rep(2, 0.5)); }
  { GaussianBox<std::array<double, 3>> b; b.setMu(-1); b.setSigma(0.5); b.setDelta(2); boxChecks("gaussian array<double,3>", b, {3, 1}, rep(3, -INFINITY), rep(3, INFINITY), rep(3, 2));
    auto &c = mc::ctx(); c.norm_menu = {-2, -1, 0, 1, 2}; c.max_dev = 1 << 30; c.horizon = 16; std::map<vector<double>, double> law;
    mc::explore("gauss-init", "", [&] { std::array<double, 3> v; c.active = true; b.initialize(&v); c.active = false; law[flat(v)] += mc::trail_prob(); });
    if (!c.replaying) { bool ok = law.size() == 125; for (auto &x : law) for (double y : x.first) { const double z = (y + 1) / 0.5; ok &= std::abs(z - std::round(z)) < 1e-9 && std::abs(z) <= 2; } MC_P("D01", ok, "gaussinit", "GaussianBox does not initialise to mu + sigma * normal in every dimension"); } }
}

// ------------------------------------------------------------------ C01
struct NoArgs { int x = 7; };
template <class V, bool A> struct G;
template <class V> struct G<V, false> {
  typedef GADefaults<V, void> D;
  template <DivCode r> static void nd(const V *a, const V *b, V *c, V *d) { D::template cFunNd<r>(a, b, c, d); }
  template <DivCode r> static void xd(const V *a, const V *b, V *c, V *d) { D::template cFunXd<r>(a, b, c, d); }
  static void sn(const V *a, const V *b, V *c, V *d) { D::cFunSwapNs(a, b, c, d); }
  static void sx(const V *a, const V *b, V *c, V *d) { D::cFunSwapXs(a, b, c, d); }
  template <DivCode r> static void rn(const V *a, const V *b, V *c, V *d) { D::template cFunRandNs<r>(a, b, c, d); }
  template <DivCode r> static void rx(const V *a, const V *b, V *c, V *d) { D::template cFunRandXs<r>(a, b, c, d); }
};
template <class V> struct G<V, true> {
  typedef GADefaults<V, NoArgs> D;
  template <DivCode r> static void nd(const V *a, const V *b, V *c, V *d) { NoArgs n; D::template cFunNd<r>(a, b, c, d, &n); }
  template <DivCode r> static void xd(const V *a, const V *b, V *c, V *d) { NoArgs n; D::template cFunXd<r>(a, b, c, d, &n); }
  static void sn(const V *a, const V *b, V *c, V *d) { NoArgs n; D::cFunSwapNs(a, b, c, d, &n); }
  static void sx(const V *a, const V *b, V *c, V *d) { NoArgs n; D::cFunSwapXs(a, b, c, d, &n); }
  template <DivCode r> static void rn(const V *a, const V *b, V *c, V *d) { NoArgs n; D::template cFunRandNs<r>(a, b, c, d, &n); }
  template <DivCode r> static void rx(const V *a, const V *b, V *c, V *d) { NoArgs n; D::template cFunRandXs<r>(a, b, c, d, &n); }
};
constexpr DivCode R15 = DivEncode<1, 5>::code, R34 = DivEncode<3, 4>::code, R14 = DivEncode<1, 4>::code, R12 = DivCode_Half;
typedef std::function<void(const vector<double> &, const vector<double> &)> Pairs;
static void parents(int n, const vector<double> &lv, const Pairs &f) {
  grid(vector<vector<double>>(2 * n, lv), [&](const vector<double> &x) { f(vector<double>(x.begin(), x.begin() + n), vector<double>(x.begin() + n, x.end())); });
}
template <class V> V mk(const vector<double> &x) { V v; fresh(v, x.size(), 1); for (size_t i = 0; i < x.size(); i++) set(v, i, x[i]); return v; }
// kind 0 arithmetic r, 1 swap, 2 random p
template <class V, class F> void cross(const string &name, int n, int kind, double r, bool dynChild, F fun) {
  auto &c = mc::ctx(); c.max_dev = 1 << 30; c.horizon = 32;
  const bool th = mc::thorough();
  vector<double> lv = n <= 2 ? vector<double>{-2, 0, 1, 5} : n == 3 ? vector<double>{-2, 0, 3} : vector<double>{0, 3};
  if (n > 4) lv = {3}; if (n == 3 && kind == 2 && !th) lv = {-2, 3}; long idx = 0;
  auto body = [&](vector<double> a, vector<double> b) {
    if (n > 4) for (int i = 0; i < n; i++) { a[i] = i + 1; b[i] = -10 * (i + 1); }
    if (!c.replaying && (idx++ % c.nranks) != c.rank) return;
    c.real_menu = kind == 1 ? mids(n <= 4 ? 12 : n * 2) : mids(4); if (kind == 2 && std::abs(r - 0.5) < 1e-12) c.real_menu = mids(2);
    if (kind == 2 && n > (th ? 4 : 3) && c.real_menu.size() > 2) return;
    std::map<string, double> law;
    mc::explore("cross-" + name, show(a) + "x" + show(b), [&] {
      V p = mk<V>(a), q = mk<V>(b), x, y; if (!dynChild) { fresh(x, n, 1); fresh(y, n, 1); } else if constexpr (!array_traits<V>::isFixedSize) { if (n % 2) { fresh(x, n + 2, 1); } }
      c.active = true; fun(&p, &q, &x, &y); c.active = false;
      const auto fx = flat(x), fy = flat(y);
      MC_P("C01", flat(p) == a && flat(q) == b, "parents", "%s modified a parent", name.c_str());
      MC_P("C01", (int)fx.size() == n && (int)fy.size() == n, "childsize", "%s: children have %zu and %zu elements, parents %d", name.c_str(), fx.size(), fy.size(), n);
      if ((int)fx.size() != n || (int)fy.size() != n) return;
      mc::state(hv(hv(6, fx), fy)); mc::outcome(hv(hv(6, fx), fy));
      if (kind == 0) { bool ok = true; for (int i = 0; i < n; i++) ok &= std::abs(fx[i] - (r * a[i] + (1 - r) * b[i])) < 1e-12 * 100 && std::abs(fy[i] - (r * b[i] + (1 - r) * a[i])) < 1e-12 * 100; MC_P("C01", ok, "arith", "%s: %s x %s -> %s, %s with r=%g", name.c_str(), show(a).c_str(), show(b).c_str(), show(fx).c_str(), show(fy).c_str(), r); }
      if (kind == 1) {
        bool any = false; string k;
        for (int cut = 0; cut < n; cut++) { bool ok = true; for (int i = 0; i < n; i++) ok &= fx[i] == (i < cut ? a[i] : b[i]) && fy[i] == (i < cut ? b[i] : a[i]); any |= ok; if (ok) k += mc::fmt("%d ", cut); }
        MC_P("C01", any, "swap", "%s: %s x %s -> %s, %s is not a one-point swap", name.c_str(), show(a).c_str(), show(b).c_str(), show(fx).c_str(), show(fy).c_str());
        law[k] += mc::trail_prob();
      }
      if (kind == 2) {
        bool ok = true; string k;
        for (int i = 0; i < n; i++) { ok &= (fx[i] == a[i] || fx[i] == b[i]) && (fy[i] == a[i] || fy[i] == b[i]); k += fx[i] == a[i] ? '1' : '0'; k += fy[i] == b[i] ? '1' : '0'; }
        MC_P("C01", ok, "randsrc", "%s: %s x %s -> %s, %s takes a value from neither parent", name.c_str(), show(a).c_str(), show(b).c_str(), show(fx).c_str(), show(fy).c_str());
        law[k] += mc::trail_prob();
      }
      if (c.rank == 0 && c.st.executions % 4999 == 0) mc::sample(name + ": " + show(a) + " x " + show(b) + " -> " + show(fx) + ", " + show(fy));
    });
    if (c.replaying || c.hit_horizon) return;
    bool distinct = true; for (int i = 0; i < n; i++) distinct &= a[i] != b[i];
    if (kind == 1 && distinct) for (int cut = 0; cut < n; cut++) { const double pr = law[mc::fmt("%d ", cut)]; if (12 % n == 0 || n > 4) MC_P("C01", std::abs(pr - 1.0 / n) < 1e-9, "swaplaw", "%s: cut %d of %d has probability %g", name.c_str(), cut, n, pr); }
    if (kind == 2 && distinct) for (int m = 0; m < (1 << (2 * n)); m++) { string k; double w = 1; for (int i = 0; i < 2 * n; i++) { const bool t = m >> i & 1; k += t ? '1' : '0'; w *= t ? r : 1 - r; } MC_P("C01", std::abs(law[k] - w) < 1e-9, "randlaw", "%s n=%d: source pattern %s has probability %g, p=%g gives %g", name.c_str(), n, k.c_str(), law[k], r, w); }
  };
  if (n > 4) body(vector<double>(n), vector<double>(n)); else parents(n, lv, body);
}
template <class V, bool A, bool real> void crossAll(const string &nm, int nFixed) {
  const bool dyn = !array_traits<V>::isFixedSize; typedef G<V, A> g; const string t = nm + (A ? " args " : " ");
  for (int n : {1, 2, 3, 4, 6}) {
    if (!dyn && n != nFixed) continue;
    const string k = mc::fmt(" n=%d", n);
    if constexpr (real) { cross<V>(t + "cFunNd 1/5" + k, n, 0, 0.2, false, g::template nd<R15>); cross<V>(t + "cFunNd 3/4" + k, n, 0, 0.75, false, g::template nd<R34>); }
    cross<V>(t + "cFunSwapNs" + k, n, 1, 0, false, g::sn);
    if (n <= 4) { cross<V>(t + "cFunRandNs 1/2" + k, n, 2, 0.5, false, g::template rn<R12>); cross<V>(t + "cFunRandNs 1/4" + k, n, 2, 0.25, false, g::template rn<R14>); }
    if constexpr (!array_traits<V>::isFixedSize) {
      if constexpr (real) cross<V>(t + "cFunXd 3/4" + k, n, 0, 0.75, true, g::template xd<R34>);
      cross<V>(t + "cFunSwapXs" + k, n, 1, 0, true, g::sx);
      if (n <= 4) { cross<V>(t + "cFunRandXs 1/4" + k, n, 2, 0.25, true, g::template rx<R14>); cross<V>(t + "cFunRandXs 3/4" + k, n, 2, 0.75, true, g::template rx<R34>); }
    }
  }
}
template <class V> void inits(const string &nm, int n) {
  auto &c = mc::ctx(); if (!mine()) return;
  c.real_menu = mids(4); c.max_dev = 1 << 30; c.horizon = 32; std::map<vector<int>, double> law;
  mc::explore("ifun-" + nm, mc::fmt("n=%d", n), [&] {
    V v; fresh(v, n, 1); c.active = true; GADefaults<V>::template iFunNd<DivEncode<-3, 2>::code, DivEncode<5, 2>::code>(&v); c.active = false;
    auto f = flat(v); vector<int> k; bool in = (int)f.size() == n; for (double x : f) { in &= x >= -1.5 && x <= 2.5; k.push_back(int(std::floor(x + 1.5))); } law[k] += mc::trail_prob(); mc::state(hv(7, f));
    MC_P("C01", in, "ifun", "iFunNd initialised to %s, range is [-1.5,2.5]", show(f).c_str());
  });
  if (!c.replaying) { double worst = law.size() == size_t(std::pow(4, n)) ? 0 : 1; for (auto &x : law) worst = std::max(worst, std::abs(x.second - std::pow(0.25, n))); MC_P("C01", worst < 1e-9, "ifunlaw", "iFunNd is not uniform over its range"); }
  mc::explore("ifun01-" + nm, mc::fmt("n=%d", n), [&] {
    V v; fresh(v, n, 1); c.active = true; GADefaults<V>::template iFunNf<>(&v); c.active = false; auto f = flat(v); bool in = true; for (double x : f) in &= x >= 0 && x <= 1; mc::state(hv(8, f));
    MC_P("C01", in && (int)f.size() == n, "ifun01", "iFunNf initialised to %s, range is [0,1]", show(f).c_str());
  });
}

// ------------------------------------------------------------------ C02
template <class B> void mutate(const char *name, const B &b, Shape sh, vector<double> lo, vector<double> hi, bool sym) {
  typedef typename B::Var_t V; auto &c = mc::ctx(); const int d = sh.r * sh.c;
  vector<vector<double>> st(d); for (int i = 0; i < d; i++) { if (isIntV<typename El<V>::type>) for (double x = lo[i]; x <= hi[i] && st[i].size() < 6; x++) st[i].push_back(x); else st[i] = {lo[i], 0.5 * (lo[i] + hi[i]), hi[i]}; }
  long idx = 0;
  grid(st, [&](const vector<double> &x) {
    if (!c.replaying && (idx++ % c.nranks) != c.rank) return;
    for (int mode = 0; mode < (sym ? 4 : 2); mode++) {  // 0,1 mFun (law menu, edge menu); 2,3 mFun_s
      c.max_dev = 1 << 30; c.horizon = 16;
      int span = 1; for (int i = 0; i < d; i++) span = std::max(span, int(hi[i] - lo[i]));
      if (mode % 2) c.real_menu = {0.0, 0.5, TOP, 0.25, 0.75}; else c.real_menu = mids(12);
      std::map<vector<double>, double> law;
      mc::explore(string(mode < 2 ? "mfun-" : "mfuns-") + name, mc::fmt("x=%s mode=%d", show(x).c_str(), mode), [&] {
        V s, v; fresh(s, sh.r, sh.c); for (int i = 0; i < d; i++) set(s, i, x[i]);
        const auto a = flat(s);
        c.active = true;
        if (mode < 2) GADefaults<V, B>::template mFun<>(&s, &v, &b);
        else if constexpr (isIntV<typename El<V>::type> && !std::is_same<typename El<V>::type, bool>::value) GADefaults<V, B>::template mFun_s<>(&s, &v, &b);
        c.active = false;
        const auto y = flat(v); int ch = 0; bool in = (int)y.size() == d;
        for (int i = 0; in && i < d; i++) { ch += y[i] != a[i]; in &= y[i] >= lo[i] && y[i] <= hi[i]; }
        mc::state(hv(hv(9 + mode / 2, a), y)); mc::outcome(hv(11, y));
        MC_P("C02", flat(s) == a, "source", "%s modified the individual it mutates", name);
        MC_P("C02", in, "box", "%s: mutation of %s gave %s, outside the box", name, show(a).c_str(), show(y).c_str());
        MC_P("C02", ch <= 1 && (mode < 2 || ch == 1), "one", "%s: mutation changed %d coordinates: %s -> %s", name, ch, show(a).c_str(), show(y).c_str());
        law[y] += mc::trail_prob();
        if (c.rank == 0 && c.st.executions % 1999 == 0) mc::sample(mc::fmt("%s %s: %s -> %s", name, mode < 2 ? "mFun" : "mFun_s", show(a).c_str(), show(y).c_str()));
      });
      if (mode == 2 && !c.replaying && 12 % d == 0) {
        // every coordinate equally likely, then every other value of the range equally likely
        bool exact = true; for (int i = 0; i < d; i++) { const int L = x[i] - lo[i], H = hi[i] - x[i]; if (12 % (L + H) || (L && 12 % L) || (H && 12 % H)) exact = false; }
        for (int i = 0; i < d; i++) for (double z = lo[i]; z <= hi[i]; z++) if (z != x[i]) { auto y = x; y[i] = z; const double w = 1.0 / d / (hi[i] - lo[i]), pr = law.count(y) ? law[y] : 0; if (exact) MC_P("C02", std::abs(pr - w) < 1e-9, "symlaw", "%s: mFun_s %s -> %s has probability %g, uniform choice gives %g", name, show(x).c_str(), show(y).c_str(), pr, w); else MC_P("C02", pr > 0, "symreach", "%s: mFun_s never turns %s into %s", name, show(x).c_str(), show(y).c_str()); }
      }
    }
  });
}

int mc::main_impl() {
#if PART == 1
  section("discrete", discrete);
  section("rectangle", rectangle);
#elif PART == 2
  section("continuous", continuous);
  section("continuous2", continuous2);
#elif PART == 3
  section("array", [] { crossAll<std::array<double, 3>, false, true>("array<double,3>", 3); crossAll<std::array<int, 2>, true, false>("array<int,2>", 2); });
  section("vector", [] { crossAll<vector<double>, false, true>("vector<double>", 0); crossAll<vector<int>, true, false>("vector<int>", 0); });
  section("eigen", [] { crossAll<Eigen::Array3d, true, true>("Array3d", 3); crossAll<Eigen::ArrayXd, false, true>("ArrayXd", 0); crossAll<AIX, true, false>("ArrayX<int>", 0); crossAll<Eigen::Matrix<double, 4, 1>, false, true>("Vector4d", 4); });
  section("init", [] { inits<std::array<double, 3>>("array<double,3>", 3); inits<vector<double>>("vector<double>", 4); inits<Eigen::ArrayXd>("ArrayXd", 2); inits<Eigen::Array<float, 3, 1>>("Array3f", 3); });
#elif PART == 4
  section("mutate", [] {
    { DiscretBox<std::array<int, 2>> b; b.setRange(-1, 2); mutate("square array<int,2>", b, {2, 1}, rep(2, -1), rep(2, 2), true); }
    { DiscretBox<vector<int>> b; b.setDimensions(3); b.setRange(0, 2); mutate("square vector<int>", b, {3, 1}, rep(3, 0), rep(3, 2), true); }
    { DiscretBox<AI3> b; b.setRange(4, 6); mutate("square Array<int,3>", b, {3, 1}, rep(3, 4), rep(3, 6), true); }
    { DiscretBox<std::array<unsigned, 2>> b; b.setRange(0, 4); mutate("square array<unsigned,2>", b, {2, 1}, rep(2, 0), rep(2, 4), true); }
    { DiscretBox<std::array<int, 2>, RECTANGLE_BOX> b; b.setRange({0, -3}, {1, 1}); mutate("rectangle array<int,2>", b, {2, 1}, {0, -3}, {1, 1}, true); }
    { DiscretBox<vector<int>, RECTANGLE_BOX> b; b.setRange({0, -3, 2}, {2, -1, 4}); mutate("rectangle vector<int>", b, {3, 1}, {0, -3, 2}, {2, -1, 4}, true); }
    { DiscretBox<AIX, RECTANGLE_BOX> b; b.setRange(vec<AIX>({0, 10}), vec<AIX>({2, 13})); mutate("rectangle ArrayX<int>", b, {2, 1}, {0, 10}, {2, 13}, true); }
    { FixedDiscreteBox<vector<int>, 2, 6> b; b.setDimensions(2); mutate("fixed vector<int>", b, {2, 1}, rep(2, 2), rep(2, 6), true); }
    { DiscretBox<std::array<bool, 4>> b; mutate("array<bool,4>", b, {4, 1}, rep(4, 0), rep(4, 1), false); }
    { ContinousBox<Eigen::Array3d, SQUARE_BOX> b; b.setRange(-1, 3); b.setDelta(0.5); mutate("continous Array3d", b, {3, 1}, rep(3, -1), rep(3, 3), false); }
    { ContinousBox<vector<double>, RECTANGLE_BOX> b; b.setDimensions(2); b.setRange({-1, 5}, {1, 9}); b.setDelta({0.5, 20}); mutate("continous rectangle vector<double>", b, {2, 1}, {-1, 5}, {1, 9}, false); }
    { ContinousBox<Eigen::ArrayXXd, SQUARE_BOX> b; b.setDimensions(2, 2); b.setRange(0, 1); b.setDelta(0.5); mutate("continous ArrayXXd", b, {2, 2}, rep(4, 0), rep(4, 1), false); }
  });
#endif
  return 0;
}
