// K01: the benchmark functions of testFunctions equal their definitions in every container, at every grid point.
#include <HeuristicFlow/Global>
#include <HeuristicFlow/SimpleMatrix>
#include <HeuristicFlow/EAGlobal>
using namespace heu;
using std::string; using std::vector;
typedef long double LD; typedef vector<LD> LV;
static const LD PI = 3.141592653589793238462643383279502884L, E = 2.718281828459045235360287471352662498L;
static bool mine() { static int slot = 0; auto &c = mc::ctx(); return c.replaying || slot++ % c.nranks == c.rank; }
static LD sq(LD x) { return x * x; }
static string show(const LV &v) { string s; for (LD x : v) s += mc::fmt("%s%.12Lg", s.empty() ? "" : ",", x); return s; }


template <class V> void sized(V &v, int n) { if constexpr (!array_traits<V>::isFixedSize) v.resize(n); else if ((int)v.size() != n) abort(); }
template <class V> V mkvar(const LV &x) { V v; sized(v, x.size()); for (size_t i = 0; i < x.size(); i++) v[i] = x[i]; return v; }
static bool near(LD got, LD want, LD tol) { return std::isnan(want) ? std::isnan(got) : std::fabs(got - want) <= tol * (1 + std::fabs(want)); }
struct Arg { int unused; };

// ---- definitions
static LD ackley(LD x, LD y) { return -20 * expl(-0.2L * sqrtl((x * x + y * y) / 2)) - expl((cosl(2 * PI * x) + cosl(2 * PI * y)) / 2) + 20 + E; }
static LD beale(LD x, LD y) { return sq(1.5L - x + x * y) + sq(2.25L - x + x * y * y) + sq(2.625L - x + x * y * y * y); }
static LD GoldsteinPrice(LD x, LD y) { return (1 + sq(x + y + 1) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)) * (30 + sq(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y)); }
static LD booth(LD x, LD y) { return sq(x + 2 * y - 7) + sq(2 * x + y - 5); }
static LD bukin(LD x, LD y) { return 100 * sqrtl(fabsl(y - x * x / 100)) + fabsl(x + 10) / 100; }
static LD matyas(LD x, LD y) { return 0.26L * (x * x + y * y) - 0.48L * x * y; }
static LD levy(LD x, LD y) { return sq(sinl(3 * PI * x)) + sq(x - 1) * (1 + sq(sinl(3 * PI * y))) + sq(y - 1) * (1 + sq(sinl(2 * PI * y))); }
static LD himmelblau(LD x, LD y) { return sq(x * x + y - 11) + sq(x + y * y - 7); }
static LD threeHumpCamel(LD x, LD y) { return 2 * x * x - 1.05L * x * x * x * x + x * x * x * x * x * x / 6 + x * y + y * y; }
static LD easom(LD x, LD y) { return -cosl(x) * cosl(y) * expl(-(sq(x - PI) + sq(y - PI))); }
static LD crossInTray(LD x, LD y) { return -0.0001L * powl(fabsl(sinl(x) * sinl(y) * expl(fabsl(100 - sqrtl(x * x + y * y) / PI))) + 1, 0.1L); }
static LD eggHolder(LD x, LD y) { return -(y + 47) * sinl(sqrtl(fabsl(x / 2 + y + 47))) - x * sinl(sqrtl(fabsl(x - (y + 47)))); }
static LD holderTable(LD x, LD y) { return -fabsl(sinl(x) * cosl(y) * expl(fabsl(1 - sqrtl(x * x + y * y) / PI))); }
static LD McCormick(LD x, LD y) { return sinl(x + y) + sq(x - y) - 1.5L * x + 2.5L * y + 1; }
static LD schaffer2(LD x, LD y) { return 0.5L + (sq(sinl(x * x - y * y)) - 0.5L) / sq(1 + 0.001L * (x * x + y * y)); }
static LD schaffer4(LD x, LD y) { return 0.5L + (sq(cosl(sinl(fabsl(x * x - y * y)))) - 0.5L) / sq(1 + 0.001L * (x * x + y * y)); }
static LD rastrigin(const LV &x) { LD s = 10 * (LD)x.size(); for (LD a : x) s += a * a - 10 * cosl(2 * PI * a); return s; }
static LD sphere(const LV &x) { LD s = 0; for (LD a : x) s += a * a; return s; }
static LD rosenbrock(const LV &x) { LD s = 0; for (size_t i = 0; i + 1 < x.size(); i++) s += 100 * sq(x[i + 1] - x[i] * x[i]) + sq(1 - x[i]); return s; }
static LD styblinskiTang(const LV &x) { LD s = 0; for (LD a : x) s += a * a * a * a - 16 * a * a + 5 * a; return s / 2; }

static LV Schaffer1(const LV &v, int) { return {v[0] * v[0], sq(v[0] - 2)}; }
static LV Schaffer2(const LV &v, int) { const LD x = v[0]; return {x <= 1 ? -x : x <= 3 ? x - 2 : x <= 4 ? 4 - x : x - 4, sq(x - 5)}; }
static LV BinhKorn(const LV &v, int) { const LD x = v[0], y = v[1]; LV f{4 * x * x + 4 * y * y, sq(x - 5) + sq(y - 5)}; const LD a = sq(x - 5) + y * y - 25, b = 7.7L - sq(x - 8) - sq(y + 3); if (a > 0) f[0] += 1e5L + a; if (b > 0) f[1] += 1e5L + b; return f; }
static LV ChangkongHaimes(const LV &v, int) { const LD x = v[0], y = v[1]; LV f{2 + sq(x - 2) + sq(y - 1), 9 * x - sq(y - 1)}; const LD a = x * x + y * y - 225, b = x - 3 * y + 10; if (a > 0) f[0] += 1e5L + a; if (b > 0) f[1] += 1e5L + b; return f; }
static LV Poloni(const LV &v, int) { const LD x = v[0], y = v[1]; auto b1 = [](LD p, LD q) { return 0.5L * sinl(p) - 2 * cosl(p) + sinl(q) - 1.5L * cosl(q); }; auto b2 = [](LD p, LD q) { return 1.5L * sinl(p) - cosl(p) + 2 * sinl(q) - 0.5L * cosl(q); }; return {1 + sq(b1(1, 2) - b1(x, y)) + sq(b2(1, 2) - b2(x, y)), sq(x + 3) + sq(y + 1)}; }
static LV viennet(const LV &v, int) { const LD x = v[0], y = v[1], r = x * x + y * y; return {r / 2 + sinl(r), sq(3 * x - 2 * y + 4) / 8 + sq(x - y + 1) / 27 + 15, 1 / (r + 1) - 1.1L * expl(-r)}; }
static LV FonsecaFleming(const LV &v, int) { const LD c = 1 / sqrtl(v.size()); LD a = 0, b = 0; for (LD x : v) { a += sq(x - c); b += sq(x + c); } return {1 - expl(-a), 1 - expl(-b)}; }
static LV Kursawe(const LV &v, int) { LD a = 0, b = 0; for (size_t i = 0; i + 1 < v.size(); i++) a -= 10 * expl(-0.2L * sqrtl(v[i] * v[i] + v[i + 1] * v[i + 1])); for (LD x : v) b += powl(fabsl(x), 0.8L) + 5 * sinl(x * x * x); return {a, b}; }
// spherical front: f_0 = (1+g) cos t_0 ... cos t_{M-2}, f_j = (1+g) cos t_0 ... cos t_{M-2-j} sin t_{M-1-j}
static LV sphereFront(LD g, const LV &t) { const int M = t.size() + 1; LV f(M); for (int j = 0; j < M; j++) { LD p = 1 + g; for (int i = 0; i < M - 1 - j; i++) p *= cosl(t[i]); if (j) p *= sinl(t[M - 1 - j]); f[j] = p; } return f; }
static LD g1(const LV &v, int M) { LD s = 0; for (size_t i = M - 1; i < v.size(); i++) s += 1 + sq(v[i] - 0.5L) - cosl(20 * PI * (v[i] - 0.5L)); return 100 * s; }
static LD g2(const LV &v, int M) { LD s = 0; for (size_t i = M - 1; i < v.size(); i++) s += sq(v[i] - 0.5L); return s; }
static LD g6(const LV &v, int M) { LD s = 0; for (size_t i = M - 1; i < v.size(); i++) s += powl(v[i], 0.1L); return s; }
static LV DTLZ1(const LV &v, int M) { const LD g = g1(v, M); LV f(M); for (int j = 0; j < M; j++) { LD p = (1 + g) / 2; for (int i = 0; i < M - 1 - j; i++) p *= v[i]; if (j) p *= 1 - v[M - 1 - j]; f[j] = p; } return f; }
static LV head(const LV &v, int M, int alpha) { LV t; for (int i = 0; i < M - 1; i++) t.push_back(PI / 2 * powl(v[i], alpha)); return t; }
static LV DTLZ2(const LV &v, int M) { return sphereFront(g2(v, M), head(v, M, 1)); }
static LV DTLZ3(const LV &v, int M) { return sphereFront(g1(v, M), head(v, M, 1)); }
static LV DTLZ4(const LV &v, int M) { return sphereFront(g2(v, M), head(v, M, 100)); }
static LV DTLZ4b(const LV &v, int M) { return sphereFront(g2(v, M), head(v, M, 3)); }
static LV curve(const LV &v, int M, LD g) { LV t{PI / 2 * v[0]}; for (int i = 1; i < M - 1; i++) t.push_back(PI / (4 * (1 + g)) * (1 + 2 * g * v[i])); return sphereFront(g, t); }
static LV DTLZ5(const LV &v, int M) { return curve(v, M, g2(v, M)); }
static LV DTLZ6(const LV &v, int M) { return curve(v, M, g6(v, M)); }
static LV DTLZ7(const LV &v, int M) { LD s = 0; for (size_t i = M - 1; i < v.size(); i++) s += v[i]; const LD g = 1 + 9 * s / (v.size() - M + 1); LV f(v.begin(), v.begin() + M - 1); LD h = M; for (LD a : f) h -= a / (1 + g) * (1 + sinl(3 * PI * a)); f.push_back((1 + g) * h); return f; }
static LV parts(const LV &v, int M, LD (*h)(LD)) { const int N = v.size(); LV f(M, 0); for (int j = 0; j < M; j++) for (int i = j * N / M; i <= std::min(N - 1, (j + 1) * N / M); i++) f[j] += h(v[i]); return f; }
static LV DTLZ8(const LV &v, int M) {
  LV f = parts(v, M, [](LD x) { return x; }); for (LD &a : f) a /= int(v.size()) / M;
  LD low = INFINITY; for (int i = 0; i < M - 1; i++) for (int j = i + 1; j < M - 1; j++) low = std::min(low, f[i] + f[j]);
  LV g(M); for (int j = 0; j < M - 1; j++) g[j] = f[M - 1] + 4 * f[j] - 1; g[M - 1] = 2 * f[M - 1] + low - 1;
  for (int j = 0; j < M; j++) if (g[j] < 0) f[j] += 1000 - g[j]; return f;
}
static LV DTLZ9(const LV &v, int M) { LV f = parts(v, M, [](LD x) { return powl(x, 0.1L); }); for (int j = 0; j < M - 1; j++) { const LD g = sq(f[M - 1]) + sq(f[j]) - 1; if (g < 0) f[j] += 1000 - g; } return f; }

// ---- comparison of one function in one container with its definition
static void verdict(const char *fn, const char *kind, bool arg, const LV &x, const LV &got, const LV &want, LD tol) {
  mc::stats().transitions++; bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < got.size(); i++) ok = near(got[i], want[i], tol);
  MC_P("K01", ok, fn, "%s(%s) on %s%s is (%s), its definition gives (%s)", fn, show(x).c_str(), kind, arg ? " with an argument" : "", show(got).c_str(), show(want).c_str());
}
#define SO(fn, want) do { Fit f = 7.5; TF::fn(&v, &f); verdict(#fn, kind, false, x, {LD(f)}, {want}, tol); Arg a{3}; f = -7.5; TA::fn(&v, &a, &f); verdict(#fn, kind, true, x, {LD(f)}, {want}, tol); } while (0)
template <class Var, class Fit> void so2(const char *kind, const LV &x, LD tol) {
  typedef testFunctions<Var, Fit> TF; typedef testFunctions<Var, Fit, Arg> TA; const Var v = mkvar<Var>(x); const LD p = x[0], q = x[1];
  SO(ackley, ackley(p, q)); SO(beale, beale(p, q)); SO(GoldsteinPrice, GoldsteinPrice(p, q)); SO(booth, booth(p, q)); SO(bukin, bukin(p, q)); SO(matyas, matyas(p, q)); SO(levy, levy(p, q)); SO(himmelblau, himmelblau(p, q)); SO(threeHumpCamel, threeHumpCamel(p, q));
  SO(easom, easom(p, q)); SO(crossInTray, crossInTray(p, q)); SO(eggHolder, eggHolder(p, q)); SO(holderTable, holderTable(p, q)); SO(McCormick, McCormick(p, q)); SO(schaffer2, schaffer2(p, q)); SO(schaffer4, schaffer4(p, q));
}
template <class Var, class Fit> void sox(const char *kind, const LV &x, LD tol) {
  typedef testFunctions<Var, Fit> TF; typedef testFunctions<Var, Fit, Arg> TA; const Var v = mkvar<Var>(x);
  SO(rastrigin, rastrigin(x)); SO(sphere, sphere(x)); SO(styblinskiTang, styblinskiTang(x)); if (x.size() > 1) SO(rosenbrock, rosenbrock(x));
}
// presized: the caller gives the fitness its size; otherwise the function does, whatever it was before
#define MOx(fn, name, ref, M, presized) do { for (int arg = 0; arg < 2; arg++) { Fit f; if constexpr (!array_traits<Fit>::isFixedSize) f.resize(presized ? M : arg ? 0 : 5); for (auto &a : f) a = 7.5; Arg a{3}; \
  if (arg) TA::fn(&v, &a, &f); else TF::fn(&v, &f); verdict(name, kind, arg, x, LV(f.data(), f.data() + f.size()), ref(x, M), tol); } } while (0)
#define MO(fn, M, presized) MOx(fn, #fn, fn, M, presized)
template <class Var, class Fit> void mo12(const char *kind, const LV &x, LD tol) { typedef testFunctions<Var, Fit> TF; typedef testFunctions<Var, Fit, Arg> TA; const Var v = mkvar<Var>(x); MO(Schaffer1, 2, false); MO(Schaffer2, 2, false); }
template <class Var, class Fit> void mo22(const char *kind, const LV &x, LD tol) { typedef testFunctions<Var, Fit> TF; typedef testFunctions<Var, Fit, Arg> TA; const Var v = mkvar<Var>(x); MO(BinhKorn, 2, false); MO(ChangkongHaimes, 2, false); MO(Poloni, 2, false); }
template <class Var, class Fit> void mo23(const char *kind, const LV &x, LD tol) { typedef testFunctions<Var, Fit> TF; typedef testFunctions<Var, Fit, Arg> TA; const Var v = mkvar<Var>(x); MO(viennet, 3, false); }
template <class Var, class Fit> void mox2(const char *kind, const LV &x, LD tol) { typedef testFunctions<Var, Fit> TF; typedef testFunctions<Var, Fit, Arg> TA; const Var v = mkvar<Var>(x); MO(FonsecaFleming, 2, true); MO(Kursawe, 2, true); }
template <class Var, class Fit, int M> void dtlz(const char *kind, const LV &x, LD tol) {
  typedef testFunctions<Var, Fit> TF; typedef testFunctions<Var, Fit, Arg> TA; const Var v = mkvar<Var>(x);
  MO(DTLZ1, M, true); MO(DTLZ2, M, true); MO(DTLZ3, M, true); MO(DTLZ4, M, true); MOx(template DTLZ4<3>, "DTLZ4<3>", DTLZ4b, M, true); MO(DTLZ5, M, true); MO(DTLZ6, M, true); MO(DTLZ7, M, true);
}
template <class Var, class Fit, int M> void dtlz89(const char *kind, const LV &x, LD tol) {
  typedef testFunctions<Var, Fit> TF; typedef testFunctions<Var, Fit, Arg> TA; const Var v = mkvar<Var>(x);
  if constexpr (M > 2) MO(DTLZ8, M, true); MO(DTLZ9, M, true);
}
// every pair of container kinds
#define PAIRS(N, M, CALL) do { \
  { typedef std::array<double, N> Var; typedef std::array<double, M> Fit; const char *kind = "array/array"; CALL; } { typedef std::array<double, N> Var; typedef Eigen::Array<double, M, 1> Fit; const char *kind = "array/Eigen fixed"; CALL; } \
  { typedef std::array<double, N> Var; typedef vector<double> Fit; const char *kind = "array/vector"; CALL; } { typedef std::array<double, N> Var; typedef Eigen::ArrayXd Fit; const char *kind = "array/Eigen dynamic"; CALL; } \
  { typedef vector<double> Var; typedef std::array<double, M> Fit; const char *kind = "vector/array"; CALL; } { typedef vector<double> Var; typedef Eigen::Array<double, M, 1> Fit; const char *kind = "vector/Eigen fixed"; CALL; } \
  { typedef vector<double> Var; typedef vector<double> Fit; const char *kind = "vector/vector"; CALL; } { typedef vector<double> Var; typedef Eigen::ArrayXd Fit; const char *kind = "vector/Eigen dynamic"; CALL; } \
  { typedef Eigen::Array<double, N, 1> Var; typedef std::array<double, M> Fit; const char *kind = "Eigen fixed/array"; CALL; } { typedef Eigen::Array<double, N, 1> Var; typedef Eigen::Array<double, M, 1> Fit; const char *kind = "Eigen fixed/Eigen fixed"; CALL; } \
  { typedef Eigen::Array<double, N, 1> Var; typedef vector<double> Fit; const char *kind = "Eigen fixed/vector"; CALL; } { typedef Eigen::Array<double, N, 1> Var; typedef Eigen::ArrayXd Fit; const char *kind = "Eigen fixed/Eigen dynamic"; CALL; } \
  { typedef Eigen::ArrayXd Var; typedef std::array<double, M> Fit; const char *kind = "Eigen dynamic/array"; CALL; } { typedef Eigen::ArrayXd Var; typedef Eigen::Array<double, M, 1> Fit; const char *kind = "Eigen dynamic/Eigen fixed"; CALL; } \
  { typedef Eigen::ArrayXd Var; typedef vector<double> Fit; const char *kind = "Eigen dynamic/vector"; CALL; } { typedef Eigen::ArrayXd Var; typedef Eigen::ArrayXd Fit; const char *kind = "Eigen dynamic/Eigen dynamic"; CALL; } } while (0)

// every point of menu^n
template <class F> void grid(const char *name, int n, const vector<double> &menu, F &&f) {
  if (!mine()) return;
  auto &c = mc::ctx(); c.max_dev = 1 << 30; c.horizon = 64;
  mc::explore(name, mc::fmt("n=%d menu=%zu", n, menu.size()), [&] { LV x; for (int i = 0; i < n; i++) x.push_back(menu[mc::choose(menu.size())]); uint64_t h = mc::hstr(name); for (LD a : x) h = mc::h64(h, uint64_t(int64_t(a * 4096))); mc::state(h); f(x); mc::outcome(h); if (c.rank == 0 && c.st.executions % 997 == 0) mc::sample(mc::fmt("%s at (%s): all functions in all containers equal their definitions", name, show(x).c_str())); });
}
static vector<double> range(double a, double b, double step) { vector<double> r; for (double x = a; x <= b + 1e-12; x += step) r.push_back(x); return r; }
static const LD TD = 1e-10L, TFL = 2e-3L;

template <int N> void anyN(const vector<double> &m) {
  grid(mc::fmt("single-%d", N).c_str(), N, m, [](const LV &x) {
    sox<std::array<double, N>, double>("array", x, TD); sox<vector<double>, double>("vector", x, TD); sox<Eigen::Array<double, N, 1>, double>("Eigen fixed", x, TD); sox<Eigen::ArrayXd, double>("Eigen dynamic", x, TD);
    sox<std::array<float, N>, float>("float array", x, TFL); sox<Eigen::Array<float, N, 1>, float>("float Eigen", x, TFL); });
  grid(mc::fmt("multi-%d", N).c_str(), N, m, [](const LV &x) { PAIRS(N, 2, (mox2<Var, Fit>(kind, x, TD))); });
}
template <int N, int M> void dt(const vector<double> &m) {
  grid(mc::fmt("dtlz1-7-%d-%d", N, M).c_str(), N, m, [](const LV &x) { PAIRS(N, M, (dtlz<Var, Fit, M>(kind, x, TD))); });
  if constexpr (N > M) grid(mc::fmt("dtlz8-9-%d-%d", N, M).c_str(), N, m, [](const LV &x) { PAIRS(N, M, (dtlz89<Var, Fit, M>(kind, x, TD))); });
}
int mc::main_impl() {
  const bool th = mc::thorough();
#if PART == 0
  section("single2", [&] {
    auto so = [](const LV &x) { so2<std::array<double, 2>, double>("array", x, TD); so2<vector<double>, double>("vector", x, TD); so2<Eigen::Array2d, double>("Eigen fixed", x, TD); so2<Eigen::ArrayXd, double>("Eigen dynamic", x, TD); so2<Eigen::Vector2d, double>("Eigen vector", x, TD); };
    grid("single2", 2, range(-5, 5, th ? 0.125 : 0.25), so); grid("single2-wide", 2, range(-512, 512, th ? 8 : 32), so); grid("single2-minima", 2, {3, 0.5, 0, -1, 1, -10, -3.779310, -3.283186, 3.584428, -1.848126, PI, 512, 404.2319, 8.05502, 9.66459, 1.34941, -0.54719, -1.54719, 1.25313}, so);
  });
  section("multi1", [&] { grid("multi1", 1, range(-20, 20, 0.0625), [](const LV &x) { PAIRS(1, 2, (mo12<Var, Fit>(kind, x, TD))); }); });
  section("multi2", [&] { auto m2 = [](const LV &x) { PAIRS(2, 2, (mo22<Var, Fit>(kind, x, TD))); PAIRS(2, 3, (mo23<Var, Fit>(kind, x, TD))); }; grid("multi2", 2, range(-4, 6, th ? 0.125 : 0.25), m2); grid("multi2-wide", 2, range(-20, 20, th ? 0.5 : 1), m2); });
  section("anyN", [&] { const auto a = range(-5, 5, th ? 0.25 : 0.5), b = range(-3, 3, th ? 0.5 : 1); anyN<1>(range(-5, 5, 0.125)); anyN<2>(a); anyN<3>(th ? a : b); anyN<4>(b); if (th) anyN<5>(b); });
#else
  section("dtlz", [&] { const auto a = range(0, 1, th ? 0.0625 : 0.125), b = range(0, 1, th ? 0.125 : 0.25), d = th ? range(0, 1, 0.25) : vector<double>{0, 0.25, 1};
    dt<2, 2>(a); dt<3, 2>(a); dt<4, 2>(b); dt<3, 3>(a); dt<4, 3>(b); dt<5, 3>(b); dt<4, 4>(b); dt<5, 4>(b); dt<6, 4>(d); dt<6, 5>(d); dt<7, 5>({0, 0.25, 1}); });
#endif
  return 0;
}
