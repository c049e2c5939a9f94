// I01 number codes, I02 random helpers and logistic chaos, I03 maths helpers.
#include <HeuristicFlow/Global>
#include <HeuristicFlow/SimpleMatrix>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/src/Global/LogisticChaos.hpp>
using namespace heu;
using std::string; using std::vector;
static bool mine() { static int slot = 0; auto &c = mc::ctx(); return c.replaying || slot++ % c.nranks == c.rank; }
template <class I, class F> I bits(F f) { I u; memcpy(&u, &f, sizeof u); return u; }
template <class F, class I> F fromBits(I u) { F f; memcpy(&f, &u, sizeof f); return f; }
static volatile double hide = 0;

#if PART == 1
// ---------------------------------------------------------------- I01
template <class F, class I, class Code> bool oneCode(I u) {
  const F f = fromBits<F>(u);
  const I e = I(encode(f)); const F d = decode(Code(u)); const F back = decode(encode(f));
  const char *ty = sizeof(F) == 8 ? "double" : "float";
  auto &c = mc::ctx(); c.st.transitions++;
  if (c.prop != "I01") return true;
  c.st.checks += 3;
  if (std::isnan(f)) {
    if (!std::isnan(d)) mc::violation("decodenan", mc::fmt("decode(%llx) of %s is not NaN", (unsigned long long)u, ty));
    if (!std::isnan(fromBits<F>(e)) || !std::isnan(back)) mc::violation("encodenan", mc::fmt("encode(NaN %llx) of %s is %llx", (unsigned long long)u, ty, (unsigned long long)e));
    return true;
  }
  if (bits<I>(d) != u) mc::violation("decode", mc::fmt("decode(%llx) of %s is %.17g, expected %.17g", (unsigned long long)u, ty, double(d), double(f)));
  if (f == 0 ? fromBits<F>(e) != 0 : e != u) mc::violation("encode", mc::fmt("encode(%.17g) of %s is %llx, expected %llx", double(f), ty, (unsigned long long)e, (unsigned long long)u));
  if (!(back == f)) mc::violation("roundtrip", mc::fmt("decode(encode(%.17g)) of %s is %.17g", double(f), ty, double(back)));
  return true;
}
template <class I> vector<I> mantissas(int nbits, int k) {   // at most k bits differ from all zeros or from all ones, plus alternating patterns
  const I full = (I(1) << nbits) - 1; vector<I> r{0};
  for (int n = 1; n <= k; n++) { vector<int> p(n); std::function<void(int, int, I)> go = [&](int i, int from, I m) { if (i == n) { r.push_back(m); return; } for (int b = from; b < nbits; b++) go(i + 1, b + 1, m | (I(1) << b)); }; go(0, 0, 0); }
  const size_t s = r.size(); for (size_t i = 0; i < s; i++) r.push_back(full ^ r[i]);
  r.push_back(full & I(0x5555555555555555ull)); r.push_back(full & I(0xAAAAAAAAAAAAAAAAull)); r.push_back(full & I(0x123456789ABCDEF0ull));
  for (int b = 0; b < nbits; b++) { r.push_back((I(1) << b) - 1); r.push_back(full ^ ((I(1) << b) - 1)); }
  return r;
}
static void codes() {
  const bool th = mc::thorough();
  const auto md = mantissas<uint64_t>(52, th ? 3 : 2); const auto mf = mantissas<uint32_t>(23, 3);
  for (uint64_t e = 0; e < 2048; e++) { if (!mine()) continue;
    mc::once("double", mc::fmt("exponent=%d", int(e)), [&] { for (uint64_t s = 0; s < 2; s++) for (uint64_t m : md) { oneCode<double, uint64_t, binCode64>(s << 63 | e << 52 | m); if ((mc::stats().transitions & 0xFFFF) == 0) mc::tick_alarm(); } mc::state(e); mc::outcome(e); }); }
  for (uint32_t e = 0; e < 256; e++) { if (!mine()) continue;
    mc::once("float", mc::fmt("exponent=%d", int(e)), [&] {
      const bool all = th || e == 0 || e == 1 || e == 127 || e == 254;
      for (uint32_t s = 0; s < 2; s++) { if (all) for (uint32_t m = 0; m < (1u << 23); m++) { oneCode<float, uint32_t, binCode32>(s << 31 | e << 23 | m); if ((m & 0xFFFF) == 0) mc::tick_alarm(); } else for (uint32_t m : mf) oneCode<float, uint32_t, binCode32>(s << 31 | e << 23 | m); }
      mc::state(4096 + e); mc::outcome(4096 + e); }); }
}
// the same codes evaluated by the compiler and passed through template parameters
template <binCode64 C> struct Through { static constexpr double value = decode(C); static constexpr binCode64 again = encode(value); };
template <binCode32 C> struct ThroughF { static constexpr float value = decode(C); static constexpr binCode32 again = encode(value); };
template <class F, size_t N> struct Arr { F v[N]; };
constexpr double DV[] = {0.0, 1.0, -1.0, 0.1, 1.9999999999999998, -3.9999999999999996, 2.2250738585072014e-308, 4.4501477170144018e-308, 2.2250738585072009e-308, 4.9406564584124654e-324, 1.7976931348623157e308, -1.7976931348623157e308, 3.141592653589793, 1e-300, 65535.0, 1e22};
constexpr float FV[] = {0.0f, 1.0f, -1.0f, 0.1f, 1.99999988f, -3.99999976f, 1.17549435e-38f, 2.35098856e-38f, 1.17549421e-38f, 1.40129846e-45f, 3.40282347e38f, -3.40282347e38f, 3.14159274f, 1e-30f, 65535.0f, 1e22f};
template <size_t I> void compileTime() {
  constexpr binCode64 c = encode(DV[I]); constexpr binCode32 f = encode(FV[I]);
  mc::once("compile-time", mc::fmt("value=%d", int(I)), [&] {
    MC_P("I01", uint64_t(c) == bits<uint64_t>(DV[I]) && Through<c>::value == DV[I] && Through<c>::again == c, "compiletime", "%.17g goes through a template parameter as %.17g", DV[I], Through<c>::value);
    MC_P("I01", uint32_t(f) == bits<uint32_t>(FV[I]) && ThroughF<f>::value == FV[I] && ThroughF<f>::again == f, "compiletimef", "%.9gf goes through a template parameter as %.9g", FV[I], ThroughF<f>::value);
    mc::state(5000 + I); mc::stats().transitions++;
  });
}
template <size_t... I> void compileTimes(std::index_sequence<I...>) { (compileTime<I>(), ...); }

template <int32_t A, uint32_t B> void div1() {
  typedef DivDecode<DivEncode<A, B>::code> D;
  MC_P("I01", D::numerator == A && D::denominator == B && D::real == double(A) / double(B), "div", "DivEncode<%d,%u> decodes to %d/%u = %.17g", A, B, D::numerator, D::denominator, D::real);
  mc::stats().transitions++; mc::state(mc::h64(uint32_t(A), B));
}
template <int32_t A, uint32_t... B> void divRow() { (div1<A, B>(), ...); }
template <int32_t... A> void divGrid() { (divRow<A, 1u, 2u, 3u, 10u, 255u, 256u, 65536u, 1000000007u, 2147483647u, 2147483648u, 4294967295u>(), ...); }
template <DivCode C> void constant(const char *n, double v) { MC_P("I01", std::abs(DivDecode<C>::real - v) <= 1e-15 * std::abs(v), "constant", "%s decodes to %.17g, expected %.17g", n, DivDecode<C>::real, v); }

template <int64_t S, int16_t P> void pow1() {
  const double got = PowDecode<PowEncode<S, P>::code>::real;
  const string digits = std::to_string(S < 0 ? -S : S);
  const string txt = string(S < 0 ? "-" : "") + digits[0] + "." + digits.substr(1) + "e" + std::to_string(P);
  const long double want = strtold(txt.c_str(), nullptr);
  MC_P("I01", std::abs((long double)got - want) <= 1e-13L * std::abs(want), "pow", "PowEncode<%lld,%d> decodes to %.17g, expected %.17Lg", (long long)S, P, got, want);
  mc::stats().transitions++; mc::state(mc::h64(uint64_t(S), uint64_t(P)));
}
template <int64_t S> void powRow() {
  mc::once("pow", mc::fmt("significant=%lld", (long long)S), [] {
    pow1<S, -255>(); pow1<S, -100>(); pow1<S, -17>(); pow1<S, -3>(); pow1<S, -1>(); pow1<S, 0>(); pow1<S, 1>(); pow1<S, 2>(); pow1<S, 16>(); pow1<S, 128>(); pow1<S, 255>();
    if constexpr (S < 100000000000000 && S > -100000000000000) MC_P("I01", (PowEncode<S, 7>::code == PowEncode<10 * S, 7>::code), "powzero", "PowEncode<%lld,7> and <%lld,7> differ", (long long)S, (long long)S * 10);
  });
}
template <int64_t... S> void powGrid() { (powRow<S>(), ...); (powRow<-S>(), ...); }
int mc::main_impl() {
  section("codes", codes);
  section("compile-time", [] { if (mine()) compileTimes(std::make_index_sequence<16>()); });
  section("div", [] { if (mine()) mc::once("div", "", [] {
    divGrid<INT32_MIN, INT32_MIN + 1, -65536, -255, -3, -1, 0, 1, 2, 7, 100, 65535, 65536, INT32_MAX - 1, INT32_MAX>();
    constant<DivCode_Half>("Half", 0.5); constant<DivCode_Pi>("Pi", M_PI); constant<DivCode_Pi_mul_2>("Pi_mul_2", 2 * M_PI); constant<DivCode_Pi_mul_3>("Pi_mul_3", 3 * M_PI); constant<DivCode_Pi_mul_4>("Pi_mul_4", 4 * M_PI); constant<DivCode_Pi_mul_6>("Pi_mul_6", 6 * M_PI);
    constant<DivCode_Pi_div_2>("Pi_div_2", M_PI / 2); constant<DivCode_Pi_div_3>("Pi_div_3", M_PI / 3); constant<DivCode_Pi_div_4>("Pi_div_4", M_PI / 4); constant<DivCode_Pi_div_6>("Pi_div_6", M_PI / 6); constant<DivCode_Sqrt2>("Sqrt2", M_SQRT2); constant<DivCode_one_div_Sqrt2>("one_div_Sqrt2", M_SQRT1_2); constant<DivCode_E>("E", M_E);
  }); });
  section("pow", [] { if (mine()) powGrid<0, 1, 2, 3, 5, 9, 10, 17, 18, 19, 20, 99, 100, 123456, 999999, 1919810, 2147483648, 4611686018427387, 1000000000000000, 1000000000000001, 1799999999999999, 1800000000000001, 1801439850948199, 9007199254740993, 9999999999999999, 999999999999999, 500000000000000>(); });
  return 0;
}
#else
// ---------------------------------------------------------------- I02
static void answer(double v) { auto &c = mc::ctx(); c.real_default = v; c.draws = 0; }
template <class T> void indices(const char *tn) {
  if (!mine()) return;
  auto &c = mc::ctx();
  const double TOP = 1 - 1.0 / 9007199254740992.0, TOPF = 1 - 1.0 / 16777216.0;
  // never outside, for every size class and the extreme answers
  mc::once(mc::fmt("randIdx-range<%s>", tn), "", [&] {
    vector<uint64_t> sizes; for (uint64_t s = 1; s <= 300; s++) sizes.push_back(s); for (int b = 8; b < 53; b++) for (int o = -3; o <= 5; o++) sizes.push_back((1ull << b) + o);
    for (uint64_t s : sizes) { if (s > uint64_t(std::numeric_limits<T>::max())) continue;
      for (double v : {0.0, 1e-300, 1.0 / 16777216, 0.25, 0.5, 0.75, TOPF, 1 - 1.0 / 4294967296.0, TOP}) {
        answer(v); const T i = randIdx<T>(T(s)); c.st.transitions++;
        MC_P("I02", i >= 0 && uint64_t(i) < s, "range", "randIdx<%s>(%llu) gave %lld for the answer %.17g", tn, (unsigned long long)s, (long long)i, v);
        for (int64_t lo : {int64_t(0), int64_t(1), int64_t(5), int64_t(-7), int64_t(100), int64_t(-100), int64_t(1) << 20}) {
          if (!std::is_signed<T>::value && lo < 0) continue;
          if (lo < int64_t(std::numeric_limits<T>::min()) || (lo > 0 && s + uint64_t(lo) > uint64_t(std::numeric_limits<T>::max()))) continue;
          answer(v); const T j = randIdx<T>(T(lo), T(lo + int64_t(s)));
          MC_P("I02", int64_t(j) >= lo && int64_t(j) < lo + int64_t(s), "range2", "randIdx<%s>(%lld,%lld) gave %lld for the answer %.17g", tn, (long long)lo, (long long)(lo + int64_t(s)), (long long)j, v);
        }
      }
      mc::state(s);
    }
  });
  // equally likely: evenly spread answers give every index the same share
  const int N = mc::thorough() ? 1 << 16 : 1 << 12;
  for (int s = 1; s <= 64; s++) mc::once(mc::fmt("randIdx-law<%s>", tn), mc::fmt("size=%d", s), [&] {
    for (int lo : {0, 3, std::is_signed<T>::value ? -11 : 20}) {
      vector<int> cnt(s, 0);
      for (int k = 0; k < N; k++) { answer((k + 0.5) / N); const T i = lo ? randIdx<T>(T(lo), T(lo + s)) : randIdx<T>(T(s)); const int x = int(i) - lo; c.st.transitions++; if (x < 0 || x >= s) { MC_P("I02", false, "range3", "randIdx<%s>(%d,%d) gave %d", tn, lo, lo + s, int(i)); break; } cnt[x]++; }
      for (int x = 0; x < s; x++) MC_P("I02", std::abs(cnt[x] - double(N) / s) <= 1.000001, "law", "randIdx<%s>(%d,%d): index %d has %d of %d evenly spread answers", tn, lo, lo + s, lo + x, cnt[x], N);
    }
    mc::outcome(s); mc::state(1000000 + s);
  });
}
static void reals() {
  auto &c = mc::ctx(); const double TOP = 1 - 1.0 / 9007199254740992.0;
  const vector<double> ends{-1e300, -1e10, -1000.5, -3, -1, -0.1, -1e-300, 0, 1e-300, 0.1, 0.5, 1, 2, 3, 7.25, 1000.5, 1e10, 1e300};
  if (mine()) mc::once("randD", "", [&] {
    for (double a : ends) for (double b : ends) { if (a > b) continue;
      double prev = a;
      for (int k = 0; k <= 64; k++) { const double v = k == 64 ? TOP : k / 64.0; answer(v); const double x = randD(a, b); c.st.transitions++;
        MC_P("I02", x >= a && x <= b, "range", "randD(%g,%g) gave %.17g for the answer %.17g", a, b, x, v);
        const long double w = (long double)a + ((long double)b - a) * v; const double tol = 1e-14 * std::max(std::abs(a), std::abs(b));
        MC_P("I02", std::abs((long double)x - w) <= tol, "linear", "randD(%g,%g) gave %.17g for the answer %g, expected %.17Lg", a, b, x, v, w);
        MC_P("I02", x >= prev, "monotone", "randD(%g,%g) is not monotone in the answer", a, b); prev = x; }
      mc::state(mc::h64(bits<uint64_t>(a), bits<uint64_t>(b))); }
    for (double v : {0.0, 0.3, TOP}) { answer(v); MC_P("I02", randD() == v, "unit", "randD() gave another answer than the engine"); answer(v); const float f = randF(); MC_P("I02", f >= 0 && f < 1, "unitf", "randF() gave %g", f); }
  });
  // arrays: exactly num entries, in the order of the draws
  c.real_menu = {0.0, 0.5, TOP}; c.norm_menu = {-2.5, 0.0, 1.0}; c.max_dev = 1 << 30;
  for (int n = 0; n <= 4; n++) for (int kind = 0; kind < 2; kind++) { if (!mine()) continue; mc::explore("randD-array", mc::fmt("n=%d kind=%d", n, kind), [&] {
    vector<double> v(n + 2, -77); c.active = true; if (kind == 0) randD(v.data() + 1, n); else randD(v.data() + 1, n, -2.0, 6.0); c.active = false;
    MC_P("I02", v[0] == -77 && v[n + 1] == -77, "arrayrange", "randD(dst,%d) wrote outside", n);
    MC_P("I02", (int)c.trail.size() == n, "arraydraws", "randD(dst,%d) drew %zu numbers", n, c.trail.size());
    for (int i = 0; i < n && i < (int)c.trail.size(); i++) { const double q = c.real_menu[c.trail[i].c], w = kind == 0 ? q : -2.0 + 8.0 * q; MC_P("I02", std::abs(v[i + 1] - w) < 1e-14, "array", "randD(dst,%d) entry %d is %g, the draw was %g", n, i, v[i + 1], w); }
    uint64_t h = n; for (auto &k : c.trail) h = mc::h64(h, k.c); mc::state(h); mc::outcome(h);
  }); }
  if (mine()) mc::explore("normD", "", [&] {
    c.active = true; const double mu = vector<double>{-3, 0, 2.5}[mc::choose(3)], sg = vector<double>{0.5, 1, 4}[mc::choose(3)]; const double z = normD(mu, sg); const double z0 = normD(); const float zf = normF(); c.active = false;
    auto an = [&](size_t i) { return c.norm_menu[c.trail[i].c]; };
    MC_P("I02", c.trail.size() == 5 && std::abs(z - (mu + sg * an(2))) < 1e-14 && z0 == an(3) && zf == float(an(4)), "norm", "normD(%g,%g) gave %g, normD() %g, normF() %g", mu, sg, z, z0, zf);
    uint64_t h = 3; for (auto &k : c.trail) h = mc::h64(h, k.c); mc::state(h);
  });
}
static void chaos() {
  auto &c = mc::ctx(); c.max_dev = 1 << 30; c.horizon = 64;
  const int depth = mc::thorough() ? 6 : 5;
  const double TOP = 1 - 1.0 / 9007199254740992.0;
  for (double seed : {1e-300, 1e-17, 0.1, 0.25, 0.5, 0.3, 0.75, 0.9, TOP, 0.123456789}) { if (!mine()) continue;
    mc::explore("chaos", mc::fmt("seed=%.17g depth=%d", seed, depth), [&] {
      LogisticChaos lc(seed); double ref = seed; c.active = true;
      auto next = [&] { ref = 4.0 * ref * (1 - ref); return ref; };
      MC_P("I02", lc.value() == seed, "seed", "the value after construction is %g", lc.value());
      for (int s = 0; s < depth; s++) {
        const int o = mc::choose(8); string op = "";
        if (o == 0) { op = "operator()"; const double v = lc(), w = next(); MC_P("I02", v == w, "call", "operator() gave %.17g, expected %.17g", v, w); }
        else if (o <= 3) { const int n = o == 1 ? 0 : o == 2 ? 1 : 7; op = "iterate"; lc.iterate(n); for (int i = 0; i < n; i++) next(); }
        else if (o <= 6) { const int n = o == 4 ? 0 : o == 5 ? 1 : 6; op = "makeSequence"; vector<double> d(n + 2, -7); lc.makeSequence(d.data() + 1, n); MC_P("I02", d[0] == -7 && d[n + 1] == -7, "seqrange", "makeSequence(%d) wrote outside", n); for (int i = 0; i < n; i++) { const double w = next(); MC_P("I02", d[i + 1] == w, "sequence", "makeSequence entry %d of %d is %.17g, expected %.17g", i, n, d[i + 1], w); } }
        else { op = "copy"; LogisticChaos k(lc); k(); k.iterate(3); }
        MC_P("I02", lc.value() == ref, "value", "value after %s is %.17g, expected %.17g", op.c_str(), lc.value(), ref);
        MC_P("I02", lc.value() >= 0 && lc.value() <= 1, "range", "value %.17g", lc.value());
        mc::state(bits<uint64_t>(ref));
      }
      c.active = false; mc::outcome(bits<uint64_t>(ref));
      if (c.st.executions % 10007 == 3) mc::sample(mc::fmt("seed %g ops %s -> %.17g", seed, mc::trail_str().c_str(), ref));
    });
  }
  if (mine()) mc::once("chaos-random", "", [&] { answer(0.375); LogisticChaos lc; MC_P("I02", lc.value() == 0.375, "random", "random construction gave %g", lc.value()); });
}
// ---------------------------------------------------------------- I03
template <class T> void choose_(const char *tn) {
  if (!mine()) return;
  mc::once(mc::fmt("NchooseK<%s>", tn), "", [&] {
    typedef unsigned __int128 U; vector<vector<U>> p(67, vector<U>(67, 0));
    for (int n = 0; n <= 66; n++) { p[n][0] = 1; for (int k = 1; k <= n; k++) p[n][k] = p[n - 1][k - 1] + (k < n ? p[n - 1][k] : 0); }
    const U top = U(std::numeric_limits<T>::max());
    for (int n = 0; n <= 66; n++) for (int k = 0; k <= n; k++) {
      const U m = p[n][k] * U(std::max(1, std::min(k, n - k))); if (m > top || U(n) > top) continue;   // the step-by-step product fits
      if (U(2 * k) > top) continue;
      const T g = NchooseK<T>(T(n), T(k)); mc::stats().transitions++;
      MC_P("I03", U(g) == p[n][k], "choose", "NchooseK<%s>(%d,%d) is %llu, expected %llu", tn, n, k, (unsigned long long)g, (unsigned long long)p[n][k]);
      mc::state(n * 100 + k);
    }
    U f = 1; for (int n = 0; n <= 33; n++) { if (n) f *= n; if (f > top) break; const T g = fractorial<T>(T(n)); MC_P("I03", U(g) == f, "factorial", "fractorial<%s>(%d) is %llu", tn, n, (unsigned long long)g); mc::stats().transitions++; }
  });
}
template <class T> void scalars(const char *tn, const vector<T> &vs) {
  auto &c = mc::ctx(); c.max_dev = 1 << 30;
  if (!mine()) return;
  const int n = int(vs.size());
  for (int k = 2; k <= 5; k++) mc::explore(mc::fmt("minmax<%s>", tn), mc::fmt("count=%d", k), [&] {
    T a[5]; c.active = true; for (int i = 0; i < k; i++) a[i] = vs[mc::choose(n)]; c.active = false;
    T lo, hi;
    switch (k) { case 2: lo = heu::min(a[0], a[1]); hi = heu::max(a[0], a[1]); break; case 3: lo = heu::min(a[0], a[1], a[2]); hi = heu::max(a[0], a[1], a[2]); break; case 4: lo = heu::min(a[0], a[1], a[2], a[3]); hi = heu::max(a[0], a[1], a[2], a[3]); break; default: lo = heu::min(a[0], a[1], a[2], a[3], a[4]); hi = heu::max(a[0], a[1], a[2], a[3], a[4]); }
    MC_P("I03", lo == *std::min_element(a, a + k) && hi == *std::max_element(a, a + k), "minmax", "min/max<%s> of %d values: %g %g", tn, k, double(lo), double(hi));
    uint64_t h = k; for (int i = 0; i < k; i++) h = mc::h64(h, bits<uint64_t>(double(a[i]))); mc::state(h); mc::outcome(mc::h64(bits<uint64_t>(double(lo)), bits<uint64_t>(double(hi))));
  });
  mc::once(mc::fmt("sign-square<%s>", tn), "", [&] { for (T v : vs) {
    MC_P("I03", heu::sign(v) == T((v > 0) - (v < 0)), "sign", "sign<%s>(%g) is %g", tn, double(v), double(heu::sign(v)));
    if (std::abs(double(v)) < 1000) MC_P("I03", heu::square(v) == v * v, "square", "square<%s>(%g)", tn, double(v)); mc::stats().transitions++; } });
}
template <int... V> void static_() {
  const int a[] = {V...}; const int n = sizeof...(V);
  MC_P("I03", (min_v<int, V...>) == *std::min_element(a, a + n) && (max_v<int, V...>) == *std::max_element(a, a + n) && (minmax<int, V...>::min) == *std::min_element(a, a + n) && (minmax<int, V...>::max) == *std::max_element(a, a + n), "staticminmax", "min_v/max_v of %d values starting with %d: %d %d", n, a[0], (min_v<int, V...>), (max_v<int, V...>));
  mc::stats().transitions++; uint64_t h = 77; for (int x : a) h = mc::h64(h, x); mc::state(h);
}
template <int A, int B, int C> void static3() { static_<A, B, C>(); static_<A, B>(); static_<A>(); static_<A, B, C, 2>(); static_<3, A, B, C>(); static_<A, B, C, B, -1>(); }
template <int A, int B> void static2() { static3<A, B, 1>(); static3<A, B, 2>(); static3<A, B, 3>(); static3<A, B, -5>(); }
template <int A> void static1() { static2<A, 1>(); static2<A, 2>(); static2<A, 3>(); static2<A, -5>(); }
static void maths() {
  choose_<int>("int"); choose_<unsigned>("unsigned"); choose_<size_t>("size_t"); choose_<int64_t>("int64_t"); choose_<uint16_t>("uint16_t");
  scalars<int>("int", {INT_MIN, -3, -1, 0, 1, 2, 900, INT_MAX}); scalars<double>("double", {-1e300, -2.5, -1e-300, 0, 1e-300, 0.5, 7, 1e300}); scalars<float>("float", {-1e30f, -1, 0, 0.5f, 1e30f}); scalars<unsigned>("unsigned", {0u, 1u, 2u, 77u, UINT_MAX}); scalars<int64_t>("int64_t", {INT64_MIN, -1, 0, 5, INT64_MAX});
  if (mine()) mc::once("static-minmax", "", [] { static1<1>(); static1<2>(); static1<3>(); static1<-5>(); });
  if (mine()) mc::once("gaussianCurve", "", [] {
    for (double mu : {-3.0, 0.0, 0.5, 10.0}) for (double sg : {0.1, 0.5, 1.0, 3.0}) for (int i = -40; i <= 40; i++) {
      const double x = i * 0.25, w = std::exp(-(x - mu) * (x - mu) / (2 * sg * sg)) / (sg * std::sqrt(2 * M_PI)); const double g = gaussianCurve(x, mu, sg); mc::stats().transitions++;
      MC_P("I03", std::abs(g - w) <= 1e-13 * w + 1e-300, "gauss", "gaussianCurve(%g,%g,%g) is %g, expected %g", x, mu, sg, g, w);
      const float gf = gaussianCurve<float>(float(x), float(mu), float(sg)); if (w > 1e-30) MC_P("I03", std::abs(gf - w) <= 2e-3 * w, "gaussf", "gaussianCurve<float>(%g,%g,%g) is %g, expected %g", x, mu, sg, gf, w);
      mc::state(mc::h64(mc::h64(bits<uint64_t>(mu), bits<uint64_t>(sg)), i)); }
    for (int i = -8; i <= 8; i++) { const double x = i * 0.5, w = std::exp(-x * x / 2) / std::sqrt(2 * M_PI); MC_P("I03", std::abs(gaussianCurve(x) - w) <= 1e-13 * w, "gaussdefault", "gaussianCurve(%g) is %g", x, gaussianCurve(x)); }
  });
}
int mc::main_impl() {
  if (ctx().prop == "I02" || ctx().replaying) {
    section("randIdx", [] { indices<int>("int"); indices<unsigned>("unsigned"); indices<size_t>("size_t"); indices<int64_t>("int64_t"); indices<uint8_t>("uint8_t"); indices<int16_t>("int16_t"); });
    section("randD", reals); section("chaos", chaos);
  }
  if (ctx().prop == "I03" || ctx().replaying) section("maths", maths);
  return 0;
}
#endif
