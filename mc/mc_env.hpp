// Controlled environment for model checking HeuristicFlow.
//
// This header is force-included (-include) before any HeuristicFlow header.  It first includes the
// standard library and Eigen untouched, then substitutes the *random* part of the standard library
// by stand-ins whose every answer is a choice point of the explorer (mc::choose).  HeuristicFlow's
// own sources are compiled unmodified: wherever they say std::mt19937, std::normal_distribution,
// std::shuffle, ... they get the stand-ins.
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <Eigen/Dense>

#include "mc_core.hpp"

namespace std {

// raw generator: 16 evenly spread 32-bit outputs
struct mc_engine {
  using result_type = uint_fast32_t;
  static constexpr result_type default_seed = 5489u;
  mc_engine() {}
  template <class... A> explicit mc_engine(A &&...) {}
  template <class... A> void seed(A &&...) {}
  void discard(unsigned long long) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xFFFFFFFFu; }
  result_type operator()() {
    return (result_type(mc::env_choose(16, 7)) * 0x11111111u) ^ 0x00012347u;
  }
};

struct mc_random_device {
  using result_type = unsigned;
  template <class... A> mc_random_device(A &&...) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xFFFFFFFFu; }
  result_type operator()() { return 12345u; }
};

template <class T = double> struct mc_uniform_real {
  using result_type = T;
  T _a, _b;
  mc_uniform_real() : _a(0), _b(1) {}
  explicit mc_uniform_real(T a, T b = T(1)) : _a(a), _b(b) {}
  void reset() {}
  T a() const { return _a; }
  T b() const { return _b; }
  T min() const { return _a; }
  T max() const { return _b; }
  template <class G> T operator()(G &) {
    const double q = mc::env_real();
    T qt = T(q);
    if (qt >= T(1)) qt = std::nextafter(T(1), T(0));
    return _a == T(0) && _b == T(1) ? qt : T(_a + qt * (_b - _a));
  }
};

template <class T = double> struct mc_normal {
  using result_type = T;
  T _m, _s;
  mc_normal() : _m(0), _s(1) {}
  explicit mc_normal(T m, T s = T(1)) : _m(m), _s(s) {}
  void reset() {}
  T mean() const { return _m; }
  T stddev() const { return _s; }
  template <class G> T operator()(G &) { return _m + _s * T(mc::env_normal()); }
};

template <class T = int> struct mc_uniform_int {
  using result_type = T;
  T _a, _b;
  mc_uniform_int() : _a(0), _b(std::numeric_limits<T>::max()) {}
  explicit mc_uniform_int(T a, T b = std::numeric_limits<T>::max()) : _a(a), _b(b) {}
  void reset() {}
  T a() const { return _a; }
  T b() const { return _b; }
  template <class G> T operator()(G &) {
    const unsigned long long span = (unsigned long long)_b - (unsigned long long)_a;
    if (span < 64) return T(_a + T(mc::env_choose(int(span) + 1, int(span) / 2)));
    const int k = mc::env_choose(16, 7);
    return T(_a + T((long double)span * k / 15.0L));
  }
};

struct mc_bernoulli {
  using result_type = bool;
  double p;
  explicit mc_bernoulli(double q = 0.5) : p(q) {}
  template <class G> bool operator()(G &) { return mc::env_real() < p; }
};

// every permutation of the range is a branch
template <class It, class G> void mc_shuffle(It f, It l, G &&) {
  const auto n = l - f;
  mc::env_shuffle_begin(int(n));
  for (auto i = n; i > 1; --i) {
    const int j = mc::env_shuffle_pick(int(i));
    using std::swap;
    swap(f[i - 1], f[j]);
  }
}

template <class T = int> struct mc_discrete {
  using result_type = T;
  std::vector<double> w;
  mc_discrete() : w{1.0} {}
  template <class It> mc_discrete(It a, It b) : w(a, b) {}
  mc_discrete(std::initializer_list<double> l) : w(l) {}
  template <class G> T operator()(G &) { return T(mc::env_choose(int(w.size()), 0)); }
};

}  // namespace std

#define mt19937 mc_engine
#define mt19937_64 mc_engine
#define default_random_engine mc_engine
#define minstd_rand mc_engine
#define minstd_rand0 mc_engine
#define ranlux24 mc_engine
#define ranlux48 mc_engine
#define knuth_b mc_engine
#define random_device mc_random_device
#define uniform_real_distribution mc_uniform_real
#define normal_distribution mc_normal
#define uniform_int_distribution mc_uniform_int
#define bernoulli_distribution mc_bernoulli
#define discrete_distribution mc_discrete
#define shuffle mc_shuffle
