// J01: multiBitSet behaves like a vector of eleBits-wide unsigned integers.
#include <cstring>
#include <cassert>
#include <HeuristicFlow/SimpleMatrix>
using namespace heu;
using std::string; using std::vector;
static long live = 0;   // blocks allocated and not freed
template <class T> struct Counting {
  using value_type = T;
  Counting() = default; template <class U> Counting(const Counting<U> &) {}
  T *allocate(size_t n) { live += n; return std::allocator<T>().allocate(n); }
  void deallocate(T *p, size_t n) { live -= n; std::allocator<T>().deallocate(p, n); }
};
static bool mine() { static int slot = 0; auto &c = mc::ctx(); return c.replaying || slot++ % c.nranks == c.rank; }
struct Ref { uint64_t v; bool known; };
typedef vector<Ref> Model;

template <class S, class M> void compare(const char *name, S &s, const M &m, uint64_t mask, int bits, const char *op) {
  const S &cs = s; const size_t n = m.size();
  if (mc::ctx().prop != "J01") return;
  auto bad = [&](const char *key, size_t i, uint64_t got, uint64_t want) { mc::violation(key, mc::fmt("%s: after %s element %zu of %zu is %llx, expected %llx", name, op, i, n, (unsigned long long)got, (unsigned long long)want)); };
  mc::stats().checks++;
  if (cs.size() != n) { mc::violation("size", mc::fmt("%s: after %s size() is %zu, expected %zu", name, op, cs.size(), n)); return; }
  if (cs.capacity() < n || cs.blocks() * S::blockBits < n * bits) mc::violation("capacity", mc::fmt("%s: after %s capacity %zu, %zu blocks for %zu elements", name, op, cs.capacity(), cs.blocks(), n));
  for (size_t i = 0; i < n; i++) {
    const uint64_t g = cs[i];
    if (g > mask || (m[i].known && g != m[i].v)) bad("element", i, g, m[i].v);
    if (uint64_t(typename S::value_t(s[i])) != g || uint64_t(cs.at(i)) != g || uint64_t(typename S::value_t(s.at(i))) != g) bad("accessors", i, cs.at(i), g);
    if (s[i].isNull()) mc::violation("isnull", mc::fmt("%s: reference to element %zu of %zu is null", name, i, n));
  }
  size_t k = 0;
  for (auto it = s.begin(); it != s.end(); ++it, k++) { if (k >= n) break; if (it.index() != k || it.isNull() || uint64_t(typename S::value_t(*it)) != uint64_t(cs[k])) bad("iterate", k, typename S::value_t(*it), cs[k]); }
  if (k != n) mc::violation("iterate", mc::fmt("%s: iteration visited %zu of %zu elements", name, k, n));
  k = 0;
  for (auto v : cs) { if (k >= n) break; if (uint64_t(v) != uint64_t(cs[k])) bad("citerate", k, v, cs[k]); k++; }
  if (k != n) mc::violation("citerate", mc::fmt("%s: constant iteration visited %zu of %zu elements", name, k, n));
  if (!s.end().isNull() || !cs.end().isNull()) mc::violation("isnull", mc::fmt("%s: end() is not null", name));
  if (n) {
    if (uint64_t(cs.front()) != uint64_t(cs[0]) || uint64_t(cs.back()) != uint64_t(cs[n - 1]) || uint64_t(typename S::value_t(s.front())) != uint64_t(cs[0]) || uint64_t(typename S::value_t(s.back())) != uint64_t(cs[n - 1])) mc::violation("ends", mc::fmt("%s: front()/back() after %s", name, op));
    auto e = s.end(); --e; if (uint64_t(typename S::value_t(*e)) != uint64_t(cs[n - 1]) || uint64_t(typename S::value_t(*(s.end()[-1]))) != uint64_t(cs[n - 1])) bad("reverse", n - 1, typename S::value_t(*e), cs[n - 1]);
    auto b = s.begin(); auto old = b++; auto b2 = s.begin() + 1; if (old.index() != 0 || b.index() != 1 || !(b == b2) || old == b) mc::violation("itarith", mc::fmt("%s: iterator arithmetic", name));
    auto as = s.begin(); as = s.end() - 1; auto ca = cs.begin(); ca = cs.end(); auto cc = cs.begin(); cc = as;   // assignment and iterator -> constant iterator
    if (as.index() != n - 1 || uint64_t(typename S::value_t(*as)) != uint64_t(cs[n - 1]) || ca.index() != n || ca != cs.end() || cc.index() != n - 1 || uint64_t(*cc) != uint64_t(cs[n - 1])) mc::violation("itassign", mc::fmt("%s: an assigned iterator does not point where the other points", name));
    auto d = s.begin() + int64_t(n); auto od = d--; if (!(od == s.end()) || d.index() != n - 1 || (s.end() - int64_t(n)) != s.begin()) mc::violation("itarith", mc::fmt("%s: iterator arithmetic", name));
  }
}

// every operation sequence of the given length on two sets
template <int bits, class block> void ops(int depth) {
  typedef multiBitSet<bits, block, Counting<block>> S; typedef typename S::value_t V;
  const uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
  const size_t cross = 2 * sizeof(block) * 8 / bits + 1;   // reaches into the third block
  const string name = mc::fmt("multiBitSet<%d,uint%d>", bits, int(sizeof(block) * 8));
  auto &c = mc::ctx(); c.max_dev = 1 << 30; c.horizon = 64;
  for (size_t start : {size_t(0), size_t(1), cross, size_t(99)}) {
    if (!mine()) continue;
    mc::explore("ops-" + name, mc::fmt("start=%zu depth=%d", start, depth), [&] {
      live = 0;
      {
        S dflt, sized(start == 99 ? 0 : start); S &A = start == 99 ? dflt : sized; Model a(start == 99 ? 0 : start, Ref{0, true});
        S B(2); Model b(2, Ref{0, true});
        uint64_t pat = 0xA5C396E178B4D2F0ull;
        auto nextv = [&] { pat = pat * 6364136223846793005ull + 1442695040888963407ull; return (pat >> 11 | pat << 53) & mask; };
        compare(name.c_str(), A, a, mask, bits, "construction");
        auto grow = [&](Model &m, size_t n) { m.resize(n, Ref{0, false}); };
        auto refresh = [](const S &s, Model &m) { if (s.size() == m.size()) for (size_t i = 0; i < m.size(); i++) if (!m[i].known) m[i] = {uint64_t(s[i]), true}; };   // an element has some value once it exists
        c.active = true;
        for (int step = 0; step < depth; step++) {
          const bool ne = !a.empty(); const size_t n = a.size(); const char *op = "?";
          const int o = mc::choose(ne ? 19 : 13);
          switch (o) {
            case 0: op = "push_back(max)"; A.push_back(V(mask)); a.push_back({mask, true}); break;
            case 1: { op = "push_back"; const uint64_t v = nextv(); A.push_back(V(v)); a.push_back({v, true}); break; }
            case 2: op = "resize(+1)"; A.resize(n + 1); grow(a, n + 1); break;
            case 3: op = "resize(crossing)"; A.resize(cross); grow(a, cross); break;
            case 4: op = "resize(half)"; A.resize(n / 2); grow(a, n / 2); break;
            case 5: { op = "reserve"; const size_t cap = A.capacity(); A.reserve(cap + 1); MC_P("J01", A.capacity() > cap, "reserve", "%s: reserve(%zu) gave capacity %zu", name.c_str(), cap + 1, A.capacity()); break; }
            case 6: op = "shrink_to_fit"; A.shrink_to_fit(); MC_P("J01", A.blocks() * S::blockBits < n * bits + S::blockBits, "shrink", "%s: %zu blocks for %zu elements after shrink_to_fit", name.c_str(), A.blocks(), n); break;
            case 7: op = "clear"; A.clear(); a.clear(); break;
            case 8: op = "copy to another"; B = A; b = a; break;
            case 9: op = "copy from another"; A = B; a = b; break;
            case 10: { op = "copy construction"; S C(A); Model m = a; if (!m.empty()) { const uint64_t v = nextv(); A[0] = V(v); a[0] = {v, true}; } C.push_back(V(1)); m.push_back({1, true}); compare(name.c_str(), C, m, mask, bits, "copy construction"); break; }
            case 11: { op = "move construction"; S C(std::move(A)); compare(name.c_str(), C, a, mask, bits, "move construction"); Model none; compare(name.c_str(), A, none, mask, bits, "being moved from"); A.push_back(V(mask)); A = C; break; }
            case 12: { op = "push_back on the other"; const uint64_t v = nextv(); B.emplace_back(V(v)); b.push_back({v, true}); break; }
            case 13: op = "pop_back"; A.pop_back(); a.pop_back(); break;
            case 14: { op = "write first"; const uint64_t v = nextv(); const uint64_t r = (A.front() = V(v)); a[0] = {v, true}; MC_P("J01", r == v, "assignresult", "%s: assignment returned %llx", name.c_str(), (unsigned long long)r); break; }
            case 15: op = "write all ones to the last"; A[n - 1] = V(~0ull); a[n - 1] = {mask, true}; break;
            case 16: { op = "write by iterator"; const uint64_t v = nextv(); auto it = A.begin() + int64_t(n / 2); *it = V(v); a[n / 2] = {v, true}; break; }
            case 17: op = "assign element to element"; A[0] = A[n - 1]; a[0] = a[n - 1]; break;
            case 18: op = "write 0"; A.at(n / 2) = V(0); a[n / 2] = {0, true}; break;
          }
          if (a.size() && !a[0].known && o == 17) refresh(A, a);
          compare(name.c_str(), A, a, mask, bits, op); compare(name.c_str(), B, b, mask, bits, "an operation on the other set");
          refresh(A, a); refresh(B, b);
          uint64_t h = A.capacity() * 64 + bits; for (auto &r : a) h = mc::h64(h, r.v); mc::state(h);
        }
        if (c.st.executions % 40009 == 7) mc::sample(mc::fmt("%s start %zu ops %s -> %zu elements", name.c_str(), start, mc::trail_str().c_str(), a.size()));
        uint64_t h = 0; for (auto &r : a) h = mc::h64(h, r.v); mc::outcome(h);
      }
      c.active = false;
      MC_P("J01", live == 0, "leak", "%s: %ld blocks not freed", name.c_str(), live);
    });
  }
}

// writing one element changes that element only, for every position of up to `blocks` blocks
template <int bits, class block> void element() {
  if (!mine()) return;
  typedef multiBitSet<bits, block> S; typedef typename S::value_t V;
  const uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
  const size_t n = std::min<size_t>(5 * sizeof(block) * 8 / bits + 2, 70);
  const string name = mc::fmt("multiBitSet<%d,uint%d>", bits, int(sizeof(block) * 8));
  const vector<uint64_t> vals{0, mask, 1, 1ull << (bits - 1), 0xAAAAAAAAAAAAAAAAull & mask, 0xA5C396E178B4D2F1ull & mask};
  auto &c = mc::ctx(); c.max_dev = 1 << 30;
  mc::explore("element-" + name, "", [&] {
    c.active = true; const uint64_t bg = vals[mc::choose(int(vals.size()))], v = vals[mc::choose(int(vals.size()))]; c.active = false;
    S s(n); for (size_t i = 0; i < n; i++) s[i] = V(bg);
    for (size_t i = 0; i < n; i++) MC_P("J01", uint64_t(V(s[i])) == bg, "fill", "%s: element %zu is %llx after filling with %llx", name.c_str(), i, (unsigned long long)V(s[i]), (unsigned long long)bg);
    for (size_t i = 0; i < n; i++) {
      s[i] = V(v);
      for (size_t j = 0; j < n; j++) MC_P("J01", uint64_t(V(s[j])) == (i == j ? v : bg), "write", "%s: element %zu is %llx after writing %llx to element %zu over %llx", name.c_str(), j, (unsigned long long)V(s[j]), (unsigned long long)v, i, (unsigned long long)bg);
      s[i] = V(bg); c.st.transitions++;
    }
    mc::state(mc::h64(mc::h64(bits * 8 + sizeof(block), bg), v)); mc::outcome(mc::h64(bits, v));
  });
}
template <class block, int... I> void elements(std::integer_sequence<int, I...>) { (element<I + 1, block>(), ...); }

// sizes whose number of bits is not representable in single precision
template <int bits> void large() {
  typedef multiBitSet<bits, uint64_t, Counting<uint64_t>> S; typedef typename S::value_t V;
  const uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
  for (size_t base : {size_t(1) << 24, size_t(1) << 25}) for (size_t bitsOff : {0, 1, 2, 3, 63, 64, 65}) {
    const size_t n = (base + bitsOff + bits - 1) / bits;
    if (!mine()) continue;
    mc::once(mc::fmt("large-%d", bits), mc::fmt("n=%zu", n), [&] {
      live = 0;
      { S s(n); s[n - 1] = V(mask); s[0] = V(1);
        MC_P("J01", s.blocks() * 64 >= n * bits && s.capacity() >= n, "capacity", "multiBitSet<%d>(%zu) has %zu blocks", bits, n, s.blocks());
        S t; t.resize(n); t = s; S u(t); u.push_back(V(mask)); u.pop_back(); u.shrink_to_fit(); S w; w.reserve(n); w = u;
        MC_P("J01", uint64_t(V(w[n - 1])) == mask && w.size() == n && uint64_t(V(w[0])) == 1 % (mask ? mask + 1 ? mask + 1 : ~0ull : 1), "large", "multiBitSet<%d> of %zu elements lost its last element", bits, n);
        mc::state(n * 64 + bits); }
      MC_P("J01", live == 0, "leak", "%ld blocks not freed", live);
    });
  }
}

int mc::main_impl() {
  const bool th = thorough();
#if PART == 1
  section("ops", [&] {
    const int d = th ? 5 : 4;
    ops<7, uint64_t>(d); ops<1, uint8_t>(d); ops<3, uint8_t>(d); ops<8, uint8_t>(d); ops<5, uint16_t>(d); ops<13, uint16_t>(d);
    ops<24, uint32_t>(d); ops<32, uint32_t>(d); ops<33, uint64_t>(d); ops<63, uint64_t>(d); ops<64, uint64_t>(d);
  });
  section("large", [] { large<1>(); large<3>(); large<7>(); large<33>(); large<64>(); });
#else
  section("element", [] {
#if PART == 2
    elements<uint8_t>(std::make_integer_sequence<int, 8>()); elements<uint16_t>(std::make_integer_sequence<int, 16>()); elements<uint32_t>(std::make_integer_sequence<int, 32>());
#else
    elements<uint64_t>(std::make_integer_sequence<int, 64>());
#endif
  });
#endif
  return 0;
}
