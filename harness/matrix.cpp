// J02: SimpleMatrix classes hold, copy, move and convert their elements exactly.
#include <cstring>
#include <cassert>
#include <HeuristicFlow/SimpleMatrix>
using namespace heu;
using std::string; using std::vector;
static long live = 0, storage = 0;   // constructed elements and allocated places
// element that knows whether it lives: a use of a dead or unconstructed object, a second destruction and a leak are all seen
struct Tracked {
  static constexpr uint32_t MAGIC = 0x5EEDFACE;
  uint32_t magic; int *heap;
  Tracked() : magic(MAGIC), heap(new int(0)) { live++; }
  Tracked(int v) : magic(MAGIC), heap(new int(v)) { live++; }
  Tracked(const Tracked &o) : magic(MAGIC), heap(new int(o.get())) { live++; }
  Tracked &operator=(const Tracked &o) { const int v = o.get(); need(); *heap = v; return *this; }
  ~Tracked() { need(); delete heap; magic = 0xDEAD; heap = nullptr; live--; }
  void need() const { if (magic != MAGIC) mc::finish_abnormal("an element that is not constructed is used or destroyed"); }
  int get() const { need(); return *heap; }
};
struct Big { long a[5]; };    // larger than the pass-by-value limit of fill()
static int val(const Tracked &t) { return t.get(); }
static int val(int t) { return t; }
static int val(double t) { return int(t); }
static int val(const Big &b) { for (int i = 1; i < 5; i++) if (b.a[i] != b.a[0] + i) return -12345; return int(b.a[0]); }
static int val(const string &s) { return s.empty() ? 0 : atoi(s.c_str() + 40); }
template <class T> struct Make { static T of(int v) { return T(v); } };
template <> struct Make<Big> { static Big of(int v) { return Big{{v, v + 1L, v + 2L, v + 3L, v + 4L}}; } };
template <> struct Make<string> { static string of(int v) { return string(40, 'x') + std::to_string(v); } };
template <class T> struct Counting {
  using value_type = T;
  Counting() = default; template <class U> Counting(const Counting<U> &) {}
  T *allocate(size_t n) { storage += n; return std::allocator<T>().allocate(n); }
  void deallocate(T *p, size_t n) { storage -= n; std::allocator<T>().deallocate(p, n); }
};
static bool mine() { static int slot = 0; auto &c = mc::ctx(); return c.replaying || slot++ % c.nranks == c.rank; }
struct Ref { int v; bool known; };
struct Model { int r = 0, c = 0; vector<Ref> e; void shape(int R, int C) { r = R; c = C; } };
static void setAll(Model &m, int v) { for (auto &x : m.e) x = {v, true}; }

template <class M> void compare(const char *name, M &m, const Model &x, const char *op) {
  if (mc::ctx().prop != "J02") return;
  mc::stats().checks++;
  const M &cm = m; const int n = x.r * x.c;
  if (int(cm.rows()) != x.r || int(cm.cols()) != x.c || int(cm.size()) != n) { mc::violation("shape", mc::fmt("%s: after %s the shape is %d x %d (%d), expected %d x %d", name, op, int(cm.rows()), int(cm.cols()), int(cm.size()), x.r, x.c)); return; }
  for (int c = 0; c < x.c; c++) for (int r = 0; r < x.r; r++) {
    const int i = c * x.r + r;
    if (&cm(r, c) != &cm(i) || &cm[i] != &cm(i) || &m(r, c) != &m(i) || &m[i] != &m(i) || &m(i) != m.data() + i || &cm(i) != cm.data() + i) { mc::violation("layout", mc::fmt("%s: after %s element (%d,%d) is not element %d in column-major order", name, op, r, c, i)); return; }
    if (x.e[i].known && val(cm(r, c)) != x.e[i].v) { mc::violation("element", mc::fmt("%s: after %s element (%d,%d) of %d x %d is %d, expected %d", name, op, r, c, x.r, x.c, val(cm(r, c)), x.e[i].v)); return; }
  }
  int k = 0; for (auto &e : m) { if (&e != m.data() + k) mc::violation("iterate", mc::fmt("%s: iteration order", name)); k++; }
  if (k != n) mc::violation("iterate", mc::fmt("%s: iteration visited %d of %d elements", name, k, n));
}
template <class M> void settle(M &m, Model &x) { for (size_t i = 0; i < x.e.size(); i++) if (!x.e[i].known) { m[i] = Make<typename M::Scalar_t>::of(77 + int(i)); x.e[i] = {77 + int(i), true}; } }   // every element is a usable object

template <class T> void ops(const char *tn, int depth) {
  typedef MatrixDynamicSize<T, Counting<T>> D; typedef MatrixFixedSize<T, 2, 3> F; typedef MatrixMap<T> P;
  const string name = mc::fmt("MatrixDynamicSize<%s>", tn);
  auto &c = mc::ctx(); c.max_dev = 1 << 30; c.horizon = 64;
  auto mk = Make<T>::of;
  const vector<std::pair<int, int>> starts{{-1, -1}, {0, 0}, {2, 3}, {1, 1}, {4, 0}, {3, 3}};
  for (auto &st : starts) {
    if (!mine()) continue;
    mc::explore("ops-" + name, mc::fmt("start=%dx%d depth=%d", st.first, st.second, depth), [&] {
      live = storage = 0;
      {
        D dflt, sized(std::max(0, st.first), std::max(0, st.second)); D &A = st.first < 0 ? dflt : sized; Model a; a.shape(std::max(0, st.first), std::max(0, st.second)); a.e.assign(a.r * a.c, Ref{0, false});
        D B(3, 2); Model b; b.shape(3, 2); b.e.assign(6, Ref{0, false});
        F X; Model x; x.shape(2, 3); x.e.assign(6, Ref{0, false});
        vector<T> buf(64, mk(-5)); P Q(buf.data(), 3, 2); Model q; q.shape(3, 2); q.e.assign(6, Ref{-5, true});
        int next = 10;
        compare(name.c_str(), A, a, "construction"); settle(A, a); settle(B, b); settle(X, x);
        auto resized = [&](int r, int cc) { const bool same = r * cc == a.r * a.c; a.shape(r, cc); if (!same) { a.e.assign(r * cc, Ref{0, false}); } };
        c.active = true;
        for (int step = 0; step < depth; step++) {
          const char *op = "?"; const int n = a.r * a.c;
          const int o = mc::choose(n ? 21 : 18);
          switch (o) {
            case 0: op = "resize(2,3)"; A.resize(2, 3); resized(2, 3); break;
            case 1: op = "resize(3,2)"; A.resize(3, 2); resized(3, 2); break;
            case 2: op = "resize(1,1)"; A.resize(1, 1); resized(1, 1); break;
            case 3: op = "resize(4,3)"; A.resize(4, 3); resized(4, 3); break;
            case 4: op = "resize(0,0)"; A.resize(0, 0); resized(0, 0); break;
            case 5: { op = "reserve"; const int cap = A.capacity(); A.reserve(cap + 2); MC_P("J02", A.capacity() >= cap + 2, "reserve", "%s: reserve(%d) gave capacity %d", name.c_str(), cap + 2, A.capacity()); break; }
            case 6: { op = "reserve less"; const int cap = A.capacity(); A.reserve(cap / 2); MC_P("J02", A.capacity() == cap, "reserve", "%s: reserve(%d) changed the capacity %d to %d", name.c_str(), cap / 2, cap, A.capacity()); break; }
            case 7: op = "fill"; A.fill(mk(++next)); setAll(a, next); break;
            case 8: op = "copy from another"; A = B; a = b; break;
            case 9: op = "copy to another"; B = A; b = a; break;
            case 10: { op = "copy construction"; D C(A); Model m = a; if (n) { A[0] = mk(++next); a.e[0] = {next, true}; } compare(name.c_str(), C, m, "copy construction"); break; }
            case 11: { op = "move construction"; const T *p = A.data(); D C(std::move(A)); compare(name.c_str(), C, a, "move construction"); MC_P("J02", C.data() == p, "moved", "%s: a move copied the elements", name.c_str()); Model none; compare(name.c_str(), A, none, "being moved from"); D &ref = (A = std::move(C)); MC_P("J02", &ref == &A, "ref", "%s: move assignment returned another object", name.c_str()); compare(name.c_str(), C, none, "being moved from"); break; }
            case 12: { op = "move from another"; A = std::move(B); a = b; b = Model(); B.resize(1, 2); b.shape(1, 2); b.e.assign(2, Ref{0, false}); settle(B, b); break; }
            case 13: op = "copy from a fixed matrix"; A = X; a = x; break;
            case 14: op = "copy from a map"; A = Q; a = q; break;
            case 15: op = "copy to a map"; Q = A; q = a; break;
            case 16: op = "fill the fixed matrix"; X.fill(mk(++next)); setAll(x, next); X(1, 2) = mk(++next); x.e[5] = {next, true}; break;
            case 17: op = "self assignment"; { D &r = A; A = r; A = std::move(r); } break;
            case 18: op = "write (r,c)"; A(a.r - 1, a.c - 1) = mk(++next); a.e[n - 1] = {next, true}; break;
            case 19: op = "write (0,c)"; A(0, a.c - 1) = mk(++next); a.e[(a.c - 1) * a.r] = {next, true}; break;
            case 20: op = "copy to a fixed matrix"; if (a.r == 2 && a.c == 3) { X = A; x = a; } else A[n / 2] = mk(++next), a.e[n / 2] = {next, true}; break;
          }
          compare(name.c_str(), A, a, op); compare(name.c_str(), B, b, "an operation on another matrix"); compare("MatrixFixedSize", X, x, op); compare("MatrixMap", Q, q, op);
          MC_P("J02", A.capacity() >= a.r * a.c && A.capacity() >= 0, "capacity", "%s: capacity %d for %d elements after %s", name.c_str(), A.capacity(), a.r * a.c, op);
          settle(A, a); settle(B, b);
          uint64_t h = mc::h64(mc::h64(A.capacity(), a.r), a.c); for (auto &r : a.e) h = mc::h64(h, r.v); mc::state(h);
        }
        if (c.st.executions % 20011 == 5) mc::sample(mc::fmt("%s start %dx%d ops %s -> %dx%d", name.c_str(), st.first, st.second, mc::trail_str().c_str(), a.r, a.c));
        uint64_t h = mc::h64(a.r, a.c); for (auto &r : a.e) h = mc::h64(h, r.v); mc::outcome(h);
        c.active = false;
      }
      MC_P("J02", live == 0 && storage == 0, "leak", "%s: %ld elements alive and %ld places allocated at the end", name.c_str(), live, storage);
    });
  }
}
// fixed matrices and maps of every small shape: element addressing, copies, conversions
template <class T, size_t R, size_t C> void fixed(const char *tn) {
  if (!mine()) return;
  typedef MatrixFixedSize<T, R, C> F; typedef MatrixDynamicSize<T> D; auto mk = Make<T>::of;
  mc::once(mc::fmt("fixed<%s,%zu,%zu>", tn, R, C), "", [&] {
    live = 0;
    {
      F x; Model m; m.shape(R, C); m.e.assign(R * C, Ref{0, false});
      for (size_t c = 0; c < C; c++) for (size_t r = 0; r < R; r++) { x(r, c) = mk(int(10 * r + c)); m.e[c * R + r] = {int(10 * r + c), true}; }
      compare("MatrixFixedSize", x, m, "writing every element");
      F y(x), z; z = y; D d; d = z; D e(d); F w; w = e; x.fill(mk(3));
      compare("MatrixFixedSize", y, m, "copy construction"); compare("MatrixFixedSize", z, m, "copy assignment"); compare("MatrixDynamicSize", d, m, "conversion"); compare("MatrixFixedSize", w, m, "conversion back");
      vector<T> buf(R * C + 1, mk(-1)); MatrixMap<T> q(buf.data(), R, C); q = y; compare("MatrixMap", q, m, "conversion"); MC_P("J02", val(buf[R * C]) == -1, "overrun", "a map wrote behind its elements");
      MatrixMap<T> shallow(q); if (R * C) { shallow(R - 1, C - 1) = mk(99); MC_P("J02", val(q(R - 1, C - 1)) == 99 && shallow.data() == q.data(), "map", "copying a map is not shallow"); shallow[R * C - 1] = mk(m.e[R * C - 1].v); }
      vector<T> buf2(R * C, mk(-2)); MatrixMap<T> p(buf2.data(), R, C); q.deepCopyTo(&p); compare("MatrixMap", p, m, "deep copy"); p.fill(mk(5)); compare("MatrixMap", q, m, "writing to a deep copy");
      p = q; compare("MatrixMap", p, m, "assignment of maps"); F v; v = q; compare("MatrixFixedSize", v, m, "conversion from a map"); D g; g = q; compare("MatrixDynamicSize", g, m, "conversion from a map");
      int k = 0; for (auto it = q.cbegin(); it != q.cend(); ++it, k++) MC_P("J02", it == q.data() + k, "citerate", "iteration over a map"); MC_P("J02", k == int(R * C), "citerate", "iteration over a map visited %d elements", k);
      x.resize(R, C); setAll(m, 3); compare("MatrixFixedSize", x, m, "fill and resize to its own size");
      mc::state(R * 100 + C); mc::outcome(R * 100 + C); mc::stats().transitions += R * C;
    }
    MC_P("J02", live == 0, "leak", "%ld elements alive at the end", live);
  });
}
template <class T> void fixeds(const char *n) {
  fixed<T, 1, 1>(n); fixed<T, 1, 4>(n); fixed<T, 4, 1>(n); fixed<T, 2, 3>(n); fixed<T, 3, 2>(n); fixed<T, 3, 3>(n); fixed<T, 5, 2>(n);
}
int mc::main_impl() {
  const int d = thorough() ? 5 : 4;
  section("ops", [&] { ops<Tracked>("class", d); ops<int>("int", d); ops<string>("string", d - 1); ops<double>("double", d - 1); ops<Big>("struct", d - 1); });
  section("fixed", [] { fixeds<Tracked>("class"); fixeds<string>("string"); fixeds<int>("int"); fixeds<Big>("struct"); });
  return 0;
}
