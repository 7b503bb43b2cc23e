/* HashTable histories against std::map, with colliding keys. */
#include "vh.hpp"
#include "String.h"
#include "Array.h"
#include "HashTable.h"
#include <memory>
using bd::String; using bd::Array; using bd::HashTable; using vh::Rng; using vh::op;
struct Bad { int k = 0; friend bool operator==(const Bad& a, const Bad& b) { return a.k == b.k; } };
namespace std { template <> struct hash<Bad> { size_t operator()(const Bad&) const { return 7; } }; }

template <class K> struct Key;
template <> struct Key<int> { static int mk(int i) { return i % 3 == 1 ? -(i * 131) : i * 131; } static int id(int k) { return k < 0 ? -k / 131 : k / 131; } };
template <> struct Key<Bad> { static Bad mk(int i) { Bad b; b.k = i; return b; } static int id(const Bad& b) { return b.k; } };
/* "ab" and "bA" hash equally, so every combination of the pieces collides */
static std::string ktext(int i) { if (i == 0) return ""; std::string s; int n = i; for (int b = 0; b < 6; ++b) { s += (n & 1) ? "ab" : "bA"; n >>= 1; } if (n & 1) s += std::string("\0z", 2); if (n >= 2) s += std::to_string(n); return s; }
template <> struct Key<String> { static String mk(int i) { std::string t = ktext(i); if (i % 3 == 0) { std::string l = "<<" + t + ">>"; String b(l.data(), l.size()); if (t.empty()) return String(); return b(2, ssize_t(t.size())); } return String(t.data(), t.size()); }
  static int id(const String& s) { static std::map<std::string, int>* m; if (!m) { m = new std::map<std::string, int>; for (int i = 0; i < 31000; ++i) (*m)[ktext(i)] = i; } auto it = m->find(std::string(s)); return it == m->end() ? -1 : it->second; } };
template <> struct Key<Array<int>> { static Array<int> mk(int i) { Array<int> a; do { a.push_back(i % 5); i /= 5; } while (i); return a; } static int id(const Array<int>& a) { int v = 0; for (size_t i = a.length(); i-- > 0;) v = v * 5 + a[i]; return v; } };
template <class V> struct Val;
template <> struct Val<int> { static int mk(int i) { return i; } static int id(int v) { return v; } };
template <> struct Val<String> { static String mk(int i) { if (!i) return String(); std::string s = "v" + std::to_string(i) + std::string(size_t(i % 3) * 15, '-'); return String(s.data(), s.size()); } static int id(const String& s) { std::string t(s); if (t.empty()) return 0; int i = atoi(t.c_str() + 1); return std::string(mk(i)) == t ? i : -1; } };

template <class K, class V> struct Hist {
  typedef HashTable<K, V> T; typedef std::map<int, int> M;
  struct H { std::unique_ptr<T> t; M m; };
  Rng& r; std::vector<H> pool; int universe;
  explicit Hist(Rng& rr) : r(rr), universe(r.below(400) == 0 ? 30000 : r.chance(10) ? 3000 : r.chance(50) ? 6 : 60) { size_t n = 2 + r.below(3); for (size_t i = 0; i < n; ++i) { H h; h.t.reset(r.chance(30) ? new T(size_t(r.below(20) ? r.below(50) : 5000)) : new T); pool.push_back(std::move(h)); } }
  int rk() { return int(r.below(uint64_t(universe))); }
  int rvv() { return int(1 + r.below(30)); }
  K key(int k) { return Key<K>::mk(k); }
  V val(int v) { return Val<V>::mk(v); }
  void verify(const char* what, bool full) {
    for (auto& h : pool) {
      const T& t = *h.t; VH_CHECK(t.size() == h.m.size() && t.isEmpty() == h.m.empty() && bool(t) == !h.m.empty(), "size", "after %s: size %zu expected %zu", what, t.size(), h.m.size());
      if (!full && h.m.size() > 40) continue;
      M seen; size_t n = 0; for (const auto& kv : t) { ++n; int k = Key<K>::id(kv.first); VH_CHECK(!seen.count(k), "iteration", "after %s: key %d visited twice", what, k); seen[k] = Val<V>::id(kv.second); }
      VH_CHECK(n == h.m.size() && seen == h.m, "content", "after %s: the table does not hold exactly the expected pairs (%zu visited, %zu expected)", what, n, h.m.size());
      for (int q = 0; q < 4; ++q) { int k = rk(); K kk(key(k)); auto it = h.m.find(k); bool in = it != h.m.end(); VH_CHECK(t.contains(kk) == in, "lookup", "contains(%d) after %s", k, what); VH_CHECK(Val<V>::id(t.getValue(kk)) == (in ? it->second : 0) && Val<V>::id(t[kk]) == (in ? it->second : 0), "lookup", "value of %d after %s", k, what); auto f = t.find(kk); VH_CHECK((f != t.end()) == in && (!in || (Key<K>::id(f->first) == k && Val<V>::id(f->second) == it->second)), "lookup", "find(%d) after %s", k, what); auto f2 = h.t->find(kk); VH_CHECK((f2 != h.t->end()) == in, "lookup", "find(%d) after %s", k, what); VH_CHECK(t.size() == h.m.size(), "size", "a lookup added a key"); }
    }
  }
  void run() {
    size_t steps = universe > 10000 ? 30000 : universe > 1000 ? 1500 : 30 + r.below(80); uint64_t shape = 0;
    for (size_t s = 0; s < steps; ++s) {
      size_t hi = r.below(pool.size()); H& h = pool[hi]; T& t = *h.t; M& m = h.m; int k = rk(), v = rvv(); K kk(key(k)); V vv(val(v)); int w = int(r.below(universe > 1000 ? 14 : 25)); const char* what = ""; if (universe > 10000 && w == 12 && r.below(300)) w = 0;
      switch (w) {
        case 0: case 1: case 2: case 3: case 4: case 5: { what = "insert"; op("t%zu insert(%d,%d) kind %d", hi, k, v, w & 3); bool fresh = !m.count(k); bool ret; switch (w & 3) { case 0: ret = t.insert(kk, vv); break; case 1: ret = t.insert(key(k), vv); break; case 2: ret = t.insert(kk, val(v)); break; default: ret = t.insert(key(k), val(v)); } VH_CHECK(ret == fresh, "insert", "insert(%d) said %d", k, ret); if (fresh) m[k] = v; break; }
        case 24: { if (m.empty()) break; auto it = t.begin(); std::advance(it, long(r.below(std::min<size_t>(m.size(), 20)))); int k1 = Key<K>::id(it->first), v1 = m[k1]; what = "use of own parts";   /* arguments that are in the table */
          switch (r.below(4)) {
            case 0: op("t%zu remove its own key %d", hi, k1); VH_CHECK(t.remove(it->first), "remove", "remove of the table's own key %d", k1); m.erase(k1); break;
            case 1: { op("t%zu insert(%d, its own value %d)", hi, k, v1); bool fresh = !m.count(k); VH_CHECK(t.insert(kk, it->second) == fresh, "insert", "insert(%d) with an own value", k); if (fresh) m[k] = v1; break; }
            case 2: op("t%zu insert its own key %d", hi, k1); VH_CHECK(!t.insert(it->first, vv), "insert", "insert of the table's own key"); break;
            default: { op("t%zu [own key %d] = %d", hi, k1, v); t[it->first] = vv; m[k1] = v; break; }
          } break; }
        case 6: case 7: case 8: { what = "remove"; op("t%zu remove(%d)", hi, k); bool had = m.erase(k) > 0; VH_CHECK(t.remove(kk) == had, "remove", "remove(%d) said %d", k, !had); break; }
        case 9: case 10: { what = "index assign"; op("t%zu [%d] = %d", hi, k, v); if (w & 1) t[kk] = vv; else t[key(k)] = vv; m[k] = v; break; }
        case 11: { what = "index read"; op("t%zu [%d] read", hi, k); int got = Val<V>::id(t[kk]); auto it = m.find(k); VH_CHECK(got == (it == m.end() ? 0 : it->second), "lookup", "[%d] gave %d", k, got); m[k] = got; break; }
        case 12: { what = "iterator write"; op("t%zu rewrite all values", hi); for (auto& kv : t) { int id = Key<K>::id(kv.first); kv.second = val(id % 29 + 1); } for (auto& kv : m) kv.second = kv.first % 29 + 1; break; }
        case 13: { what = "find write"; op("t%zu write through find(%d)", hi, k); auto it = t.find(kk); if (it != t.end()) { it->second = vv; m[k] = v; } break; }
        case 14: case 15: { size_t o = r.below(pool.size()); what = "copy assign"; op("t%zu = t%zu", hi, o); t = *pool[o].t; m = M(pool[o].m); break; }
        case 16: { size_t o = r.below(pool.size()); what = "copy ctor"; op("t%zu = new(t%zu)", hi, o); h.t.reset(new T(*pool[o].t)); m = M(pool[o].m); break; }
        case 17: { size_t o = r.below(pool.size()); if (o == hi) break; what = "move assign"; op("t%zu = move(t%zu)", hi, o); t = std::move(*pool[o].t); m = pool[o].m; pool[o].m.clear(); pool[o].t->clear(); break; }
        case 18: { size_t o = r.below(pool.size()); if (o == hi) break; what = "move ctor"; op("t%zu = new(move(t%zu))", hi, o); h.t.reset(new T(std::move(*pool[o].t))); m = pool[o].m; pool[o].m.clear(); pool[o].t->clear(); break; }
        case 19: { what = "initializer list"; int k2 = rk(), k3 = rk(), v2 = rvv(), v3 = rvv(); bool as = r.chance(50); op("t%zu %s {%d,%d,%d}", hi, as ? "assign" : "new", k, k2, k3); if (as) t = { { kk, vv }, { key(k2), val(v2) }, { key(k3), val(v3) } }; else h.t.reset(new T{ { kk, vv }, { key(k2), val(v2) }, { key(k3), val(v3) } }); m.clear(); m.insert({ k, v }); m.insert({ k2, v2 }); m.insert({ k3, v3 }); break; }
        case 20: { size_t o = r.below(pool.size()); if (o == hi) break; what = "swap"; op("swap t%zu t%zu", hi, o); swap(t, *pool[o].t); std::swap(m, pool[o].m); break; }
        case 21: { what = "clear"; op("t%zu clear", hi); t.clear(); m.clear(); break; }
        case 22: { what = "self assign"; op("t%zu = itself", hi); T& a = t; t = a; break; }
        default: { what = "remove while copied"; op("t%zu remove(%d) with a copy", hi, k); T c(t); M cm(m); m.erase(k); t.remove(kk); VH_CHECK(c.contains(kk) == (cm.count(k) > 0) && c.size() == cm.size(), "independent", "a copy changed with its source"); c[kk] = vv; VH_CHECK(t.contains(kk) == false, "independent", "the source changed with its copy"); }
      }
      shape = vh::mix(vh::mix(shape, uint64_t(w)), uint64_t(k)); vh::distinct(vh::mix(shape, m.size()));
      verify(what, false); vh::count("steps");
    }
    verify("all steps", true);
  }
};
static void run_case(Rng& r, uint64_t no) {
  switch (r.below(6)) {
    case 0: { Hist<int, String> h(r); h.run(); break; }
    case 1: { Hist<Bad, int> h(r); if (h.universe > 1000) h.universe = 300; h.run(); break; }
    case 2: { Hist<Array<int>, String> h(r); h.run(); break; }
    case 3: { Hist<String, int> h(r); h.run(); break; }
    default: { Hist<String, String> h(r); h.run(); }
  }
#ifdef HAVE_LSAN
  if (no % 512 == 511) { VH_CHECK(__lsan_do_recoverable_leak_check() == 0, "leak", "LeakSanitizer found a leak"); }
#else
  (void)no;
#endif
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
