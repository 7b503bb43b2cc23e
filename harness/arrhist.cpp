/* Random histories over pools of bd::Array<E> handles for several element
 * types E, each handle with a reference std::vector of integers (the element
 * identities).  E includes a tracked class that registers every construction
 * and destruction.  After every step every handle is compared. */
#include "vh.hpp"
#include "String.h"
#include "Array.h"
#include "HashTable.h"
#include <list>
#include <memory>
#include <string>
using bd::String; using bd::Array; using bd::HashTable;
using vh::Rng; using vh::op;

/* an element class that knows whether it is alive */
struct Tracked {
  static std::unordered_set<const void*>& live() { static auto* s = new std::unordered_set<const void*>; return *s; }
  static uint64_t made, gone;
  int* v;
  static void born(const Tracked* t, const char* how) { ++made; if (!live().insert(t).second) vh::fail("lifetime", "element %s over a live element", how); }
  void chk(const char* how) const { ++vh::S().evals; if (!live().count(this)) vh::fail("lifetime", "%s on an element that is not alive", how); }
  Tracked() : v(new int(-1)) { born(this, "constructed"); }
  explicit Tracked(int x) : v(new int(x)) { born(this, "constructed"); }
  Tracked(const Tracked& o) : v(nullptr) { o.chk("copy from"); v = new int(o.v ? *o.v : -7); born(this, "copy-constructed"); }
  Tracked(Tracked&& o) noexcept : v(nullptr) { o.chk("move from"); v = o.v; o.v = nullptr; born(this, "move-constructed"); }
  Tracked& operator=(const Tracked& o) { chk("assignment"); o.chk("assignment from"); if (this != &o) { int* n = new int(o.v ? *o.v : -7); delete v; v = n; } return *this; }
  Tracked& operator=(Tracked&& o) noexcept { chk("move assignment"); o.chk("move assignment from"); if (this != &o) { delete v; v = o.v; o.v = nullptr; } return *this; }
  ~Tracked() { ++gone; if (!live().erase(this)) vh::fail("lifetime", "destruction of an element that is not alive"); delete v; v = nullptr; }
  int get() const { chk("read"); return v ? *v : -7; }
  friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
  friend bool operator!=(const Tracked& a, const Tracked& b) { return a.get() != b.get(); }
};
uint64_t Tracked::made, Tracked::gone;
namespace std { template <> struct hash<Tracked> { size_t operator()(const Tracked& t) const { return size_t(t.get()) * 31 + 5; } }; }

template <class E> struct El;
template <> struct El<int> { static const char* name() { return "int"; } static int mk(int i) { return i; } static int val(const int& e) { return e; } static int cmpk(int i) { return i; } };
template <> struct El<Tracked> { static const char* name() { return "Tracked"; } static Tracked mk(int i) { return Tracked(i); } static int val(const Tracked& e) { return e.get(); } };
template <> struct El<String> {
  static const char* name() { return "String"; }
  /* a handful of texts, several per identity share one buffer with the table */
  static String mk(int i) { static std::vector<String>* tab; if (!tab) { tab = new std::vector<String>; for (int k = 0; k < 64; ++k) { std::string t = "e" + std::to_string(k) + std::string(size_t(k % 5) * 7, char('a' + k % 26)); tab->push_back(String(t.data(), t.size())); } } return (*tab)[size_t(i)]; }
  static int val(const String& e) { std::string s(e); if (s.size() < 2 || s[0] != 'e') return -9; char* end; long k = strtol(s.c_str() + 1, &end, 10); std::string t = "e" + std::to_string(k) + std::string(size_t(k % 5) * 7, char('a' + k % 26)); return t == s ? int(k) : -9; }
};
template <> struct El<Array<int>> {
  static const char* name() { return "Array<int>"; }
  static Array<int> mk(int i) { Array<int> a; for (int k = 0; k <= i % 4; ++k) a.push_back(i + k); return a; }
  static int val(const Array<int>& e) { if (e.isEmpty()) return -9; int i = e[0]; if (e.length() != size_t(i % 4 + 1)) return -9; for (size_t k = 0; k < e.length(); ++k) if (e[k] != i + int(k)) return -9; return i; }
};
static std::string showv(const std::vector<int>& v) { std::string r = "["; size_t n = 0; for (int x : v) { if (n++ > 20) { r += "..."; break; } r += std::to_string(x) + " "; } return r + "]"; }
template <class E> static std::vector<int> vals(const Array<E>& a) { std::vector<int> r; for (size_t i = 0; i < a.length(); ++i) r.push_back(El<E>::val(a[i])); return r; }

static std::vector<int> mslice(const std::vector<int>& m, ssize_t start, ssize_t len) {
  __int128 L = m.size(), s = start, n = len;
  if (s >= L) return {};
  if (s < 0) s = s + L < 0 ? 0 : s + L;
  __int128 avail = L - s;
  if (len == -1 || n > avail) n = avail;
  else if (n < 0) { n = avail + n; if (n < 0) n = 0; }
  return std::vector<int>(m.begin() + long(s), m.begin() + long(s + n));
}
/* prefix ++ and += item do not exist for Array<int> (ambiguous) */
template <class E> static void preinc(Array<E>& a) { ++a; }
template <> void preinc(Array<int>& a) { a++; }
template <class E> static void drop(Array<E>& a, int n) { a += n; }
template <> void drop(Array<int>& a, int n) { if (n > int(a.length())) n = int(a.length()); a.slice(n); }
template <class E> static void addop(Array<E>& a, const E& e) { a += e; }
template <> void addop(Array<int>& a, const int& e) { a << e; }
template <class E> static void sortish(Array<E>& a, std::vector<int>& m) { std::reverse(a.begin(), a.end()); std::reverse(m.begin(), m.end()); }
template <> void sortish(Array<int>& a, std::vector<int>& m) { std::sort(a.begin(), a.end()); std::sort(m.begin(), m.end()); }
template <class E> static void touch(Array<E>&, size_t, std::vector<int>&, int) {}
/* edit an element in place through the array */
template <> void touch(Array<String>& a, size_t p, std::vector<int>& m, int nv) { String& e = a[p].mget(); e.clear(); String t(El<String>::mk(nv)); e += t; m[p] = nv; }
template <> void touch(Array<Array<int>>& a, size_t p, std::vector<int>& m, int nv) { Array<int>& e = a.read(p); e.clear(); e += El<Array<int>>::mk(nv); m[p] = nv; }
template <class E> static void joins(const Array<E>&, const std::vector<int>&, Rng&) {}
template <> void joins(const Array<String>& a, const std::vector<int>& m, Rng& r) {
  std::string d(r.below(4), ','); bool q = r.chance(30); std::string w;
  for (size_t i = 0; i < m.size(); ++i) { if (i) w += d; std::string e(El<String>::mk(m[i])); w += q ? "\"" + e + "\"" : e; }
  String j(a.join(String(d.data(), d.size()), q)); VH_CHECK(std::string(j) == w, "join", "join of %s with %s%s is %s expected %s", showv(m).c_str(), vh::show(d).c_str(), q ? " quoted" : "", vh::show(std::string(j)).c_str(), vh::show(w).c_str());
  if (!q && d.size() == 1) { Array<String> back(j.split(String(d.data(), 1))); VH_CHECK(vals(back) == m, "join", "split(join) of %s", showv(m).c_str()); }
}
template <class E> static bool ctor_carray(std::unique_ptr<Array<E>>&, std::vector<int>&, Rng&) { return false; }
template <> bool ctor_carray(std::unique_ptr<Array<int>>& a, std::vector<int>& m, Rng& r) { std::vector<int> z; for (size_t n = r.below(12); n; --n) z.push_back(int(1 + r.below(60))); if (r.chance(10)) { m.clear(); const int* no = nullptr; a.reset(new Array<int>(no)); return true; } m = z; z.push_back(0); z.shrink_to_fit(); a.reset(new Array<int>(z.data())); return true; }

template <class E> struct Hist {
  typedef Array<E> A;
  struct H { std::unique_ptr<A> a; std::vector<int> m; };
  Rng& r; std::vector<H> pool; size_t n; bool big; size_t top;   // a few histories work on very long arrays
  explicit Hist(Rng& rr) : r(rr), n(2 + rr.below(4)), big(rr.below(250) == 0), top(big ? 40000 : 400) { for (size_t i = 0; i < n; ++i) { H h; h.a.reset(new A); pool.push_back(std::move(h)); } }
  int rv() { return int(r.below(r.chance(50) ? 5 : 60)); }
  std::vector<int> rvec(size_t cap = 10) { std::vector<int> v; size_t k = big && r.chance(25) ? r.below(6000) : r.chance(5) ? r.below(80) : r.below(cap); while (k--) v.push_back(rv()); return v; }
  static std::vector<E> mkv(const std::vector<int>& v) { std::vector<E> o; for (int x : v) o.push_back(El<E>::mk(x)); return o; }
  A mk(const std::vector<int>& v) { A a; for (int x : v) a.push_back(El<E>::mk(x)); return a; }
  size_t rpos(size_t len, unsigned bad = 12) {
    if (r.chance(bad)) switch (r.below(4)) { case 0: return len + 1; case 1: return size_t(-1) - r.below(3); case 2: return len + 2 + r.below(30); default: return size_t(1) << (31 + r.below(33)); }
    switch (r.below(5)) { case 0: return 0; case 1: return len; case 2: return len ? len - 1 : 0; default: return r.below(len + 1); }
  }
  ssize_t rsigned(size_t len) {
    ssize_t L = ssize_t(len);
    switch (r.below(10)) { case 0: return 0; case 1: return L; case 2: return -L; case 3: return L + 1 + ssize_t(r.below(4)); case 4: return -L - 1 - ssize_t(r.below(4)); case 5: return -1;
      case 6: { static const ssize_t z[] = { SSIZE_MAX, -SSIZE_MAX - 1, INT32_MAX, INT32_MIN, SSIZE_MAX - 3, -SSIZE_MAX + 3, ssize_t(1) << 32, -(ssize_t(1) << 32) }; return z[r.below(8)]; }
      default: return r.range(-L - 2, L + 2); }
  }
  void verify(const char* what) {
    for (size_t i = 0; i < pool.size(); ++i) {
      const A& a = *pool[i].a; const auto& m = pool[i].m;
      VH_CHECK(a.length() == m.size() && a.size() == m.size() && a.isEmpty() == m.empty() && bool(a) == !m.empty() && !a == m.empty(), "content", "%s handle %zu after %s: length %zu, expected %s", El<E>::name(), i, what, a.length(), showv(m).c_str());
      for (size_t k = 0; k < m.size(); ++k) VH_CHECK(El<E>::val(a[k]) == m[k], "content", "%s handle %zu after %s: element %zu is %d, have %s expected %s", El<E>::name(), i, what, k, El<E>::val(a[k]), showv(vals(a)).c_str(), showv(m).c_str());
    }
  }
  template <class F> bool guarded(bool bad, const char* what, F f) {
    bool threw = false;
    try { f(); } catch (const std::out_of_range&) { threw = true; }
    VH_CHECK(threw == bad, bad ? "range-accepted" : "range-rejected", "%s %s", what, threw ? "threw out_of_range for a valid position" : "accepted an invalid position");
    if (bad) { vh::count("rejected"); verify(what); }
    return !threw;
  }
  struct Src { A a; std::vector<int> m; };
  Src rsrc() {
    switch (r.below(4)) {
      case 0: { H& o = r.pick(pool); return { A(*o.a), o.m }; }
      case 1: { H& o = r.pick(pool); ssize_t x = rsigned(o.m.size()), y = rsigned(o.m.size()); return { o.a->subarray(x, y), mslice(o.m, x, y) }; }
      default: { auto v = rvec(); return { mk(v), v }; }
    }
  }
  void chk_hash(const H& h) {
    const A& a = *h.a; A f(mk(h.m)); size_t x = a.hash();
    VH_CHECK(x == f.hash() && std::hash<A>()(a) == x && a.hash() == x, "hash", "hash of %s differs from that of an equal new array", showv(h.m).c_str());
  }
  void observe(H& h) {
    const A& a = *h.a; auto& m = h.m;
    switch (r.below(7)) {
      case 0: { std::vector<int> x; for (const auto& e : a) x.push_back(El<E>::val(e)); VH_CHECK(x == m, "iter", "iteration"); x.clear(); for (auto it = a.rbegin(); it != a.rend(); ++it) x.push_back(El<E>::val(*it)); std::reverse(x.begin(), x.end()); VH_CHECK(x == m, "iter", "reverse iteration"); break; }
      case 1: { std::vector<int> x; for (auto& e : *h.a) x.push_back(El<E>::val(e)); VH_CHECK(x == m, "iter", "mutable iteration"); break; }
      case 2: { for (size_t i = 0; i < m.size(); ++i) VH_CHECK(El<E>::val(a.at(i)) == m[i] && El<E>::val(a.read(i)) == m[i] && El<E>::val((*h.a)[i].get()) == m[i], "index", "index %zu", i); if (m.size()) VH_CHECK(El<E>::val(a.front()) == m.front() && El<E>::val(a.back()) == m.back(), "index", "front/back"); break; }
      case 3: { int v = rv(); E e(El<E>::mk(v)); auto it = std::find(m.begin(), m.end(), v); VH_CHECK(a.find(e) == (it == m.end() ? A::npos : size_t(it - m.begin())), "find", "find(%d) in %s is %zd", v, showv(m).c_str(), ssize_t(a.find(e)));
        auto ri = std::find(m.rbegin(), m.rend(), v); VH_CHECK(a.rfind(e) == (ri == m.rend() ? A::npos : m.size() - 1 - size_t(ri - m.rbegin())), "rfind", "rfind(%d) in %s is %zd", v, showv(m).c_str(), ssize_t(a.rfind(e)));
        size_t p = rpos(m.size()), res = 0; if (guarded(p > m.size(), "find(item,pos)", [&] { res = a.find(e, p); asm volatile("" : : "r"(res) : "memory"); })) { auto i2 = std::find(m.begin() + long(p), m.end(), v); VH_CHECK(res == (i2 == m.end() ? A::npos : size_t(i2 - m.begin()) - p), "find", "find(%d,%zu) in %s is %zd", v, p, showv(m).c_str(), ssize_t(res)); } break; }
      case 4: { for (auto& o : pool) { bool eq = o.m == m; VH_CHECK((a == *o.a) == eq && (a != *o.a) == !eq && a.equals(*o.a) == eq, "equal", "equality of %s and %s", showv(m).c_str(), showv(o.m).c_str()); if (eq) VH_CHECK(a.hash() == o.a->hash(), "hash", "equal arrays hash differently: %s", showv(m).c_str()); }
        std::vector<int> x = m; if (x.size()) x[r.below(x.size())] = rv(); A b(mk(x)); VH_CHECK((a == b) == (x == m), "equal", "equality of %s and %s", showv(m).c_str(), showv(x).c_str()); size_t k = r.below(m.size() + 2); bool pe = std::equal(m.begin(), m.begin() + long(std::min(k, m.size())), x.begin()); VH_CHECK(a.equals(b, k) == pe, "equal", "equals(%zu) of %s and %s", k, showv(m).c_str(), showv(x).c_str()); break; }
      case 5: chk_hash(h); break;
      default: joins(a, m, r);
    }
  }
  static const int NK = 52;
  void step(int k, size_t hi) {
    H& h = pool[hi]; A& a = *h.a; auto& m = h.m;
    switch (k) {
      case 0: { auto v = rvec(); op("h%zu = new(range %s)", hi, showv(v).c_str()); auto ev = mkv(v); if (r.chance(50)) h.a.reset(new A(ev.begin(), ev.end())); else { std::list<E> l(ev.begin(), ev.end()); h.a.reset(new A(l.begin(), l.end())); } m = v; break; }
      case 1: { auto v = rvec(); op("h%zu = new(carray %s)", hi, showv(v).c_str()); auto ev = mkv(v); h.a.reset(new A(ev.data(), ev.size())); m = v; break; }
      case 2: { size_t c = r.below(big ? 9000 : 20); op("h%zu = new(capacity %zu)", hi, c); h.a.reset(new A(c)); m.clear(); VH_CHECK(h.a->capacity() >= c, "capacity", "capacity"); break; }
      case 3: { size_t c = r.below(big ? 9000 : 20); int v = rv(); op("h%zu = new(%zu x %d)", hi, c, v); h.a.reset(new A(c, El<E>::mk(v))); m.assign(c, v); break; }
      case 4: { int x = rv(), y = rv(), z = rv(); int c = int(r.below(3)); bool as = r.chance(50); op("h%zu %s list of %d", hi, as ? "assign" : "new", c + 1); E ex(El<E>::mk(x)), ey(El<E>::mk(y)), ez(El<E>::mk(z));
        if (as) { if (c == 0) a = { ex }; else if (c == 1) a = { ex, ey }; else a = { ex, ey, ez }; } else h.a.reset(c == 0 ? new A(std::initializer_list<E>{ ex }) : c == 1 ? new A({ ex, ey }) : new A({ ex, ey, ez }));
        m = { x, y, z }; m.resize(size_t(c) + 1); break; }
      case 5: { if (r.chance(40) && ctor_carray(h.a, m, r)) { op("h%zu = new(terminated carray) %s", hi, showv(m).c_str()); break; } op("h%zu = new", hi); h.a.reset(new A); m.clear(); break; }
      case 6: { size_t o = r.below(n); op("h%zu = h%zu", hi, o); a = *pool[o].a; m = std::vector<int>(pool[o].m); break; }
      case 7: { size_t o = r.below(n); op("h%zu = new(h%zu)", hi, o); h.a.reset(new A(*pool[o].a)); m = std::vector<int>(pool[o].m); break; }
      case 8: { size_t o = r.below(n); if (o == hi) { op("h%zu = move(itself)", hi); A& same = a; a = std::move(same); break; } op("h%zu = move(h%zu)", hi, o); a = std::move(*pool[o].a); m = pool[o].m; pool[o].m.clear(); break; }
      case 9: { size_t o = r.below(n); if (o == hi) break; op("h%zu = new(move(h%zu))", hi, o); h.a.reset(new A(std::move(*pool[o].a))); m = pool[o].m; pool[o].m.clear(); break; }
      case 10: { size_t o = r.below(n); if (o == hi) break; op("swap h%zu h%zu", hi, o); std::swap(a, *pool[o].a); std::swap(m, pool[o].m); break; }
      case 11: { H& o = r.pick(pool); ssize_t x = rsigned(o.m.size()), y = rsigned(o.m.size()); op("h%zu = subarray(%zd,%zd)", hi, x, y); auto nm = mslice(o.m, x, y); a = o.a->subarray(x, y); m = nm; break; }
      case 12: case 13: { int v = rv(); op("h%zu push_back %d", hi, v); E e(El<E>::mk(v)); switch (r.below(6)) { case 0: a.push_back(e); break; case 1: a.push_back(std::move(e)); break; case 2: a << e; break; case 3: a << El<E>::mk(v); break; case 4: addop(a, e); break; default: a.append(e); } m.push_back(v); break; }
      case 14: { int v = rv(); op("h%zu push_front %d", hi, v); E e(El<E>::mk(v)); if (r.chance(50)) a.push_front(e); else a.push_front(std::move(e)); m.insert(m.begin(), v); break; }
      case 15: case 16: { if (m.empty()) break; op("h%zu pop", hi); E e(a.pop()); VH_CHECK(El<E>::val(e) == m.back(), "pop", "pop of %s gave %d", showv(m).c_str(), El<E>::val(e)); m.pop_back(); break; }
      case 17: case 18: { if (m.empty()) break; op("h%zu shift", hi); E e(a.shift()); VH_CHECK(El<E>::val(e) == m.front(), "shift", "shift of %s gave %d", showv(m).c_str(), El<E>::val(e)); m.erase(m.begin()); break; }
      case 19: { if (m.empty()) break; op("h%zu >> item", hi); E e(El<E>::mk(0)); a >> e; VH_CHECK(El<E>::val(e) == m.back(), "pop", ">> of %s gave %d", showv(m).c_str(), El<E>::val(e)); m.pop_back(); break; }
      case 20: { if (m.empty()) break; int w = int(r.below(4)); op("h%zu rvalue pop/shift kind %d of a copy", hi, w); A c(a); switch (w) { case 0: { E e(std::move(c).pop()); VH_CHECK(El<E>::val(e) == m.back(), "pop", "rvalue pop"); break; } case 1: { E e(std::move(c).shift()); VH_CHECK(El<E>::val(e) == m.front(), "shift", "rvalue shift"); break; } case 2: { E e(A(a).pop()); VH_CHECK(El<E>::val(e) == m.back(), "pop", "rvalue pop"); break; } default: { A t(mk(m)); E e(std::move(t).shift()); VH_CHECK(El<E>::val(e) == m.front(), "shift", "rvalue shift of an unshared array"); } } break; }
      case 21: { if (m.empty()) break; int w = int(r.below(7)); op("h%zu incdec %d", hi, w); switch (w) { case 5: { A c(a); A t(std::move(c)++); VH_CHECK(vals(t) == std::vector<int>(1, m.front()), "shift", "post-increment of a temporary gave %s", showv(vals(t)).c_str()); break; } case 6: { A t(A(a)--); VH_CHECK(vals(t) == std::vector<int>(1, m.back()), "pop", "post-decrement of a temporary gave %s", showv(vals(t)).c_str()); break; } case 0: preinc(a); m.erase(m.begin()); break; case 1: { A t(a++); VH_CHECK(vals(t) == std::vector<int>(1, m.front()), "shift", "post-increment gave %s", showv(vals(t)).c_str()); m.erase(m.begin()); break; } case 2: --a; m.pop_back(); break; case 3: { A t(a--); VH_CHECK(vals(t) == std::vector<int>(1, m.back()), "pop", "post-decrement gave %s", showv(vals(t)).c_str()); m.pop_back(); break; } default: a.pop_back(); m.pop_back(); } break; }
      case 22: { int c = int(r.below(m.size() + 3)); op("h%zu += %d", hi, c); drop(a, c); m.erase(m.begin(), m.begin() + std::min<long>(c, long(m.size()))); break; }
      case 23: { int c = int(r.below(m.size() + 3)); op("h%zu -= %d", hi, c); a -= c; m.resize(m.size() - std::min(size_t(c), m.size())); break; }
      case 24: case 25: { size_t p = rpos(m.size()); int v = rv(); op("h%zu insert(%zu, %d)", hi, p, v); E e(El<E>::mk(v)); if (guarded(p > m.size(), "insert(pos,item)", [&] { if (v & 1) a.insert(p, e); else a.insert(p, std::move(e)); })) m.insert(m.begin() + long(p), v); break; }
      case 26: { if (m.empty()) break; size_t p = r.below(m.size() + 1), q = r.below(m.size()); int w = int(r.below(5)); op("h%zu insert own element %zu at %zu kind %d", hi, q, p, w); const A& ca = a; int v = m[q]; switch (w) { case 0: a.insert(p, ca[q]); break; case 1: p = m.size(); a.push_back(ca[q]); break; case 2: p = 0; a.push_front(ca[q]); break; case 3: a.insert(p, ca.at(q)); break; default: p = m.size(); a.append(ca.front()); v = m[0]; } m.insert(m.begin() + long(p), v); break; }
      case 27: { size_t p = r.below(m.size() + 1); int v = rv(); op("h%zu insert(iter %zu, %d)", hi, p, v); E e(El<E>::mk(v)); auto it = (v & 1) ? a.insert(a.cbegin() + p, e) : a.insert(a.cbegin() + p, std::move(e)); m.insert(m.begin() + long(p), v); VH_CHECK(it == a.begin() + p, "iterator", "insert returned a wrong iterator"); break; }
      case 28: { size_t p = r.below(m.size() + 1); auto v = rvec(); op("h%zu insert(iter %zu, range %s)", hi, p, showv(v).c_str()); auto ev = mkv(v); auto it = a.insert(a.cbegin() + p, ev.begin(), ev.end()); VH_CHECK(it == a.begin() + p, "iterator", "range insert returned a wrong iterator"); m.insert(m.begin() + long(p), v.begin(), v.end()); break; }
      case 29: case 30: { size_t p = rpos(m.size()); Src s = rsrc(); op("h%zu insert(%zu, %s)", hi, p, showv(s.m).c_str()); bool mv = r.chance(40); if (guarded(p > m.size(), "insert(pos,array)", [&] { if (mv) a.insert(p, A(s.a)); else a.insert(p, s.a); })) m.insert(m.begin() + long(p), s.m.begin(), s.m.end()); VH_CHECK(vals(s.a) == s.m, "arg-changed", "insert changed its argument"); break; }
      case 31: { size_t p = rpos(m.size()); Src s = rsrc(); size_t c = 1 + r.below(s.m.size() + 2); op("h%zu insert(%zu, %s, %zu)", hi, p, showv(s.m).c_str(), c); bool mv = r.chance(40); if (guarded(p > m.size(), "insert(pos,array,n)", [&] { if (mv) a.insert(p, A(s.a), c); else a.insert(p, s.a, c); })) m.insert(m.begin() + long(p), s.m.begin(), s.m.begin() + long(std::min(c, s.m.size()))); VH_CHECK(vals(s.a) == s.m, "arg-changed", "insert changed its argument"); break; }
      case 32: { if (m.size() > top / 2) break; size_t p = r.below(m.size() + 1); op("h%zu insert itself at %zu", hi, p); a.insert(p, a); auto c = m; m.insert(m.begin() + long(p), c.begin(), c.end()); break; }
      case 33: case 34: { Src s = rsrc(); int w = int(r.below(6)); op("h%zu append %s kind %d", hi, showv(s.m).c_str(), w); switch (w) { case 0: a += s.a; break; case 1: a += A(s.a); break; case 2: a.append(s.a); break; case 3: a = a + s.a; break; case 4: a.append(std::move(s.a)); s.a = A(); break; default: { A t(a + s.a); auto x = m; x.insert(x.end(), s.m.begin(), s.m.end()); VH_CHECK(vals(t) == x, "content", "a + b"); a = std::move(t); } } m.insert(m.end(), s.m.begin(), s.m.end()); break; }
      case 35: { Src s = rsrc(); size_t c = r.below(s.m.size() + 2); op("h%zu append %s n=%zu", hi, showv(s.m).c_str(), c); a.append(s.a, c); m.insert(m.end(), s.m.begin(), s.m.begin() + long(std::min(c, s.m.size()))); break; }
      case 36: { if (m.size() > top / 2) break; op("h%zu += itself", hi); a += a; auto c = m; m.insert(m.end(), c.begin(), c.end()); break; }
      case 37: { size_t p = rpos(m.size()); int v = rv(); op("h%zu replace(%zu, %d)", hi, p, v); E e(El<E>::mk(v)); if (guarded(p > m.size(), "replace(pos,item)", [&] { if (v & 1) a.replace(p, e); else a.replace(p, std::move(e)); })) { if (p == m.size()) m.push_back(v); else m[p] = v; } break; }
      case 38: { size_t p = rpos(m.size()); Src s = rsrc(); size_t c = r.chance(50) ? A::npos : 1 + r.below(s.m.size() + 2); op("h%zu replace(%zu, %s, %zd)", hi, p, showv(s.m).c_str(), ssize_t(c)); bool mv = r.chance(40); auto y = s.m; if (c < y.size()) y.resize(c); if (guarded(p > m.size(), "replace(pos,array)", [&] { if (mv) a.replace(p, A(s.a), c); else a.replace(p, s.a, c); })) { if (m.size() < p + y.size()) m.resize(p + y.size()); std::copy(y.begin(), y.end(), m.begin() + long(p)); } VH_CHECK(vals(s.a) == s.m, "arg-changed", "replace changed its argument"); break; }
      case 39: { size_t p = r.below(m.size() + 1); ssize_t len = r.chance(40) ? -1 : ssize_t(1 + r.below(m.size() + 2)); Src s = rsrc(); op("h%zu(%zu,%zd) = %s", hi, p, len, showv(s.m).c_str()); auto y = s.m; if (size_t(len) < y.size()) y.resize(size_t(len)); switch (r.below(3)) { case 0: a(ssize_t(p), len) = s.a; break; case 1: a(ssize_t(p), len) = A(s.a); break; default: a(ssize_t(p), len) = s.a(0); } if (m.size() < p + y.size()) m.resize(p + y.size()); std::copy(y.begin(), y.end(), m.begin() + long(p)); break; }
      case 40: case 41: { if (m.empty()) break; size_t p = r.below(m.size()), q = r.below(m.size()); int v = rv(), w = int(r.below(13)); op("h%zu write[%zu] kind %d value %d q=%zu", hi, p, w, v, q); E e(El<E>::mk(v));
        switch (w) { case 0: a[p] = e; m[p] = v; break; case 1: a[p] = a[q]; m[p] = m[q]; break; case 2: a[p].mget() = e; m[p] = v; break; case 3: a.write(p, e); m[p] = v; break; case 4: a.front() = e; m.front() = v; break; case 5: a.back() = std::move(e); m.back() = v; break; case 6: a.begin()[p] = e; m[p] = v; break; case 7: a.mdata()[p] = e; m[p] = v; break; case 8: a.rbegin()[p] = e; m[m.size() - 1 - p] = v; break; case 9: { const A& ca = a; a.write(p, ca[q]); m[p] = m[q]; break; } case 10: a[p] = std::move(e); m[p] = v; break; case 11: { H& o = r.pick(pool); if (o.m.empty()) break; size_t z = r.below(o.m.size()); int ov = o.m[z]; a[p] = (*o.a)[z]; m[p] = ov; break; } default: touch(a, p, m, v); } break; }
      case 42: { size_t c = r.below(big ? 9000 : 30); int v = rv(); op("h%zu resize(%zu, %d)", hi, c, v); a.resize(c, El<E>::mk(v)); m.resize(c, v); break; }
      case 43: { size_t c = r.below(big ? 9000 : 30), o = m.size(); op("h%zu resize(%zu)", hi, c); a.resize(c); VH_CHECK(a.length() == c, "content", "resize(%zu) gave length %zu", c, a.length()); m.resize(c); for (size_t i = o; i < c; ++i) { int v = rv(); a.write(i, El<E>::mk(v)); m[i] = v; } break; }
      case 44: { op("h%zu clear", hi); a.clear(); m.clear(); break; }
      case 45: { size_t c = r.below(big ? 70000 : 50); op("h%zu reserve(%zu)", hi, c); if (r.chance(50)) a.reserve(c); else a.reserve(c, 4); VH_CHECK(a.capacity() >= c, "capacity", "reserve(%zu) left %zu", c, a.capacity()); break; }
      case 46: { ssize_t x = rsigned(m.size()), y = rsigned(m.size()); op("h%zu.slice(%zd,%zd)", hi, x, y); a.slice(x, y); m = mslice(m, x, y); break; }
      case 47: { ssize_t x = rsigned(m.size()), y = rsigned(m.size()); op("h%zu.subarray(%zd,%zd)", hi, x, y); const A& ca = a; auto w = mslice(m, x, y); VH_CHECK(vals(ca.subarray(x, y)) == w && vals(ca(x, y)) == w && vals(A(a(x, y))) == w && vals(A(a(x, y).get())) == w, "slice", "subarray(%zd,%zd) of %s is %s", x, y, showv(m).c_str(), showv(vals(ca.subarray(x, y))).c_str()); VH_CHECK(vals(ca(x)) == mslice(m, x, -1), "slice", "subarray(%zd)", x); break; }
      case 48: { op("h%zu algorithm", hi); if (r.chance(50)) sortish(a, m); else { std::reverse(a.begin(), a.end()); std::reverse(m.begin(), m.end()); } break; }
      case 49: { size_t p = m.size() + (r.chance(50) ? 0 : r.below(40)); if (r.chance(20)) p = size_t(-1) - r.below(3); if (r.chance(30) && m.size()) p = r.below(m.size()); op("h%zu at(%zu)", hi, p); const A& ca = a; const E* e = nullptr; if (guarded(p >= m.size(), "at", [&] { e = &ca.at(p); })) VH_CHECK(El<E>::val(*e) == m[p], "index", "at(%zu)", p); break; }
      case 50: { op("array keys"); HashTable<A, int> t; for (size_t i = 0; i < n; ++i) t.insert(*pool[i].a, int(i)); for (size_t i = 0; i < n; ++i) { A key(mk(pool[i].m)); VH_CHECK(t.contains(key), "key", "array key %s not found through an equal array", showv(pool[i].m).c_str()); } break; }
      case 51: { size_t p = rpos(m.size(), 80); if (p <= m.size()) break; int w = int(r.below(6)); op("h%zu invalid position %zu kind %d", hi, p, w); E e(El<E>::mk(1)); Src s = rsrc(); guarded(true, "edit at an invalid position", [&] { switch (w) { case 0: a.insert(p, e); break; case 1: a.insert(p, El<E>::mk(2)); break; case 2: a.insert(p, s.a); break; case 3: a.insert(p, A(s.a)); break; case 4: a.replace(p, e); break; default: a.replace(p, s.a); } }); VH_CHECK(vals(s.a) == s.m, "arg-changed", "a failed edit changed its argument"); break; }
    }
  }
  /* X share, E edit, P pop/shift, V views, I invalid, O observe */
  static unsigned weight(int k) {
    char g = k < 6 ? 'B' : k < 12 ? 'X' : (k >= 15 && k <= 23) ? 'P' : (k == 46 || k == 47 || k == 39) ? 'V' : (k == 49 || k == 51) ? 'I' : k == 50 ? 'O' : 'E';
    unsigned w = g == 'I' || g == 'O' ? 2 : g == 'B' ? 5 : 8;
    for (char f : vh::S().mode) if (f == g) w *= 5;
    return w;
  }
  void run() {
    static std::vector<unsigned> cum; static uint64_t cnt[NK];
    if (cum.empty()) { unsigned t = 0; for (int k = 0; k < NK; ++k) { t += weight(k); cum.push_back(t); } }
    bool hot = r.chance(50);
    size_t steps = 8 + r.below(45);
    for (size_t i = 0; i < steps; ++i) {
      int k = int(std::upper_bound(cum.begin(), cum.end(), unsigned(r.below(cum.back()))) - cum.begin());
      size_t hi = r.below(n);
      if (hot && r.chance(70)) for (auto& o : pool) { size_t v = o.a->hash(); asm volatile("" : : "r"(v) : "memory"); }
      if (r.chance(4)) {   /* most other handles become copies or parts of this one */
        op("copies and parts of h%zu everywhere", hi); vh::count("bursts of sharing"); H& h = pool[hi];
        for (auto& o : pool) if (&o != &h && r.chance(80)) { if (r.chance(50)) { *o.a = *h.a; o.m = h.m; } else { ssize_t x = rsigned(h.m.size()), y = rsigned(h.m.size()); *o.a = h.a->subarray(x, y); o.m = mslice(h.m, x, y); } }
        verify("sharing");
      }
      uint64_t st = uint64_t(k); for (int x : pool[hi].m) st = vh::mix(st, uint64_t(x)); st = vh::mix(st, pool[hi].a->rcount() * 4096 + pool[hi].a->capacity()); st = vh::mix(st, vh::hstr(El<E>::name(), 3)); vh::distinct(st);
      step(k, hi); ++cnt[k];
      if (r.below(6000) == 0) { size_t q = (r.chance(4) ? 65536 : 256) + r.below(4); op("%zu copies of h%zu", q, hi); std::vector<A> v(q, *pool[hi].a); auto m = pool[hi].m; pool[hi].a->push_back(El<E>::mk(3)); pool[hi].m.push_back(3); v.resize(q / 2); VH_CHECK(vals(v[0]) == m && vals(v.back()) == m, "content", "one of %zu copies changed", q); }
      verify("step");
      if (r.chance(30)) observe(pool[hi]);
      if (hot || r.chance(15)) chk_hash(pool[hi]);
      if (r.chance(20)) verify("observation");
      if (pool[hi].m.size() > top) { pool[hi].a->clear(); pool[hi].m.clear(); }
      vh::count(std::string("steps:") + El<E>::name());
    }
    while (!pool.empty()) { pool.erase(pool.begin() + long(r.below(pool.size()))); verify("destruction"); }
  }
};
static void run_case(Rng& r, uint64_t no) {
  switch (r.below(4)) {
    case 0: { Hist<int> h(r); h.run(); break; }
    case 1: { Hist<String> h(r); h.run(); break; }
    case 2: { Hist<Array<int>> h(r); h.run(); break; }
    default: { { Hist<Tracked> h(r); h.run(); } VH_CHECK(Tracked::live().empty() && Tracked::made == Tracked::gone, "lifetime", "%zu elements left alive after all arrays are gone", Tracked::live().size()); }
  }
#ifdef HAVE_LSAN
  if (no % 512 == 511) { VH_CHECK(__lsan_do_recoverable_leak_check() == 0, "leak", "LeakSanitizer found a leak"); }
#else
  (void)no;
#endif
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case, [] { vh::count("elements_constructed", Tracked::made); vh::count("elements_destroyed", Tracked::gone); }); }
