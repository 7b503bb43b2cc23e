/* Who owns which storage.  Every block of memory is registered; after every
 * step the reported number of owners of every handle must be the number of
 * live handles whose data lies in the same block, operations that share must
 * have shared, and a block nobody owns any more must be gone. */
#include "heap.hpp"
#include "String.h"
#include "Array.h"
#include "Stream.h"
#include <memory>
using bd::String; using bd::Array; using vh::Rng; using vh::op; using vh::show;

template <class V> struct Tr;
template <> struct Tr<String> { typedef std::string M; static String mk(const M& m) { return String(m.data(), m.size()); } static M get(const String& s) { return M(s); } static M rnd(Rng& r) { M m(r.chance(15) ? 0 : 1 + r.below(r.chance(20) ? 300 : 20), 0); for (auto& c : m) c = char('a' + r.below(26)); return m; } static char el(Rng& r) { return char('A' + r.below(26)); } static char up(char c) { return c; } static const char* name() { return "String"; } };
template <> struct Tr<Array<int>> { typedef std::vector<int> M; static Array<int> mk(const M& m) { return Array<int>(m.data(), m.size()); } static M get(const Array<int>& a) { M m; for (size_t i = 0; i < a.length(); ++i) m.push_back(a[i]); return m; } static M rnd(Rng& r) { M m(r.chance(15) ? 0 : 1 + r.below(20)); for (auto& c : m) c = int(r.below(1000)); return m; } static int el(Rng& r) { return int(r.below(1000)); } static int up(int c) { return c; } static const char* name() { return "Array<int>"; } };
template <> struct Tr<Array<String>> { typedef std::vector<std::string> M; static Array<String> mk(const M& m) { Array<String> a; a.reserve(m.size()); for (auto& x : m) a.push_back(String(x.data(), x.size())); return a; } static M get(const Array<String>& a) { M m; for (size_t i = 0; i < a.length(); ++i) m.push_back(std::string(a[i])); return m; } static M rnd(Rng& r) { M m(r.chance(15) ? 0 : 1 + r.below(8)); for (auto& c : m) c = "e" + std::to_string(r.below(1000)); return m; } static std::string el(Rng& r) { return "n" + std::to_string(r.below(1000)); } static String up(const std::string& c) { return String(c.data(), c.size()); } static const char* name() { return "Array<String>"; } };
template <class V> static V sub(const V& v, ssize_t a, ssize_t l);
template <> String sub(const String& v, ssize_t a, ssize_t l) { return v.substring(a, l); }
template <> Array<int> sub(const Array<int>& v, ssize_t a, ssize_t l) { return v.subarray(a, l); }
template <> Array<String> sub(const Array<String>& v, ssize_t a, ssize_t l) { return v.subarray(a, l); }
template <class V> static void dropf(V& v, size_t n) { v.slice(ssize_t(n)); }
template <> void dropf(String& v, size_t n) { v += n; }
template <class V> static void dropb(V& v, size_t n) { v.slice(0, ssize_t(v.length() - n)); }
template <> void dropb(String& v, size_t n) { v -= n; }

template <class V> struct Pool {
  typedef typename Tr<V>::M M;
  struct H { V* v; M m; };
  std::vector<H> h; Rng& r; std::map<uint64_t, char*> known;
  explicit Pool(Rng& rr) : r(rr) {}
  Blk* blk(const V& v) { return v.capacity() && v.rcount() ? heap().find(static_cast<const void*>(v.data())) : nullptr; }
  void check(const char* what) {
    std::map<uint64_t, size_t> cnt; std::vector<uint64_t> of(h.size(), 0); size_t noblk = 0;
    for (size_t i = 0; i < h.size(); ++i) { M got = Tr<V>::get(*h[i].v); VH_CHECK(got == h[i].m, "content", "after %s handle %zu changed", what, i); Blk* b = blk(*h[i].v); if (b) { of[i] = b->serial; ++cnt[b->serial]; } else ++noblk; }
    for (size_t i = 0; i < h.size(); ++i) {
      size_t rc = h[i].v->rcount();
      if (of[i]) { VH_CHECK(rc == cnt[of[i]], "owner-count", "after %s handle %zu reports %zu owners but %zu live handles share its storage", what, i, rc, cnt[of[i]]); VH_CHECK(h[i].v->isShared() == (rc > 1), "owner-count", "isShared() disagrees with the number of owners"); if (rc > 1) vh::count("shared-handles"); }
      else { VH_CHECK(rc <= noblk, "owner-count", "after %s handle %zu without storage reports %zu owners", what, i, rc); VH_CHECK(h[i].m.empty(), "owner-count", "a non-empty value has no storage"); }
      vh::distinct(vh::mix(vh::hstr(what, strlen(what)), rc * 64 + std::min<size_t>(h[i].m.size(), 30)));
    }
    for (auto& k : known) if (!cnt.count(k.first)) { Blk* b = heap().find(k.second); VH_CHECK(!b || b->serial != k.first, "not-released", "after %s storage that has no owner any more was not given back", what); vh::count("released"); }
    known.clear(); for (size_t i = 0; i < h.size(); ++i) if (of[i]) { Blk* b = blk(*h[i].v); known[of[i]] = b->p; }
  }
  void must_share(const V& a, const V& b, const char* what) { if (!a.length() || !b.length()) return; Blk* x = blk(a); Blk* y = blk(b); VH_CHECK(x && y && x->serial == y->serial, "not-shared", "%s did not share storage", what); }
  /* many owners of one storage: no count is too large */
  void crowd() {
    if (h.empty()) return;
    size_t i = r.below(h.size()); V& v = *h[i].v; M m = h[i].m; if (m.empty()) return;
    size_t before = v.rcount(), k = r.chance(3) ? 65530 + r.below(20) : r.chance(50) ? 250 + r.below(20) : 1 + r.below(1000); op("%zu more owners of handle %zu", k, i);
    std::vector<V> c; c.reserve(k + 1);
    { Track on; for (size_t j = 0; j < k; ++j) { if (j % 7 == 3) c.push_back(sub<V>(v, 0, ssize_t(m.size()))); else c.push_back(v); } }
    VH_CHECK(v.rcount() == before + k && c.back().rcount() == before + k && v.isShared(), "owner-count", "%zu further owners of a value with %zu are reported as %zu", k, before, v.rcount());
    must_share(c.front(), v, "copying"); must_share(c.back(), v, "copying");
    size_t gone = r.below(k); { Track on; for (size_t j = 0; j < gone; ++j) c.pop_back(); }
    VH_CHECK(v.rcount() == before + k - gone, "owner-count", "%zu of %zu owners went, %zu are reported", gone, before + k, v.rcount());
    if (r.chance(50)) { auto e = Tr<V>::el(r); { Track on; v.push_back(Tr<V>::up(e)); } h[i].m.push_back(e); VH_CHECK(v.rcount() == 1 && c.front().rcount() == before + k - gone - 1, "owner-count", "editing one of %zu owners leaves %zu and %zu", before + k - gone, v.rcount(), c.front().rcount()); }
    VH_CHECK(Tr<V>::get(c.front()) == m && Tr<V>::get(c.back()) == m && Tr<V>::get(v) == h[i].m, "content", "one of many owners changed");
    { Track on; while (!c.empty()) c.pop_back(); }
    vh::count("crowds"); check("many owners");
  }
  void step() {
    if (h.empty() || (h.size() < 8 && r.chance(12))) { M m = Tr<V>::rnd(r); int k = int(r.below(3)); V* v; { Track on; if (k == 0) v = new V(Tr<V>::mk(m)); else if (k == 1) { v = new V; v->reserve(m.size() + r.below(10)); V t(Tr<V>::mk(m)); for (size_t i = 0; i < m.size(); ++i) v->push_back(static_cast<const V&>(t)[i]); } else { v = new V(size_t(r.below(20))); m.clear(); } } h.push_back(H{ v, m }); op("new of length %zu", m.size()); check("new"); return; }
    size_t i = r.below(h.size()), j = r.below(h.size()); H& a = h[i]; V& v = *a.v; size_t L = a.m.size(); int o = int(r.below(24)); op("op %d on handle %zu (length %zu, %zu owners)", o, i, L, v.rcount()); const char* w = "?"; size_t before = v.rcount(); auto e = Tr<V>::el(r); bool edit = false;
    { Track on;
      switch (o) {
        case 0: w = "copy"; { V* n = new V(v); h.push_back(H{ n, a.m }); must_share(*h.back().v, *h[i].v, "copying"); } break;
        case 1: w = "slice"; { size_t s = r.below(L + 2), l = r.below(L + 2); V* n = new V(sub<V>(v, ssize_t(s), ssize_t(l))); M m; if (s < L) m = M(a.m.begin() + long(s), a.m.begin() + long(std::min(L, s + l))); h.push_back(H{ n, m }); must_share(*n, *h[i].v, "slicing"); } break;
        case 2: w = "drop front"; if (r.chance(40)) { size_t n = r.below(L + 4); dropf(v, n); a.m.erase(a.m.begin(), a.m.begin() + long(std::min(n, L))); } else if (L) { size_t n = r.below(L) ; V c(v); dropf(v, n); a.m.erase(a.m.begin(), a.m.begin() + long(n)); must_share(v, c, "dropping from the front"); } break;
        case 3: w = "drop back"; if (r.chance(40)) { size_t n = r.below(L + 1); dropb(v, n); a.m.erase(a.m.end() - long(n), a.m.end()); } else if (L) { size_t n = r.below(L); V c(v); dropb(v, n); a.m.erase(a.m.end() - long(n), a.m.end()); must_share(v, c, "dropping from the back"); } break;
        case 4: w = "assign"; v = *h[j].v; a.m = h[j].m; must_share(v, *h[j].v, "assigning"); break;
        case 5: w = "move assign"; if (i != j) { v = std::move(*h[j].v); a.m = h[j].m; h[j].m.clear(); } break;
        case 6: w = "destroy"; delete a.v; h.erase(h.begin() + long(i)); break;
        case 7: w = "write element"; if (L) { size_t p = r.below(L); v[p] = Tr<V>::up(e); a.m[p] = e; edit = true; } break;
        case 8: w = "append element"; v.push_back(Tr<V>::up(e)); a.m.push_back(e); edit = true; break;
        case 9: w = "insert element"; { size_t p = r.below(L + 1); v.insert(p, Tr<V>::up(e)); a.m.insert(a.m.begin() + long(p), e); edit = true; } break;
        case 10: w = "append value"; { M m = h[j].m; v += *h[j].v; a.m.insert(a.m.end(), m.begin(), m.end()); } break;
        case 11: w = "begin()"; if (L) { *v.begin() = Tr<V>::up(e); a.m[0] = e; edit = true; } break;
        case 12: w = "reserve"; v.reserve(r.below(2 * L + 10)); break;
        case 13: w = "clear"; v.clear(); a.m.clear(); break;
        case 14: w = "hash and compare"; (void)v.hash(); VH_CHECK((v == *h[j].v) == (a.m == h[j].m), "content", "comparison"); break;
        case 15: w = "pop_back"; if (L) { v.pop_back(); a.m.pop_back(); } break;
        case 16: w = "swap"; { using std::swap; swap(v, *h[j].v); std::swap(a.m, h[j].m); } break;
        case 17: w = "assign through slice"; if (L) { size_t p = r.below(L); V t(1, Tr<V>::up(e)); v(ssize_t(p), 1) = t; a.m[p] = e; edit = true; } break;
        case 18: w = "move construct"; { V* n = new V(std::move(v)); M m; std::swap(m, a.m); h.push_back(H{ n, m }); } break;
        case 19: w = "self assign"; { V& self = v; v = self; } break;
        case 20: w = "resize"; { size_t n = r.below(L + 8); v.resize(n, Tr<V>::up(e)); if (n > L) edit = true; a.m.resize(n, e); } break;
        case 21: w = "slice in place"; { ssize_t st = ssize_t(r.range(-int64_t(L) - 2, int64_t(L) + 3)), ln = r.chance(30) ? -1 : ssize_t(r.below(L + 3)); v.slice(st, ln); size_t b = st < 0 ? size_t(std::max<ssize_t>(0, ssize_t(L) + st)) : std::min(L, size_t(st)); size_t n = ln < 0 ? L - b : std::min(L - b, size_t(ln)); a.m = M(a.m.begin() + long(b), a.m.begin() + long(b + n)); } break;
        default: w = "extra"; extra(v, a.m); break;
      }
    }
    if (edit) { VH_CHECK(h[i].v->rcount() == 1, "owner-count", "%s of a value with %zu owners leaves it with %zu owners", w, before, h[i].v->rcount()); if (before > 1) vh::count("edits-of-shared"); }
    vh::count(std::string("op:") + w);
    while (h.size() > 12) { size_t k = r.below(h.size()); { Track on; delete h[k].v; } h.erase(h.begin() + long(k)); w = "destroy"; }
    check(w);
  }
  void extra(V&, M&) {}
  void run() {
    heap().n = 0; int n = 10 + int(r.below(60)); for (int k = 0; k < n; ++k) { step(); if (r.below(400) == 0) crowd(); }
    while (!h.empty()) { size_t k = r.below(h.size()); { Track on; delete h[k].v; } h.erase(h.begin() + long(k)); check("destroy"); }
    std::vector<H>().swap(h); VH_CHECK(heap().n == 0, "not-released", "%zu blocks are left when every %s is gone", heap().n, Tr<V>::name());
  }
};
template <> void Pool<String>::extra(String& v, std::string& m) {
  switch (r.below(5)) {
    case 0: { const char* c = v.c_str(); VH_CHECK(std::string(c, m.size()) == m && !c[m.size()], "content", "c_str()"); break; }
    case 1: { size_t k = r.below(3); v = std::string(m.substr(0, k)); m = m.substr(0, k); break; }
    case 2: { if (m.size() > 1) { String c(v); ++v; m.erase(0, 1); must_share(v, c, "++"); --v; m.pop_back(); must_share(v, c, "--"); } break; }
    case 3: { bd::Stream s(v); must_share(String(s), v, "a stream of a string"); break; }
    default: { String c(v); String t(v.trim()); VH_CHECK(std::string(t) == m, "content", "trim"); v.chomp(); must_share(v, c, "trimming"); break; }
  }
}
template <> void Pool<Array<String>>::extra(Array<String>& v, std::vector<std::string>& m) {
  if (m.empty()) return;
  switch (r.below(4)) {
    case 0: { Array<String> c(v); String x(v.pop()); VH_CHECK(std::string(x) == m.back(), "content", "pop"); m.pop_back(); must_share(v, c, "popping"); break; }
    case 1: { Array<String> c(v); String x(v.shift()); VH_CHECK(std::string(x) == m.front(), "content", "shift"); m.erase(m.begin()); must_share(v, c, "shifting"); break; }
    case 2: { String x(v[0]); const Array<String>& k = v; VH_CHECK(x.rcount() == k[0].rcount() && x.rcount() > 1, "owner-count", "an element and its copy report %zu and %zu owners", k[0].rcount(), x.rcount()); break; }
    default: { String j(v.join(",")); auto s = j.split(","); VH_CHECK(s.length() == m.size(), "content", "split"); const Array<String>& q = s; Blk* b = heap().find(j.data()); for (size_t i = 0; i < q.length(); ++i) { Blk* x = heap().find(q[i].data()); if (b && x && x->serial == b->serial) { Track off(false); vh::count("split-shares"); } } }
  }
}
static void run_case(Rng& r, uint64_t no) {
  (void)no; switch (r.below(3)) { case 0: { Pool<String> p(r); p.run(); break; } case 1: { Pool<Array<int>> p(r); p.run(); break; } default: { Pool<Array<String>> p(r); p.run(); } }
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
