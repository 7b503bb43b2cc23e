/* Allocation failure: each operation of a history is tried with its first,
 * second, ... allocation failing until it succeeds.  After every failure all
 * values must be what they were; in the end everything must be given back. */
#include "heap.hpp"
#include "String.h"
#include "Array.h"
#include "HashTable.h"
#include "base64.h"
#include "Stream.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <memory>
/* malloc and free as called by the library are part of the same count */
static void* g_mal[256]; static size_t g_nmal;
extern "C" { void* __real_malloc(size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) {
  Heap& h = heap(); if (!h.track || h.inside) return __real_malloc(n);
  long k = h.seen++; if (h.fail_at >= 0 && (k == h.fail_at || (h.fail_rest && k > h.fail_at))) { h.failed = true; return nullptr; }
  void* p = __real_malloc(n); if (p && g_nmal < 256) g_mal[g_nmal++] = p; return p;
}
void __wrap_free(void* p) { if (p && !heap().inside) for (size_t i = 0; i < g_nmal; ++i) if (g_mal[i] == p) { g_mal[i] = g_mal[--g_nmal]; break; } __real_free(p); }
}
using bd::String; using bd::Array; using vh::Rng; using vh::op; using vh::show;
typedef std::string M; typedef std::vector<std::string> MA; typedef std::vector<int> MI;
static String S(const M& m) { return String(m.data(), m.size()); }
struct Pool {
  Rng& r; std::vector<String*> s; std::vector<M> sm; std::vector<Array<String>*> a; std::vector<MA> am; std::vector<Array<int>*> n; std::vector<MI> nm; bd::Stream* st = nullptr; M stm; size_t stp = 0; uint64_t fails = 0, ops = 0;
  explicit Pool(Rng& rr) : r(rr) {}
  M rt() { M m(r.chance(10) ? 0 : r.below(r.chance(20) ? 200 : 24), 0); for (auto& c : m) c = "abc, xyz\n"[r.below(9)]; return m; }
  void check(const char* when, const char* what) {
    for (size_t i = 0; i < s.size(); ++i) { M g(*s[i]); VH_CHECK(g == sm[i] && s[i]->length() == sm[i].size(), "value-lost", "%s %s: string %zu reads %s expected %s", when, what, i, show(g).c_str(), show(sm[i]).c_str()); }
    for (size_t i = 0; i < a.size(); ++i) { const Array<String>& x = *a[i]; VH_CHECK(x.length() == am[i].size(), "value-lost", "%s %s: array %zu has %zu elements expected %zu", when, what, i, x.length(), am[i].size()); for (size_t k = 0; k < am[i].size(); ++k) { M g(x[k]); VH_CHECK(g == am[i][k], "value-lost", "%s %s: array %zu element %zu reads %s expected %s", when, what, i, k, show(g).c_str(), show(am[i][k]).c_str()); } }
    for (size_t i = 0; i < n.size(); ++i) { const Array<int>& x = *n[i]; VH_CHECK(x.length() == nm[i].size(), "value-lost", "%s %s: array %zu length", when, what, i); for (size_t k = 0; k < nm[i].size(); ++k) VH_CHECK(x[k] == nm[i][k], "value-lost", "%s %s: int array %zu element %zu", when, what, i, k); }
  }
  void check_stream(const char* what) { M g((String(*st))); VH_CHECK(g == stm && st->tell() == stp, "value-lost", "%s: the stream reads %s at %zu expected %s at %zu", what, show(g).c_str(), st->tell(), show(stm).c_str(), stp); }
  void step_t() {
    M t = rt(); String e(S(t)); size_t i = r.below(s.size()); auto put = [&](const M& x) { if (stm.size() < stp + x.size()) stm.resize(stp + x.size()); stm.replace(stp, x.size(), x); stp += x.size(); };
    switch (r.below(7)) {
      case 0: attempt("stream puts", [&] { st->puts(e); }, [&] { put(t); }); break;
      case 1: { String x(*s[i]); attempt("stream puts shared", [&] { *st << x; }, [&] { put(sm[i]); }); break; }
      case 2: { attempt("stream puts moved", [&] { String x(e); st->puts(std::move(x)); }, [&] { put(t); }); break; }
      case 3: { size_t k = r.below(stm.size() + 1); st->seek(int(k), SEEK_SET); stp = k; break; }
      case 4: { M want = stm.substr(stp); want.resize(want.find('\n') == M::npos ? want.size() : want.find('\n') + 1); attempt("stream getline", [&] { String x(st->getline()); if (x.length() != want.size() || (want.size() && memcmp(x.data(), want.data(), want.size()))) throw 1; }, [&] { stp += want.size(); }); break; }
      case 5: { String keep(*st); attempt("stream truncate", [&] { st->truncate(); }, [&] { stm.resize(stp); }); break; }
      default: { M want = stm.substr(stp, 20); attempt("stream read", [&] { String x(st->read(20)); if (x.length() != want.size() || (want.size() && memcmp(x.data(), want.data(), want.size()))) throw 1; }, [&] { stp += want.size(); }); }
    }
    check_stream("after an operation"); if (stm.size() > 4000) { st->clear(); stm.clear(); stp = 0; }
  }
  /* f is tried with the k-th allocation failing, for k = 0, 1, ... */
  template <class F, class G> void attempt(const char* what, F f, G model) {
    op("%s", what); ++ops;
    bool rest = r.chance(30);
    for (long k = 0; k < 400; ++k) {
      bool threw = false; size_t live = heap().n; (void)live;
      { Track on; Heap& h = heap(); h.seen = 0; h.failed = false; h.fail_at = k; h.fail_rest = rest; try { f(); } catch (const std::bad_alloc&) { threw = true; } h.fail_at = -1; }
      if (!heap().failed) { VH_CHECK(!threw, "throws", "%s threw bad_alloc although no allocation failed", what); model(); check("after", what); vh::distinct(vh::mix(vh::hstr(what, strlen(what)), uint64_t(k))); return; }
      VH_CHECK(threw, "swallowed", "%s did not report that its allocation %ld failed", what, k + 1); ++fails;
      check("after a failed", what); check_stream(what);
    }
    vh::fail("endless", "%s keeps allocating", what);
  }
  void step_s() {
    size_t i = r.below(s.size()), j = r.below(s.size()); String& v = *s[i]; M& m = sm[i]; String& u = *s[j]; M um = sm[j]; size_t L = m.size(), p = r.below(L + 1); M t = rt(); char c = 'Q'; String ts(S(t));
    switch (r.below(46)) {
      case 0: attempt("s += string", [&] { v += u; }, [&] { m += um; }); break;
      case 1: attempt("s += char", [&] { v += c; }, [&] { m += c; }); break;
      case 2: attempt("s += cstring", [&] { v += t.c_str(); }, [&] { m += t.c_str(); }); break;
      case 3: attempt("insert string", [&] { v.insert(p, u); }, [&] { m.insert(p, um); }); break;
      case 4: attempt("insert char", [&] { v.insert(p, c); }, [&] { m.insert(p, 1, c); }); break;
      case 5: attempt("insert cstring", [&] { v.insert(p, t.c_str()); }, [&] { m.insert(p, t); }); break;
      case 6: attempt("replace string", [&] { v.replace(p, u); }, [&] { if (p + um.size() > m.size()) m.resize(p + um.size()); m.replace(p, um.size(), um); }); break;
      case 7: if (L) { p = r.below(L); attempt("s[i] = c", [&] { v[p] = c; }, [&] { m[p] = c; }); } break;
      case 8: if (L) attempt("begin()", [&] { *v.begin() = c; }, [&] { m[0] = c; }); break;
      case 9: if (L) attempt("mdata()", [&] { v.mdata()[0] = c; }, [&] { m[0] = c; }); break;
      case 10: attempt("reserve", [&] { v.reserve(L + 30); }, [&] {}); break;
      case 11: { size_t k = r.below(2 * L + 8); attempt("resize", [&] { v.resize(k, c); }, [&] { m.resize(k, c); }); break; }
      case 12: attempt("= std::string", [&] { v = std::string(t); }, [&] { m = t; }); break;
      case 13: attempt("= cstring", [&] { v = t.c_str(); }, [&] { m = t; }); break;
      case 14: attempt("c_str()", [&] { const char* q = v.c_str(); if (q[L]) throw 1; }, [&] {}); break;
      case 15: attempt("s + s", [&] { String x(v + u); (void)x.length(); }, [&] {}); break;
      case 16: attempt("split", [&] { auto x = v.split(","); (void)x.length(); }, [&] {}); break;
      case 17: attempt("sub", [&] { String x(v.sub("a", "long replacement")); (void)x.length(); }, [&] {}); break;
      case 18: attempt("printf", [&] { String x(String::printf("%s|%d", t.c_str(), 5)); (void)x.length(); }, [&] {}); break;
      case 19: attempt("assign through slice", [&] { v(ssize_t(p), ssize_t(u.length())) = u; }, [&] { if (p + um.size() > m.size()) m.resize(p + um.size()); m.replace(p, um.size(), um); }); break;
      case 20: attempt("append temporary", [&] { v += String(ts); }, [&] { m += t; }); break;
      case 21: if (i != j) attempt("append moved", [&] { v += std::move(u); }, [&] { if (m.empty()) { m = um; sm[j].clear(); } else m += um; sm[j] = M(u); }); break;
      case 22: attempt("copy", [&] { String x(v); x += "more"; }, [&] {}); break;
      case 23: attempt("repeat", [&] { String x(v * 3); (void)x.length(); }, [&] {}); break;
      case 24: attempt("dup", [&] { char* d = v.dup(); delete[] d; }, [&] {}); break;
      case 25: attempt("= list", [&] { v = { 'a', 'b', 'c' }; }, [&] { m = "abc"; }); break;
      case 26: attempt("push_back", [&] { v.push_back(c); }, [&] { m.push_back(c); }); break;
      case 27: attempt("insert range", [&] { v.insert(v.cbegin() + long(p), t.begin(), t.end()); }, [&] { m.insert(p, t); }); break;
      case 28: { v = v.substring(ssize_t(L / 4), ssize_t(L / 2)); m = m.substr(L / 4, L / 2); check("after", "slicing"); break; }
      case 29: attempt("base64 encode", [&] { String x(bd::base64Encode(v)); (void)x.length(); }, [&] {}); break;
      case 30: { String b(bd::base64Encode(v)); attempt("base64 decode", [&] { String x(bd::base64Decode(b)); if (std::string(x) != m) throw 1; }, [&] {}); break; }
      case 31: attempt("ifind", [&] { if ((v.ifind("XY") != String::npos) != (m.find("xy") != M::npos)) throw 1; }, [&] {}); break;
      case 32: attempt("rifind", [&] { (void)v.rifind(ts); }, [&] {}); break;
      case 33: attempt("split with limit", [&] { auto x = v.split(" ", 3); (void)x.length(); }, [&] {}); break;
      case 34: { bd::HashTable<String, String> h; h["a"] = "long replacement"; h["xyz"] = ""; attempt("subst", [&] { String x(v.subst(h)); (void)x.length(); }, [&] {}); break; }
      case 35: attempt("from cstring", [&] { String x(t.c_str()); x += u; }, [&] {}); break;
      case 36: attempt("from std::string", [&] { String x(t); String y(x.data(), x.length()); }, [&] {}); break;
      case 37: attempt("to std::string", [&] { std::string x(v); if (x != m) throw 1; }, [&] {}); break;
      case 38: attempt("replace cstring", [&] { v.replace(p, t.c_str()); }, [&] { if (p + t.size() > m.size()) m.resize(p + t.size()); m.replace(p, t.size(), t); }); break;
      case 39: attempt("replace char", [&] { v.replace(p, c); }, [&] { if (p == m.size()) m += c; else m[p] = c; }); break;
      case 40: attempt("insert part", [&] { v.insert(p, u, 5); }, [&] { m.insert(p, um.substr(0, 5)); }); break;
      case 41: if (L) attempt("append own part", [&] { v.append(v.data() + L / 2, L - L / 2); }, [&] { m += m.substr(L / 2); }); break;
      case 42: if (L) attempt("front and back", [&] { v.front() = c; }, [&] { m[0] = c; }); break;
      case 43: if (L) attempt("back", [&] { v.back() = c; }, [&] { m[L - 1] = c; }); break;
      case 44: attempt("long printf", [&] { String x(String::printf("%s%5000d", t.c_str(), 5)); if (x.length() != t.size() + 5000) throw 1; }, [&] {}); break;
      default: { u = v; sm[j] = m; check("after", "assigning"); }
    }
    if (sm[i].size() > 600) { v.clear(); m.clear(); }
  }
  void step_a() {
    size_t i = r.below(a.size()), j = r.below(a.size()); Array<String>& v = *a[i]; MA& m = am[i]; Array<String>& u = *a[j]; MA um = am[j]; size_t L = m.size(), p = r.below(L + 1); M t = rt(); String e(S(t));
    switch (r.below(24)) {
      case 0: attempt("push_back", [&] { v.push_back(e); }, [&] { m.push_back(t); }); break;
      case 1: attempt("push_back moved", [&] { String x(e); v.push_back(std::move(x)); }, [&] { m.push_back(t); }); break;
      case 2: attempt("insert", [&] { v.insert(p, e); }, [&] { m.insert(m.begin() + long(p), t); }); break;
      case 3: attempt("append array", [&] { v += u; }, [&] { m.insert(m.end(), um.begin(), um.end()); }); break;
      case 4: attempt("insert array", [&] { v.insert(p, u); }, [&] { m.insert(m.begin() + long(p), um.begin(), um.end()); }); break;
      case 5: if (L) { p = r.below(L); attempt("a[i] = e", [&] { v[p] = e; }, [&] { m[p] = t; }); } break;
      case 6: if (L) { p = r.below(L); attempt("edit element", [&] { v[p].mget() += "tail"; }, [&] { m[p] += "tail"; }); } break;
      case 7: attempt("reserve", [&] { v.reserve(L + 9); }, [&] {}); break;
      case 8: { size_t k = r.below(L + 6); attempt("resize", [&] { v.resize(k, e); }, [&] { m.resize(k, t); }); break; }
      case 9: attempt("join", [&] { String x(v.join(", ")); (void)x.length(); }, [&] {}); break;
      case 10: attempt("a + a", [&] { Array<String> x(v + u); (void)x.length(); }, [&] {}); break;
      case 11: if (L) attempt("pop", [&] { String x(v.pop()); }, [&] { m.pop_back(); }); break;
      case 12: if (L) attempt("shift", [&] { String x(v.shift()); }, [&] { m.erase(m.begin()); }); break;
      case 13: if (L) attempt("front()", [&] { v.front() = e; }, [&] { m[0] = t; }); break;
      case 14: attempt("replace", [&] { v.replace(p, e); }, [&] { if (p < m.size()) m[p] = t; else m.push_back(t); }); break;
      case 15: { v = v.subarray(ssize_t(L / 4), ssize_t(L / 2 + 1)); MA x; for (size_t k = L / 4; k < L && k < L / 4 + L / 2 + 1; ++k) x.push_back(m[k]); m = x; check("after", "slicing"); break; }
      case 16: attempt("quoted join", [&] { String x(v.join(",", true)); (void)x.length(); }, [&] {}); break;
      case 17: attempt("= list", [&] { v = { e, String("x"), e }; }, [&] { m = { t, "x", t }; }); break;
      case 18: attempt("push_front", [&] { v.push_front(e); }, [&] { m.insert(m.begin(), t); }); break;
      case 19: attempt("replace with array", [&] { v.replace(p, u); }, [&] { for (size_t k = 0; k < um.size(); ++k) if (p + k < m.size()) m[p + k] = um[k]; else m.push_back(um[k]); }); break;
      case 20: if (L) attempt("append own element", [&] { v.push_back(static_cast<const Array<String>&>(v)[L / 2]); }, [&] { m.push_back(m[L / 2]); }); break;
      case 21: if (L) attempt("begin()", [&] { *v.begin() = e; }, [&] { m[0] = t; }); break;
      case 22: attempt("insert range", [&] { v.insert(v.cbegin() + long(p), um.begin(), um.end()); }, [&] { m.insert(m.begin() + long(p), um.begin(), um.end()); }); break;
      default: { u = v; am[j] = m; check("after", "assigning"); }
    }
    while (am[i].size() > 24) { v.pop_back(); am[i].pop_back(); }
  }
  void step_n() {
    size_t i = r.below(n.size()), j = r.below(n.size()); Array<int>& v = *n[i]; MI& m = nm[i]; Array<int>& u = *n[j]; MI um = nm[j]; size_t L = m.size(), p = r.below(L + 1); int e = int(r.below(1000));
    switch (r.below(8)) {
      case 0: attempt("push_back int", [&] { v.push_back(e); }, [&] { m.push_back(e); }); break;
      case 1: attempt("insert int", [&] { v.insert(p, e); }, [&] { m.insert(m.begin() + long(p), e); }); break;
      case 2: attempt("append int array", [&] { v += u; }, [&] { m.insert(m.end(), um.begin(), um.end()); }); break;
      case 3: if (L) { p = r.below(L); attempt("a[i] = int", [&] { v[p] = e; }, [&] { m[p] = e; }); } break;
      case 4: attempt("reserve int", [&] { v.reserve(L + 9); }, [&] {}); break;
      case 5: attempt("= int list", [&] { v = { 1, 2, 3, 4 }; }, [&] { m = { 1, 2, 3, 4 }; }); break;
      case 6: { size_t k = r.below(L + 6); attempt("resize int", [&] { v.resize(k, e); }, [&] { m.resize(k, e); }); break; }
      default: { u = v; nm[j] = m; check("after", "assigning"); }
    }
    while (nm[i].size() > 40) { v.pop_back(); nm[i].pop_back(); }
  }
  void run() {
    heap().n = 0; { Track on; st = new bd::Stream; }
    for (int k = 0; k < 4; ++k) { M m = rt(); { Track on; s.push_back(new String(S(m))); } sm.push_back(m); }
    for (int k = 0; k < 3; ++k) { MA m; { Track on; a.push_back(new Array<String>); } for (size_t z = r.below(5); z; --z) { M t = rt(); { Track on; a.back()->push_back(S(t)); } m.push_back(t); } am.push_back(m); { Track on; n.push_back(new Array<int>); } nm.push_back({}); }
    int c = 6 + int(r.below(20)); for (int k = 0; k < c; ++k) { int z = int(r.below(11)); if (z < 6) step_s(); else if (z < 9) step_a(); else if (z < 10) step_n(); else step_t(); }
    delete st; for (auto x : s) delete x; for (auto x : a) delete x; for (auto x : n) delete x;
    { std::vector<String*>().swap(s); std::vector<Array<String>*>().swap(a); std::vector<Array<int>*>().swap(n); }
    VH_CHECK(g_nmal == 0, "leak", "%zu blocks from malloc are left after %lu failed allocations", g_nmal, (unsigned long)fails);
    VH_CHECK(heap().n == 0, "leak", "%zu blocks are left after %lu failed allocations when everything is gone", heap().n, (unsigned long)fails);
    vh::count("operations", ops); vh::count("failed-allocations", fails);
  }
};
/* Loading and saving with failing allocations: an error is reported (thrown or
 * returned) and no descriptor, mapping or memory is left behind. */
static size_t open_fds() { size_t n = 0; for (int i = 0; i < 64; ++i) n += fcntl(i, F_GETFD) != -1; return n; }
static bool mapped(const char* name) { FILE* f = fopen("/proc/self/maps", "r"); if (!f) return false; char l[4096]; bool hit = false; while (fgets(l, sizeof l, f)) if (strstr(l, name)) hit = true; fclose(f); return hit; }
struct Dir { std::string d; Dir() { char t[] = "/tmp/vh-oom-XXXXXX"; if (!mkdtemp(t)) _exit(3); d = t; } ~Dir() { unlink((d + "/streamfile").c_str()); unlink((d + "/out").c_str()); rmdir(d.c_str()); } };
static void load_case(Rng& r) {
  Dir dir; std::string name = dir.d + "/streamfile", out = dir.d + "/out"; std::string data(r.chance(10) ? 0 : r.below(r.chance(30) ? 9000 : 300), 0); for (auto& c : data) c = char(r.below(256));
  { int fd = open(name.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd < 0 || write(fd, data.data(), data.size()) != ssize_t(data.size())) _exit(3); close(fd); }
  std::string pre(r.below(2) * r.below(50), 'p'); int kind = int(r.below(3)); bool rest = r.chance(30); uint64_t fails = 0; heap().n = 0; g_nmal = 0;
  op("kind %d of %zu bytes over %zu", kind, data.size(), pre.size());
  int fd = kind == 1 ? open(name.c_str(), O_RDONLY) : -1; size_t fds = open_fds();
  { std::unique_ptr<bd::Stream> s; std::unique_ptr<String> nm; { Track on; s.reset(new bd::Stream); s->puts(S(kind == 2 ? data : pre)); String whole(S("x" + (kind == 2 ? out : name) + "yz")); nm.reset(new String(whole(1, whole.length() - 3))); }
    for (long k = 0;; ++k) {
      VH_CHECK(k < 2000, "endless", "loading keeps allocating");
      int ret = 1; bool threw = false;
      { Track on; Heap& h = heap(); h.seen = 0; h.failed = false; h.fail_at = k; h.fail_rest = rest; try { ret = kind == 0 ? s->loadFile(*nm) : kind == 1 ? s->loadFile(fd) : s->writeFile(*nm); } catch (const std::bad_alloc&) { threw = true; } h.fail_at = -1; }
      size_t now = open_fds(); bool bad = threw || ret;
      VH_CHECK(now == fds, "descriptor-leak", "%zu descriptors were open before %s and %zu after its allocation %ld failed", fds, kind == 2 ? "saving" : "loading", now, k + 1);
      if (bad || k == 0) VH_CHECK(!mapped("streamfile"), "mapping-leak", "the file is still mapped after loading with allocation %ld failing", k + 1);
      VH_CHECK(heap().failed || !bad, "throws", "failed although nothing went wrong");
      if (heap().failed) ++fails;
      if (kind == 2) VH_CHECK(M(String(*s)) == data, "save-changes", "the stream being saved has changed");
      if (!bad) { if (kind < 2) VH_CHECK(M(String(*s)) == data && s->tell() == 0, "load-content", "loading with allocation %ld failing reported success but the stream has %zu bytes of %zu", k + 1, s->length(), data.size());
        else { std::string got; int o = open(out.c_str(), O_RDONLY); char b[10000]; ssize_t l = o < 0 ? -1 : read(o, b, sizeof b); if (o >= 0) close(o); if (l > 0) got.assign(b, size_t(l)); VH_CHECK(o >= 0 && got == data, "save-content", "saving reported success but the file has %zu bytes of %zu", got.size(), data.size()); } }
      vh::distinct(vh::mix(vh::mix(uint64_t(kind), uint64_t(k)), vh::mix(data.size(), uint64_t(bad))));
      if (!heap().failed) break;
    } }
  if (fd >= 0) close(fd);
  VH_CHECK(g_nmal == 0 && heap().n == 0, "leak", "%zu blocks are left after %lu failed allocations", heap().n + g_nmal, (unsigned long)fails);
  vh::count("failed-allocations", fails);
}
static void run_case(Rng& r, uint64_t no) { (void)no; if (vh::S().mode == "S") { load_case(r); return; } Pool p(r); p.run(); }
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
