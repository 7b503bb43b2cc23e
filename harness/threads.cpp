/* Threads that each use only their own strings and arrays, which share
 * storage.  Allocation, release and element copies are delayed at random;
 * every thread compares its values with its own reference after every step;
 * what is allocated must balance.  Run under ThreadSanitizer, AddressSanitizer
 * and plain with tight rounds that start at the same moment. */
#include "vh.hpp"
#include "String.h"
#include "Array.h"
#include "Stream.h"
#include "HashTable.h"
#include "base64.h"
#include <sstream>
#include <atomic>
#include <memory>
#include <mutex>
#include <new>
#include <sched.h>
#include <thread>
using bd::String; using bd::Array; using bd::HashTable; using vh::Rng; using vh::show;

static std::atomic<long> g_new{ 0 }, g_del{ 0 };
static std::atomic<unsigned> g_delay{ 0 };       // percent of allocator calls that are delayed
static thread_local uint64_t t_seed = 0;
static thread_local uint64_t t_delays = 0;
static std::atomic<uint64_t> g_sink{ 0 };
static inline void maybe_delay() {
  if (!t_seed) return;
  t_seed = t_seed * 6364136223846793005ull + 1442695040888963407ull;
  if ((t_seed >> 33) % 100 >= g_delay.load(std::memory_order_relaxed)) return;
  ++t_delays;
  if ((t_seed >> 50) & 1) sched_yield(); else { uint64_t x = t_seed; for (uint64_t k = (t_seed >> 20) % 1500; k; --k) x = x * 31 + k; g_sink.store(x, std::memory_order_relaxed); }
}
void* operator new(size_t n) { maybe_delay(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); g_new.fetch_add(1, std::memory_order_relaxed); return p; }
void* operator new[](size_t n) { return operator new(n); }
static void gone(void* p) { if (!p) return; maybe_delay(); g_del.fetch_add(1, std::memory_order_relaxed); free(p); }
void operator delete(void* p) noexcept { gone(p); }
void operator delete[](void* p) noexcept { gone(p); }
void operator delete(void* p, size_t) noexcept { gone(p); }
void operator delete[](void* p, size_t) noexcept { gone(p); }

/* an element whose copy takes a while */
struct Slow { int v; int w; Slow(int x = 0) : v(x), w(~x) {} Slow(const Slow& o) : v(o.v), w(0) { maybe_delay(); w = o.w; } Slow& operator=(const Slow& o) { v = o.v; maybe_delay(); w = o.w; return *this; } bool ok() const { return v == ~w; } friend bool operator==(const Slow& a, const Slow& b) { return a.v == b.v && a.w == b.w; } friend bool operator!=(const Slow& a, const Slow& b) { return !(a == b); } };
namespace std { template <> struct hash<Slow> { size_t operator()(const Slow& s) const { return size_t(s.v); } }; }

static std::mutex g_mx;
struct TLog { std::vector<std::string> l; };
static void tfail(TLog& lg, const char* key, const std::string& what) {
  g_mx.lock(); for (auto& s : lg.l) vh::op("  thread: %s", s.c_str()); vh::fail(key, "%s", what.c_str());
}
#define TCHK(c, key, what) do { ++evals; if (!(c)) tfail(lg, key, what); } while (0)

struct Barrier { std::atomic<int> n{ 0 }, gen{ 0 }; int tot; explicit Barrier(int t) : tot(t) {} void wait() { int g = gen.load(); if (n.fetch_add(1) + 1 == tot) { n.store(0); gen.fetch_add(1); } else { int k = 0; while (gen.load() == g) if (++k > 4000) sched_yield(); } } };

struct SH { String s; std::string m; };
struct AH { Array<String> a; std::vector<std::string> m; };
struct IH { Array<Slow> a; std::vector<int> m; };
static std::string rtext(Rng& r) { static const char* C = "abc abXY,12\n"; std::string s(r.chance(20) ? 40 + r.below(600) : r.below(24), 0); for (auto& c : s) c = r.chance(3) ? char(r.below(256)) : C[r.below(12)]; return s; }
static String S(const std::string& s) { return String(s.data(), s.size()); }
// The hash of a freshly built equal value, which no other thread can reach: which function it is, is the library's business.
static size_t freshHash(const std::string& s) { const String f(s.data(), s.size()); return f.hash(); }
static size_t freshHash(const std::vector<std::string>& v) { Array<String> f; for (auto& e : v) f << String(e.data(), e.size()); const Array<String>& c = f; return c.hash(); }

struct Worker {
  int id; Rng r; std::vector<std::unique_ptr<SH>> s; std::vector<std::unique_ptr<AH>> a; std::vector<std::unique_ptr<IH>> b; uint64_t evals = 0, steps = 0, delays = 0, sharedseen = 0, mailed = 0; TLog lg; uint64_t opc[256] = {};
  Worker(int i, uint64_t seed) : id(i), r(seed) {}
};
struct Mail { std::mutex mx; std::vector<std::unique_ptr<SH>> s; std::vector<std::unique_ptr<AH>> a; };

static void check_s(Worker& w, SH& h, const char* when) { TLog& lg = w.lg; uint64_t& evals = w.evals; std::string g(h.s); TCHK(g == h.m, "content", std::string(when) + ": a thread's own string reads " + show(g) + " expected " + show(h.m)); }
static void check_a(Worker& w, AH& h, const char* when) { TLog& lg = w.lg; uint64_t& evals = w.evals; const Array<String>& a = h.a; TCHK(a.length() == h.m.size(), "content", std::string(when) + ": array length"); for (size_t i = 0; i < h.m.size(); ++i) { std::string g(a[i]); TCHK(g == h.m[i], "content", std::string(when) + ": a thread's own array has element " + show(g) + " expected " + show(h.m[i])); } }
static void check_b(Worker& w, IH& h, const char* when) { TLog& lg = w.lg; uint64_t& evals = w.evals; const Array<Slow>& a = h.a; TCHK(a.length() == h.m.size(), "content", std::string(when) + ": array length"); for (size_t i = 0; i < h.m.size(); ++i) TCHK(a[i].ok() && a[i].v == h.m[i], "content", std::string(when) + ": a thread's own array has a torn or foreign element"); }

static void step_s(Worker& w, Mail& mail) {
  Rng& r = w.r; TLog& lg = w.lg; uint64_t& evals = w.evals;
  if (w.s.empty()) w.s.emplace_back(new SH);
  SH& h = *w.s[r.below(w.s.size())]; int o = int(r.below(40)); std::string t = rtext(r); size_t L = h.m.size(), p = r.below(L + 1);
  if (h.s.isShared()) ++w.sharedseen; ++w.opc[o];
  lg.l.push_back("string op " + std::to_string(o) + " on " + show(h.m)); if (lg.l.size() > 24) lg.l.erase(lg.l.begin());
  switch (o) {
    case 0: w.s.emplace_back(new SH{ h.s, h.m }); break;
    case 1: { std::unique_ptr<SH> n(new SH); ssize_t a = ssize_t(r.below(L + 2)), l = ssize_t(r.below(L + 2)); n->s = h.s.substring(a, l); n->m = size_t(a) >= L ? "" : h.m.substr(size_t(a), size_t(l)); w.s.push_back(std::move(n)); break; }
    case 2: if (w.s.size() > 1) w.s.erase(w.s.begin() + long(r.below(w.s.size()))); return;
    case 3: h.s += S(t); h.m += t; break;
    case 4: h.s.insert(p, S(t)); h.m.insert(p, t); break;
    case 5: if (L) { p = r.below(L); h.s[p] = 'Z'; h.m[p] = 'Z'; } break;
    case 6: if (L) { *h.s.begin() = 'q'; h.m[0] = 'q'; } break;
    case 7: if (L) { h.s.mdata()[L - 1] = 'w'; h.m[L - 1] = 'w'; } break;
    case 8: { const char* c = h.s.c_str(); TCHK(std::string(c, L) == h.m && c[L] == 0, "content", "c_str() of a thread's own string"); break; }
    case 9: { size_t x = h.s.hash(); TCHK(x == freshHash(h.m), "content", "hash of a thread's own string"); break; }
    case 10: { size_t n = r.below(L + 3); h.s += n; h.m = n >= L ? "" : h.m.substr(n); break; }
    case 11: { size_t n = r.below(L + 3); h.s -= n; h.m = n >= L ? "" : h.m.substr(0, L - n); break; }
    case 12: { SH& g = *w.s[r.below(w.s.size())]; h.s = g.s; h.m = g.m; break; }
    case 13: h.s.clear(); h.m.clear(); break;
    case 14: h.s.reserve(L + r.below(100)); break;
    case 15: h.s = std::string(t); h.m = t; break;
    case 16: if (L) { p = r.below(L); h.s(ssize_t(p), 1) = S("<>"); h.m.replace(p, 1, "<"); } break;
    case 17: { String d(h.s.sub("a", "bb")); std::string x; for (char c : h.m) if (c == 'a') x += "bb"; else x += c; TCHK(std::string(d) == x, "content", "sub of a thread's own string"); break; }
    case 18: { auto q = h.s.split(","); String j(q.join(",")); std::string x(h.m); if (!x.empty() && x.back() == ',') x.pop_back(); TCHK(std::string(j) == x, "content", "split and join of a thread's own string"); break; }
    case 19: { SH& g = *w.s[r.below(w.s.size())]; TCHK((h.s == g.s) == (h.m == g.m), "content", "comparison of a thread's own strings"); TCHK((h.s < g.s) == (h.m < g.m), "content", "comparison of a thread's own strings"); break; }
    case 20: { std::unique_ptr<SH> n(new SH{ h.s, h.m }); std::lock_guard<std::mutex> g(mail.mx); mail.s.push_back(std::move(n)); ++w.mailed; break; }
    case 21: { std::unique_ptr<SH> n; { std::lock_guard<std::mutex> g(mail.mx); if (!mail.s.empty()) { size_t k = r.below(mail.s.size()); n = std::move(mail.s[k]); mail.s.erase(mail.s.begin() + long(k)); } } if (n) { check_s(w, *n, "received string"); w.s.push_back(std::move(n)); } break; }
    case 22: { SH& g = *w.s[r.below(w.s.size())]; if (&g != &h) { h.s = std::move(g.s); h.m = g.m; g.m.clear(); check_s(w, g, "moved-from"); } break; }
    case 23: { char* d = h.s.dup(); TCHK(std::string(d, L) == h.m, "content", "dup of a thread's own string"); delete[] d; break; }
    case 24: { String x(h.s.trim()); h.s.chomp(); h.m = std::string(h.s); TCHK(h.m == std::string(x).substr(0, h.m.size()), "content", "chomp after trim"); break; }
    case 26: { int v = int(r.below(100000)); std::string pad(r.chance(10) ? 4000 + r.below(300) : r.below(30), char('a' + w.id)); String x(String::printf("%d-%s-%d", v, pad.c_str(), w.id)); TCHK(std::string(x) == std::to_string(v) + "-" + pad + "-" + std::to_string(w.id), "content", "formatted text of a thread"); break; }
    case 27: { std::string f = t.substr(0, 2); if (f.empty()) f = "a"; size_t x = h.s.find(S(f)), y = h.m.find(f); TCHK(x == (y == std::string::npos ? String::npos : y), "content", "find in a thread's own string"); size_t q = h.s.rfind(S(f)), z = h.m.rfind(f); TCHK(q == (z == std::string::npos ? String::npos : z), "content", "rfind in a thread's own string"); break; }
    case 28: { std::string u(h.m), f = t.substr(0, 2); if (f.empty()) f = "x"; auto up = [](std::string q) { for (auto& c : q) c = char(::toupper(c)); return q; }; size_t y = up(u).find(up(f)); TCHK(h.s.ifind(S(f)) == (y == std::string::npos ? String::npos : y), "content", "ifind in a thread's own string"); break; }
    case 29: { std::string first, rest; if (L) { size_t k = h.m.find(','); if (k == std::string::npos) first = h.m; else { first = h.m.substr(0, k); rest = h.m.substr(k + 1); } } String tok(newsplit(h.s, ',')); TCHK(std::string(tok) == first, "content", "token of a thread's own string"); h.m = rest; w.s.emplace_back(new SH{ tok, first }); break; }
    case 30: { String e(bd::base64Encode(h.s)); String d(bd::base64Decode(e)); TCHK(std::string(d) == h.m && e.length() == (L + 2) / 3 * 4, "content", "base64 of a thread's own string"); { char cs[65]; for (int q = 0; q < 64; ++q) cs[q] = bd::b64_charset[(q + w.id * 7) % 64]; cs[64] = 0; String e2(bd::base64Encode(h.s, cs)); String d2(bd::base64Decode(e2, cs)); TCHK(std::string(d2) == h.m, "content", "base64 of a thread's own string over its own characters"); } break; }
    case 31: { bd::Stream st(h.s); size_t k = r.below(L + 1); String a(st.read(k)); TCHK(std::string(a) == h.m.substr(0, k), "content", "a stream over a thread's own string"); st << "tail"; std::string m2 = h.m; m2.replace(k, std::min(size_t(4), L - k), "tail"); TCHK(std::string(String(st)) == m2, "content", "writing to a stream over a thread's own string"); break; }
    case 32: { std::ostringstream os; os << h.s; TCHK(os.str() == h.m, "content", "output of a thread's own string"); std::istringstream is("one two\nthree"); String x; is >> x; TCHK(std::string(x) == "one", "content", "input of a word in a thread"); getline(is, x); TCHK(std::string(x) == " two", "content", "input of a line in a thread"); break; }
    case 33: { HashTable<String, int> tab; for (auto& x : w.s) tab[x->s] = int(x->m.size()); TCHK(tab.contains(S(h.m)) && tab[S(h.m)] == int(L), "content", "a thread's own strings as keys"); break; }
    case 34: { HashTable<String, String> tab; tab["a"] = "<A>"; std::string x; for (char c : h.m) if (c == 'a') x += "<A>"; else x += c; TCHK(std::string(h.s.subst(tab)) == x, "content", "subst of a thread's own string"); break; }
    case 35: { size_t n = r.below(L + 40); h.s.resize(n, '#'); h.m.resize(n, '#'); break; }
    case 36: { h.s.replace(p, S(t)); if (h.m.size() < p + t.size()) h.m.resize(p + t.size()); h.m.replace(p, t.size(), t); break; }
    case 37: { if (L > 200) break; String x(h.s * 3); TCHK(std::string(x) == h.m + h.m + h.m, "content", "repetition of a thread's own string"); String y(h.s + x); TCHK(y.length() == 4 * L, "content", "concatenation of a thread's own strings"); break; }
    case 38: { std::string x(h.s.cbegin(), h.s.cend()), y(h.s.rbegin(), h.s.rend()); std::reverse(y.begin(), y.end()); TCHK(x == h.m && y == h.m, "content", "iteration of a thread's own string"); char buf[64]; size_t n = h.s.copy(buf, sizeof buf); TCHK(std::string(buf, n) == h.m.substr(0, 64), "content", "copying out of a thread's own string"); break; }
    default: { SH& g = *w.s[r.below(w.s.size())]; h.s += g.s; h.m += std::string(g.m); if (h.m.size() > 3000) { h.s.clear(); h.m.clear(); } break; }
  }
  check_s(w, h, "after the step");
  while (w.s.size() > 10) w.s.erase(w.s.begin() + long(r.below(w.s.size())));
}
static void step_a(Worker& w, Mail& mail) {
  Rng& r = w.r; TLog& lg = w.lg; uint64_t& evals = w.evals;
  if (w.a.empty()) w.a.emplace_back(new AH);
  AH& h = *w.a[r.below(w.a.size())]; int o = int(r.below(23)); std::string t = rtext(r); size_t L = h.m.size(), p = r.below(L + 1); if (h.a.isShared()) ++w.sharedseen; ++w.opc[100 + o];
  lg.l.push_back("array op " + std::to_string(o) + " length " + std::to_string(L)); if (lg.l.size() > 24) lg.l.erase(lg.l.begin());
  switch (o) {
    case 0: w.a.emplace_back(new AH{ h.a, h.m }); break;
    case 1: { std::unique_ptr<AH> n(new AH); ssize_t a = ssize_t(r.below(L + 2)), l = ssize_t(r.below(L + 2)); n->a = h.a.subarray(a, l); for (size_t i = size_t(a); i < L && i < size_t(a + l); ++i) n->m.push_back(h.m[i]); w.a.push_back(std::move(n)); break; }
    case 2: if (w.a.size() > 1) w.a.erase(w.a.begin() + long(r.below(w.a.size()))); return;
    case 3: h.a.push_back(S(t)); h.m.push_back(t); break;
    case 4: h.a.insert(p, S(t)); h.m.insert(h.m.begin() + long(p), t); break;
    case 5: if (L) { String x(h.a.pop()); TCHK(std::string(x) == h.m.back(), "content", "popped element"); h.m.pop_back(); } break;
    case 6: if (L) { String x(h.a.shift()); TCHK(std::string(x) == h.m.front(), "content", "shifted element"); h.m.erase(h.m.begin()); } break;
    case 7: if (L) { p = r.below(L); h.a[p] = S(t); h.m[p] = t; } break;
    case 8: if (L) { p = r.below(L); String x(h.a[p]); x += "!"; TCHK(std::string(x) == h.m[p] + "!", "content", "edited copy of an element"); const Array<String>& c = h.a; TCHK(std::string(c[p]) == h.m[p], "content", "element after its copy was edited"); } break;
    case 9: if (L) { p = r.below(L); String& x = h.a[p].mget(); x += "+"; h.m[p] += "+"; } break;
    case 10: { const Array<String>& c = h.a; size_t x = c.hash(); TCHK(x == freshHash(h.m), "content", "hash of a thread's own array"); break; }
    case 11: { String j(h.a.join("|")); std::string x; for (size_t i = 0; i < L; ++i) x += (i ? "|" : "") + h.m[i]; TCHK(std::string(j) == x, "content", "join of a thread's own array"); break; }
    case 12: { AH& g = *w.a[r.below(w.a.size())]; TCHK((h.a == g.a) == (h.m == g.m), "content", "comparison of arrays"); break; }
    case 13: { std::unique_ptr<AH> n(new AH{ h.a, h.m }); std::lock_guard<std::mutex> g(mail.mx); mail.a.push_back(std::move(n)); ++w.mailed; break; }
    case 14: { std::unique_ptr<AH> n; { std::lock_guard<std::mutex> g(mail.mx); if (!mail.a.empty()) { n = std::move(mail.a.back()); mail.a.pop_back(); } } if (n) { check_a(w, *n, "received array"); w.a.push_back(std::move(n)); } break; }
    case 15: { AH& g = *w.a[r.below(w.a.size())]; h.a = g.a; h.m = g.m; break; }
    case 16: { AH& g = *w.a[r.below(w.a.size())]; auto m2 = g.m; h.a += g.a; h.m.insert(h.m.end(), m2.begin(), m2.end()); break; }
    case 17: if (L) { p = r.below(L); Array<String> one(1, S(t)); h.a(ssize_t(p), 1) = one; h.m[p] = t; } break;
    case 18: { h.a.reserve(L + r.below(30)); const Array<String>& c = h.a; auto it = std::find(h.m.begin(), h.m.end(), t); TCHK(c.find(S(t)) == (it == h.m.end() ? Array<String>::npos : size_t(it - h.m.begin())), "content", "find in a thread's own array"); break; }
    case 19: if (L) { *h.a.begin() = S(t); h.m[0] = t; h.a.back() = S("b"); h.m.back() = "b"; } break;
    case 20: { HashTable<Array<String>, int> tab; for (auto& x : w.a) tab[x->a] = int(x->m.size()); TCHK(tab.contains(h.a), "content", "a thread's own arrays as keys"); break; }
    case 21: { h.a.slice(ssize_t(r.below(2)), ssize_t(L)); Array<String> c(h.a); h.m.clear(); const Array<String>& cc = c; for (size_t i = 0; i < cc.length(); ++i) h.m.push_back(std::string(cc[i])); break; }
    default: { if (L) { const Array<String>& c = h.a; p = r.below(L); size_t x = c[p].hash(); TCHK(x == freshHash(h.m[p]), "content", "hash of an element"); } h.a.resize(L + 1); h.a.write(L, S("r")); h.m.push_back("r"); break; }
  }
  check_a(w, h, "after the step");
  while (h.m.size() > 12) { h.a.pop_back(); h.m.pop_back(); }
  while (w.a.size() > 6) w.a.erase(w.a.begin() + long(r.below(w.a.size())));
}
static void step_b(Worker& w) {
  Rng& r = w.r; if (w.b.empty()) w.b.emplace_back(new IH); IH& h = *w.b[r.below(w.b.size())]; int o = int(r.below(8)); size_t L = h.m.size(); int v = int(r.below(1000)); if (h.a.isShared()) ++w.sharedseen; ++w.opc[200 + o];
  w.lg.l.push_back("element array op " + std::to_string(o) + " length " + std::to_string(L)); if (w.lg.l.size() > 24) w.lg.l.erase(w.lg.l.begin());
  switch (o) {
    case 0: w.b.emplace_back(new IH{ h.a, h.m }); break;
    case 1: if (w.b.size() > 1) w.b.erase(w.b.begin() + long(r.below(w.b.size()))); return;
    case 2: h.a.push_back(Slow(v)); h.m.push_back(v); break;
    case 3: if (L) { size_t p = r.below(L); h.a[p] = Slow(v); h.m[p] = v; } break;
    case 4: if (L) { h.a.pop(); h.m.pop_back(); } break;
    case 5: if (L) { h.a.front() = Slow(v); h.m[0] = v; } break;
    case 6: { Array<Slow> c(h.a); h.a.insert(size_t(0), Slow(v)); h.m.insert(h.m.begin(), v); break; }
    default: { IH& g = *w.b[r.below(w.b.size())]; h.a = g.a; h.m = g.m; }
  }
  check_b(w, h, "after the step"); while (h.m.size() > 20) { h.a.pop_back(); h.m.pop_back(); }
  while (w.b.size() > 6) w.b.erase(w.b.begin() + long(r.below(w.b.size())));
}
static void history(Rng& r, uint64_t no) {
  int nt = 2 + int(r.below(3)); g_delay = r.chance(30) ? 0 : r.chance(50) ? 5 : 30; int steps = 60 + int(r.below(240)); uint64_t kinds = r.below(3);
  long live0 = g_new.load() - g_del.load(); uint64_t evals = 0, delays = 0, shared = 0, mailed = 0, st = 0; static uint64_t opc[256]; memset(opc, 0, sizeof opc);
  {
    std::vector<std::unique_ptr<Worker>> w; Mail mail; Barrier bar(nt);
    for (int i = 0; i < nt; ++i) w.emplace_back(new Worker(i, r.next()));
    for (int k = 0; k < 4; ++k) { std::string t = rtext(r); SH b{ S(t), t }; if (r.chance(50)) { b.s.reserve(t.size() + r.below(20)); } if (r.chance(30) && t.size() > 3) { b.s = String(b.s).substring(1, ssize_t(t.size()) - 2); b.m = t.substr(1, t.size() - 2); } if (r.chance(30)) b.s.hash(); for (auto& x : w) x->s.emplace_back(new SH{ b.s, b.m }); }
    for (int k = 0; k < 3; ++k) { AH b; for (size_t n = r.below(6); n; --n) { std::string t = rtext(r); b.a.push_back(S(t)); b.m.push_back(t); } for (auto& x : w) x->a.emplace_back(new AH{ b.a, b.m }); IH c; for (size_t n = r.below(10); n; --n) { int v = int(r.below(1000)); c.a.push_back(Slow(v)); c.m.push_back(v); } for (auto& x : w) x->b.emplace_back(new IH{ c.a, c.m }); }
    std::vector<std::thread> th;
    for (int i = 0; i < nt; ++i) th.emplace_back([&, i] { Worker& x = *w[size_t(i)]; t_seed = x.r.next() | 1; t_delays = 0; bar.wait(); for (int k = 0; k < steps; ++k) { uint64_t z = x.r.below(10); if (kinds == 0 || (kinds == 1 && z < 5)) step_s(x, mail); else if (z < 8) step_a(x, mail); else step_b(x); ++x.steps; } for (auto& h : x.s) check_s(x, *h, "at the end"); for (auto& h : x.a) check_a(x, *h, "at the end"); for (auto& h : x.b) check_b(x, *h, "at the end"); if (x.r.chance(50)) { x.s.clear(); x.a.clear(); x.b.clear(); } x.delays = t_delays; t_seed = 0; });
    for (auto& t : th) t.join();
    for (auto& x : w) { evals += x->evals; delays += x->delays; shared += x->sharedseen; mailed += x->mailed; st += x->steps; for (int k = 0; k < 256; ++k) opc[k] += x->opc[k]; }
  }
  long live1 = g_new.load() - g_del.load(); vh::S().evals += evals;
  VH_CHECK(live1 == live0, "leak", "after a history in %d threads %ld blocks more are allocated than before", nt, live1 - live0);
  for (int k = 0; k < 256; ++k) if (opc[k]) vh::distinct(vh::mix(no, uint64_t(k)));
  vh::count("thread-steps", st); vh::count("delays", delays); vh::count("steps-on-shared-storage", shared); vh::count("handed-over", mailed); vh::count("histories");
}
/* All threads act at the same moment on values sharing one buffer. */
template <class V> struct Slot { std::unique_ptr<V> v; char pad[128]; };
static void rounds(Rng& r) {
  int nt = 2 + int(r.below(3)); int n = 60 + int(r.below(200)); g_delay = r.chance(60) ? 0 : 20; uint64_t seed = r.next(); long before = g_new.load() - g_del.load();
  std::atomic<uint64_t> coll{ 0 }; uint64_t evs = 0;
  {
    std::vector<Slot<SH>> s{}; s.resize(size_t(nt)); std::vector<Slot<AH>> a{}; a.resize(size_t(nt)); std::vector<Slot<IH>> b{}; b.resize(size_t(nt)); Barrier bar(nt); std::vector<std::thread> th; std::vector<uint64_t> ev(static_cast<size_t>(nt), 0);
    for (int i = 0; i < nt; ++i) th.emplace_back([&, i] {
      Worker w(i, vh::mix(seed, uint64_t(i))); Rng shared(seed); Mail none; uint64_t sd = w.r.next() | 1;
      for (int k = 0; k < n; ++k) {
        int what = int(shared.below(3)); uint64_t txt = shared.next(); bool slice = shared.chance(30); int uniform = shared.chance(50) ? int(shared.below(8)) : -1;
        if (i == 0) { Rng q(txt); if (what == 0) { std::string t = rtext(q) + "xyz"; String x(S(t)); std::string m = t; if (slice) { x = x.substring(1, ssize_t(t.size()) - 2); m = t.substr(1, t.size() - 2); } for (auto& z : s) z.v.reset(new SH{ x, m }); } else if (what == 1) { AH h; for (size_t e = 1 + q.below(4); e; --e) { std::string t = rtext(q); h.a.push_back(S(t)); h.m.push_back(t); } for (auto& z : a) z.v.reset(new AH{ h.a, h.m }); } else { IH h; for (size_t e = 1 + q.below(6); e; --e) { int v = int(q.below(100)); h.a.push_back(Slow(v)); h.m.push_back(v); } for (auto& z : b) z.v.reset(new IH{ h.a, h.m }); } }
        int act = uniform >= 0 ? uniform : int(w.r.below(8)); uint64_t spin = w.r.chance(50) ? w.r.below(60) : 0;
        bar.wait(); t_seed = sd; for (volatile uint64_t z = spin; z; --z) {} 
        if (what == 0) { SH& h = *s[size_t(i)].v; switch (act) { case 0: s[size_t(i)].v.reset(); break; case 1: h.s += 'x'; h.m += 'x'; break; case 2: h.s[0] = 'y'; h.m[0] = 'y'; break; case 3: (void)h.s.c_str(); break; case 4: h.s = String(); h.m.clear(); break; case 5: { String c(h.s); c += "z"; break; } case 6: h.s.clear(); h.m.clear(); break; default: h.s.reserve(h.m.size() + 50); (void)h.s.hash(); } if (s[size_t(i)].v) check_s(w, *s[size_t(i)].v, "in a round"); s[size_t(i)].v.reset(); }
        else if (what == 1) { AH& h = *a[size_t(i)].v; switch (act) { case 0: a[size_t(i)].v.reset(); break; case 1: h.a.push_back(S("x")); h.m.push_back("x"); break; case 2: h.a[0] = S("y"); h.m[0] = "y"; break; case 3: (void)h.a.hash(); break; case 4: { String p(h.a.pop()); p += "1"; h.m.pop_back(); break; } case 5: { String p(h.a.shift()); h.m.erase(h.m.begin()); break; } case 6: h.a.clear(); h.m.clear(); break; default: h.a[0].mget() += "t"; h.m[0] += "t"; } if (a[size_t(i)].v) check_a(w, *a[size_t(i)].v, "in a round"); a[size_t(i)].v.reset(); }
        else { IH& h = *b[size_t(i)].v; switch (act & 3) { case 0: b[size_t(i)].v.reset(); break; case 1: h.a.push_back(Slow(3)); h.m.push_back(3); break; case 2: h.a[0] = Slow(4); h.m[0] = 4; break; default: h.a.begin()[0] = Slow(9); h.m[0] = 9; } if (b[size_t(i)].v) check_b(w, *b[size_t(i)].v, "in a round"); b[size_t(i)].v.reset(); }
        sd = t_seed; t_seed = 0; bar.wait(); ++w.steps;
      }
      ev[size_t(i)] = w.evals; coll += w.steps;
    });
    for (auto& t : th) t.join();
    for (auto x : ev) evs += x;
  }
  long after = g_new.load() - g_del.load(); vh::S().evals += evs;
  VH_CHECK(after == before, "leak", "after %d rounds in %d threads %ld blocks more are allocated than before", n, nt, after - before);
  vh::count("rounds", uint64_t(n)); vh::count("round-actions", coll); vh::distinct(seed);
}
static void run_case(Rng& r, uint64_t no) {
  bool R = vh::S().mode == "R";
  if (R ? r.chance(85) : r.chance(25)) rounds(r);
  else history(r, no);
#ifdef HAVE_LSAN
  if (no % 64 == 63) { VH_CHECK(__lsan_do_recoverable_leak_check() == 0, "leak", "LeakSanitizer found a leak"); }
#endif
}
int main(int argc, char** argv) { vh::S().counters["rounds"]; vh::S().counters["round-actions"]; return vh::drive(argc, argv, run_case); }
