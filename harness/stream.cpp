/* Stream histories against a plain buffer with a cursor. */
#include "vh.hpp"
#include "Stream.h"
#include <memory>
using bd::String; using bd::Stream; using vh::Rng; using vh::op; using vh::show;
struct H { std::unique_ptr<Stream> s; std::string m; size_t p = 0; };
struct X { String s; std::string m; };
static std::string rtext(Rng& r) { size_t n = r.below(3000) == 0 ? 60000 + r.below(80000) : r.chance(6) ? r.below(5000) : r.chance(15) ? 0 : r.below(30); static const char* A[] = { "ab\n", "\n", "abcdefgh \n", "xy" }; const char* a = A[r.below(4)]; bool bin = r.chance(20); std::string s(n, 0); for (auto& c : s) c = bin ? char(r.below(256)) : a[r.below(strlen(a))]; return s; }
static void run_case(Rng& r, uint64_t no) {
  std::vector<H> pool(2 + r.below(3)); std::vector<X> out;
  for (auto& h : pool) h.s.reset(new Stream);
  auto verify = [&](const char* what) {
    for (size_t i = 0; i < pool.size(); ++i) { const Stream& s = *pool[i].s; auto& m = pool[i].m; String c(s); VH_CHECK(std::string(c) == m && s.length() == m.size() && !s == m.empty(), "content", "stream %zu after %s: %s expected %s", i, what, show(std::string(c)).c_str(), show(m).c_str()); VH_CHECK(s.tell() == pool[i].p, "cursor", "stream %zu after %s: cursor %zu expected %zu", i, what, s.tell(), pool[i].p); VH_CHECK(s.capacity() >= s.length(), "capacity", "capacity below length"); VH_CHECK(s.tell() <= std::max(s.capacity(), s.length()), "cursor", "cursor %zu outside the buffer of %zu", s.tell(), s.capacity()); }
    for (auto& x : out) VH_CHECK(std::string(x.s) == x.m, "independent", "a string taken from a stream changed after %s: %s expected %s", what, show(std::string(x.s)).c_str(), show(x.m).c_str());
  };
  size_t steps = 10 + r.below(60);
  for (size_t i = 0; i < steps; ++i) {
    size_t hi = r.below(pool.size()); H& h = pool[hi]; Stream& s = *h.s; const char* what = ""; int w = int(r.below(20));
    vh::distinct(vh::mix(vh::mix(vh::hstr(h.m.data(), h.m.size()), h.p), uint64_t(w)));
    switch (w) {
      case 0: case 1: case 2: case 3: case 4: { what = "puts"; std::string x = rtext(r); String a(x.data(), x.size()); int k = int(r.below(6)); if (k == 4) { a = String(s); x = h.m; } if (k == 5) { a = s.peek(); x = h.p < h.m.size() ? h.m.substr(h.p) : ""; } if (h.m.size() + x.size() > 250000) break; op("s%zu puts %s kind %d at %zu", hi, show(x).c_str(), k, h.p); bool bad = h.p > h.m.size(), threw = false;
        try { switch (k) { case 0: s.puts(a); break; case 1: s.puts(String(a)); break; case 2: s << a; break; case 3: s << String(a); break; case 4: s.puts(a); break; default: s << s.peek(); } } catch (const std::out_of_range&) { threw = true; }
        VH_CHECK(threw == bad, "range", "puts at %zu of %zu bytes %s", h.p, h.m.size(), threw ? "threw" : "was accepted"); if (!bad) { if (h.m.size() < h.p + x.size()) h.m.resize(h.p + x.size()); h.m.replace(h.p, x.size(), x); h.p += x.size(); } break; }
      case 5: case 6: case 7: { what = "read"; size_t n = r.chance(10) ? size_t(-1) >> r.below(2) : r.chance(10) ? 0 : r.below(h.m.size() + 5); int dl = r.chance(50) ? 0 : r.chance(60) ? '\n' : 'a'; op("s%zu read(%zu, %d) at %zu", hi, n, dl, h.p); size_t left = h.p < h.m.size() ? h.m.size() - h.p : 0; std::string want = left ? h.m.substr(h.p, n) : ""; if (dl) { size_t f = want.find(char(dl)); if (f != std::string::npos) want.resize(f + 1); } String got(dl ? s.read(n, char(dl)) : s.read(n)); VH_CHECK(std::string(got) == want, "read", "read(%zu,%d) at %zu gave %s expected %s", n, dl, h.p, show(std::string(got)).c_str(), show(want).c_str()); h.p += want.size(); if (out.size() < 8) out.push_back({ got, want }); break; }
      case 8: case 9: { what = "getline"; bool lim = r.chance(30); size_t n = r.below(12); op("s%zu getline(%zd) at %zu", hi, lim ? ssize_t(n) : -1, h.p); std::string want = h.p < h.m.size() ? h.m.substr(h.p, lim ? n : std::string::npos) : ""; size_t f = want.find('\n'); if (f != std::string::npos) want.resize(f + 1); String got(lim ? s.getline(n) : s.getline()); VH_CHECK(std::string(got) == want, "getline", "getline gave %s expected %s", show(std::string(got)).c_str(), show(want).c_str()); h.p += want.size(); if (out.size() < 8) out.push_back({ got, want }); break; }
      case 10: case 11: case 12: { what = "seek"; long long cap = (long long)s.capacity(); int off; switch (r.below(8)) { case 0: off = INT_MAX; break; case 1: off = INT_MIN; break; case 2: off = 0; break; case 3: off = int(h.m.size()); break; default: off = int(r.range(-5, (long long)h.m.size() + 5)); } int wh = int(r.below(r.chance(5) ? 4 : 3)); long long np = wh == 0 ? off : wh == 1 ? (long long)h.p + off : wh == 2 ? cap - off : (long long)h.p; np = std::max(0LL, std::min(np, cap)); op("s%zu seek(%d,%d)", hi, off, wh); int ret = s.seek(off, wh); VH_CHECK(ret == np && s.tell() == size_t(np), "seek", "seek(%d,%d) from %zu with capacity %lld gave %d", off, wh, h.p, cap, ret); h.p = size_t(np); if (h.p > h.m.size() && r.chance(70)) { s.seek(int(h.m.size()), 0); h.p = h.m.size(); } break; }
      case 13: { what = "peek"; op("s%zu peek", hi); std::string want = h.p < h.m.size() ? h.m.substr(h.p) : ""; String got(s.peek()); VH_CHECK(std::string(got) == want, "peek", "peek gave %s", show(std::string(got)).c_str()); if (out.size() < 8) out.push_back({ got, want }); break; }
      case 14: { what = "truncate"; op("s%zu truncate at %zu", hi, h.p); s.truncate(); if (h.p < h.m.size()) h.m.resize(h.p); break; }
      case 15: { what = "clear"; op("s%zu clear", hi); s.clear(); h.m.clear(); h.p = 0; break; }
      case 16: { what = "copy"; size_t o = r.below(pool.size()); op("s%zu = s%zu", hi, o); int ck = int(r.below(4)); if (ck == 0) { s = std::move(*pool[o].s); std::string t(pool[o].m); size_t tp = pool[o].p; pool[o].m.clear(); pool[o].p = 0; h.m = t; h.p = tp; break; } if (ck == 1) s = *pool[o].s; else h.s.reset(new Stream(*pool[o].s)); h.m = std::string(pool[o].m); h.p = pool[o].p; break; }
      case 17: { what = "ctor"; int k = int(r.below(5)); op("s%zu = new kind %d", hi, k); std::string x = rtext(r); String a(x.data(), x.size()); h.p = 0; switch (k) { case 0: h.s.reset(new Stream); h.m.clear(); break; case 1: h.s.reset(new Stream(int(r.range(-3, 3000)))); h.m.clear(); break; case 2: h.s.reset(new Stream(a)); h.m = x; if (out.size() < 8) out.push_back({ a, x }); break; case 3: h.s.reset(new Stream(String(a))); h.m = x; break; default: { size_t o = r.below(pool.size()); if (o == hi) { h.s.reset(new Stream); h.m.clear(); break; } h.s.reset(new Stream(std::move(*pool[o].s))); h.m = pool[o].m; h.p = pool[o].p; if (r.chance(40)) pool[o].s.reset(new Stream); pool[o].m.clear(); pool[o].p = 0; /* moved from: empty */ } } break; }
      case 18: { what = "reserve"; size_t n = r.below(6000); op("s%zu reserve(%zu)", hi, n); s.reserve(n); VH_CHECK(s.capacity() >= n, "capacity", "reserve(%zu) left %zu", n, s.capacity()); break; }
      default: { what = "swap"; size_t o = r.below(pool.size()); if (o == hi) break; op("swap s%zu s%zu", hi, o); swap(s, *pool[o].s); std::swap(h.m, pool[o].m); std::swap(h.p, pool[o].p); break; }
    }
    /* a copy made by an assignment may have another capacity */
    verify(what); vh::count(std::string("op:") + what);
    if (out.size() >= 8) out.erase(out.begin() + long(r.below(out.size())));
  }
#ifdef HAVE_LSAN
  if (no % 512 == 511) { pool.clear(); out.clear(); VH_CHECK(__lsan_do_recoverable_leak_check() == 0, "leak", "LeakSanitizer found a leak"); }
#else
  (void)no;
#endif
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
