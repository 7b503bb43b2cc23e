/* Formatted construction against vsnprintf; ostream output against the bytes;
 * istream input in lock step with std::string on an identical stream. */
#include "vh.hpp"
#include "String.h"
#include <iostream>
#include <memory>
#include <sstream>
using bd::String; using vh::Rng; using vh::op; using vh::show;
struct H { String s; std::string m; };
static std::string fmt_ref(const char* f, ...) {
  va_list a, b; va_start(a, f); va_copy(b, a); int n = vsnprintf(nullptr, 0, f, a); va_end(a);
  std::string r(size_t(n) + 1, 0); vsnprintf(&r[0], r.size(), f, b); va_end(b); r.resize(size_t(n)); return r;
}
#define FMT(...) do { got = String::printf(__VA_ARGS__); want = fmt_ref(__VA_ARGS__); } while (0)
static size_t rlen(Rng& r) {
  static const size_t B[] = { 0, 1, 15, 16, 31, 32, 63, 64, 127, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16384, 65535, 65536 };
  if (r.chance(45)) return r.below(40);
  size_t b = B[r.below(sizeof B / sizeof *B)]; long d = long(r.range(-3, 3));
  return long(b) + d < 0 ? 0 : size_t(long(b) + d);
}
static std::string rtext(Rng& r, size_t n, int kind) {
  static const char* A[] = { "ab", "a %sd", " \t\n\v\f\r x", "ab \n", "\nab", "abcdefgh" };
  std::string s(n, 0); const char* a = A[kind % 6];
  for (auto& c : s) c = kind == 6 ? char(r.below(256)) : kind == 7 ? char(1 + r.below(255)) : a[r.below(strlen(a))];
  return s;
}
/* hands out its text in blocks of a chosen size */
struct Chunk : std::streambuf {
  std::string t; size_t pos = 0, step; std::vector<char> buf;
  Chunk(const std::string& x, size_t st) : t(x), step(st), buf(st) {}
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    size_t n = std::min(step, t.size() - pos); if (!n) return traits_type::eof();
    memcpy(buf.data(), t.data() + pos, n); pos += n; setg(buf.data(), buf.data(), buf.data() + n); return traits_type::to_int_type(*gptr());
  }
};
static void verify(std::vector<H>& pool, const char* what) {
  for (size_t i = 0; i < pool.size(); ++i) { const String& s = pool[i].s; VH_CHECK(s.length() == pool[i].m.size() && !memcmp(s.data(), pool[i].m.data(), pool[i].m.size()), "content", "string %zu after %s: %s expected %s", i, what, show(s.data(), s.length()).c_str(), show(pool[i].m).c_str()); }
}
static void do_printf(Rng& r, std::vector<H>& pool) {
  String got; std::string want; int k = int(r.below(14)); size_t n = rlen(r); std::string t = rtext(r, n, r.chance(50) ? 7 : 1); const char* p = t.c_str();
  long v = long(r.next() >> r.below(60)); if (r.chance(40)) v = -v;
  op("printf kind %d length %zu", k, n); vh::count("printf:kind" + std::to_string(k));
  switch (k) {
    case 0: FMT("%s", p); break;
    case 1: FMT("%.*s", int(n / 2), p); break;
    case 2: FMT("%*d", int(n), int(v)); break;
    case 3: FMT("%-*d|", int(n), int(v)); break;
    case 4: { char ch = char(r.below(256)); FMT("%s%c%s", p, ch, p); break; }
    case 5: FMT("%ld %lu %lx %lo %zu", v, (unsigned long)v, (unsigned long)v, (unsigned long)v, n); break;
    case 6: FMT("100%% %s %d%%", p, int(v)); break;
    case 7: FMT("%.*f", int(n % 5000), double(v) / 3); break;
    case 8: FMT("%s-%d-%s", p, int(v), "tail"); break;
    case 9: FMT("%d%s", int(v), p); break;
    case 10: FMT("%p %e %g %s", (void*)p, double(v), 1.0 / double(v ? v : 1), p); break;
    case 11: { std::string f; for (size_t i = 0; i < n; ++i) f += t[i] == '%' ? '.' : t[i]; const char* fp = f.c_str(); got = String::printf(fp, 0); want = f; break; }   /* no conversions: the text itself */
    case 12: FMT("%0*d", int(n), int(v)); break;
    default: FMT("%c%s%c", 0, p, 0); break;
  }
  VH_CHECK(got.length() == want.size() && !memcmp(got.data(), want.data(), want.size()), "printf", "kind %d: %zu bytes expected %zu (%s / %s)", k, got.length(), want.size(), show(got.data(), got.length()).c_str(), show(want).c_str());
  VH_CHECK(got.c_str()[want.size()] == 0, "printf-terminator", "not terminated");
  vh::distinct(vh::mix(vh::mix(1, uint64_t(k)), want.size())); if (want.size() >= 4096) vh::count("printf:long");
  H& h = r.pick(pool); h.s = got; h.m = want;
}
static void do_out(Rng& r, std::vector<H>& pool) {
  std::ostringstream os; std::string want; size_t n = 1 + r.below(5); op("output of %zu pieces", n);
  for (size_t i = 0; i < n; ++i) {
    H& h = r.pick(pool); int k = int(r.below(9)); size_t a = r.below(h.m.size() + 1), l = r.below(h.m.size() + 1); std::string sub = h.m.substr(a, l);
    std::string was = os.str();
    switch (k) {
      case 0: os << h.s; want += h.m; break;
      case 1: { const String c(h.s); os << c; want += h.m; break; }
      case 2: { String c(h.s(int(a), int(l))); os << c; want += sub; break; }
      case 3: os << h.s(int(a), int(l)); want += sub; break;
      case 4: os << String(h.s); want += h.m; break;
      case 5: os << (h.s + h.s); want += h.m + h.m; break;
      case 6: { String own(h.m.data(), h.m.size()); os << std::move(own); want += h.m; break; }
      case 7: { String c(h.s); os << std::move(c); want += h.m; break; }
      default: os << "<" << h.s << ">" << String() << 7; want += "<" + h.m + ">7"; break;
    }
    VH_CHECK(os.good(), "out-state", "output failed"); VH_CHECK(os.str() == want, "output", "kind %d wrote %s expected %s", k, show(os.str()).c_str(), show(want).c_str());
    vh::distinct(vh::mix(vh::mix(2, uint64_t(k)), vh::hstr(want.data(), want.size()))); vh::count("output:kind" + std::to_string(k));
  }
}
static void do_in(Rng& r, std::vector<H>& pool) {
  std::string t = rtext(r, r.chance(5) ? rlen(r) % 5000 : r.below(60), int(r.below(8))); if (r.chance(20)) t = "ab\ncd" + t; if (r.chance(20)) t += "\n"; if (r.chance(20)) t += "end";
  size_t step = r.chance(50) ? 0 : 1 + r.below(7); std::unique_ptr<std::istream> is, ref(new std::istringstream(t)); std::unique_ptr<Chunk> cb;
  if (step) { cb.reset(new Chunk(t, step)); is.reset(new std::istream(cb.get())); } else is.reset(new std::istringstream(t));
  op("input %s in blocks of %zu", show(t).c_str(), step);
  int style = int(r.below(4)); bool eofs = false;
  for (size_t guard = 0; guard < t.size() + 6; ++guard) {
    H& h = r.pick(pool); int k = style == 0 ? 0 : style == 1 ? 1 : int(r.below(3)); std::string want; bool ok;
    if (k == 2) { char a = 0, b = 0; is->get(a); ref->get(b); VH_CHECK(a == b && bool(*is) == bool(*ref), "in-sync", "the next byte is %d expected %d", a, b); if (!*ref) break; continue; }
    if (k == 0) { *is >> h.s; ok = bool(*ref >> want); } else { getline(*is, h.s); ok = bool(std::getline(*ref, want)); }
    vh::distinct(vh::mix(vh::mix(vh::mix(3, uint64_t(k)), vh::hstr(t.data(), t.size())), guard)); vh::count(k ? "input:lines" : "input:words");
    VH_CHECK(bool(*is) == ok, "in-state", "%s of %s %s, expected %s", k ? "getline" : ">>", show(t).c_str(), *is ? "succeeded" : "failed", ok ? "success" : "failure");
    VH_CHECK(is->eof() == ref->eof() && is->bad() == ref->bad(), "in-state", "%s: end-of-file %d bad %d expected %d %d", k ? "getline" : ">>", is->eof(), is->bad(), ref->eof(), ref->bad());
    if (!ok) { h.s = ""; h.m.clear(); eofs = true; break; }
    VH_CHECK(h.s.length() == want.size() && !memcmp(h.s.data(), want.data(), want.size()), "input", "%s read %s expected %s", k ? "getline" : ">>", show(h.s.data(), h.s.length()).c_str(), show(want).c_str());
    h.m = want; if (t.size() < 200 || guard % 64 == 0) verify(pool, "input");
  }
  if (eofs && !is->bad()) { VH_CHECK(is->eof(), "in-state", "failed before the end"); vh::count("input:to the end"); }
}
static void run_case(Rng& r, uint64_t no) {
  std::vector<H> pool(3);
  for (auto& h : pool) { h.m = rtext(r, r.chance(10) ? rlen(r) : r.below(40), int(r.below(8))); h.s = String(h.m.data(), h.m.size()); }
  size_t steps = 4 + r.below(16);
  for (size_t i = 0; i < steps; ++i) {
    switch (r.below(5)) {
      case 0: { H &a = r.pick(pool), &b = r.pick(pool); size_t x = r.below(b.m.size() + 1), n = r.below(b.m.size() + 1); op("share"); std::string sub = b.m.substr(x, n); a.s = String(b.s(int(x), int(n))); a.m = sub; break; }
      case 1: do_out(r, pool); break;
      case 2: do_printf(r, pool); break;
      default: do_in(r, pool); break;
    }
    verify(pool, "a step");
    for (auto& h : pool) if (h.m.size() > 20000) { h.s = ""; h.m.clear(); }
  }
#ifdef HAVE_LSAN
  if (no % 512 == 511) { pool.clear(); VH_CHECK(__lsan_do_recoverable_leak_check() == 0, "leak", "LeakSanitizer found a leak"); }
#else
  (void)no;
#endif
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
