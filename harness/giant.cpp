/* Lengths beyond 2^32: every narrowing of a length or position to 32 bits
 * changes the result.  A handful of fixed cases; skipped when the machine
 * lacks the memory.  The reference is a run of one byte with a few others. */
#include "vh.hpp"
#include <memory>
#include <new>
#include "String.h"
#include "Array.h"
#include "Stream.h"
#include "base64.h"
#include "Cstrings.h"
using bd::String; using bd::Array; using bd::Stream; using vh::Rng; using vh::op;
static const size_t G = size_t(1) << 32;

/* storage handed back is looked at, when asked for */
static const char* watch_p; static std::vector<size_t> watch_at; static char watch_c; static bool watch_left, watch_seen;
static void look(void* p) { if (p && p == watch_p) { watch_seen = true; watch_p = nullptr; for (size_t a : watch_at) if (static_cast<char*>(p)[a] == watch_c) watch_left = true; } }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { look(p); free(p); }
void operator delete(void* p, size_t) noexcept { look(p); free(p); }

static bool room(size_t gb) {
  FILE* f = fopen("/proc/meminfo", "r"); if (!f) return false;
  char l[256]; unsigned long long kb = 0; while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu", &kb) == 1) break;
  fclose(f); return kb / 1024 / 1024 >= gb;
}
/* n bytes d, except those in at */
struct Run {
  size_t n; char d; std::map<size_t, char> at;
  char operator[](size_t i) const { auto f = at.find(i); return f == at.end() ? d : f->second; }
  void put(size_t p, const std::string& s) { for (size_t i = 0; i < s.size(); ++i) at[p + i] = s[i]; n = std::max(n, p + s.size()); }
  void ins(size_t p, const std::string& s) { std::map<size_t, char> m; for (auto& kv : at) m[kv.first >= p ? kv.first + s.size() : kv.first] = kv.second; at.swap(m); for (size_t i = 0; i < s.size(); ++i) at[p + i] = s[i]; n += s.size(); }
  Run part(size_t a, size_t len) const { Run r{ len, d, {} }; for (auto& kv : at) if (kv.first >= a && kv.first < a + len) r.at[kv.first - a] = kv.second; return r; }
  bool same(const char* p, size_t len) const {
    if (len != n) return false;
    size_t a = 0; auto plain = [&](size_t e) { return e <= a || (p[a] == d && !memcmp(p + a, p + a + 1, e - a - 1)); };
    for (auto& kv : at) { if (!plain(kv.first) || p[kv.first] != kv.second) return false; a = kv.first + 1; }
    return plain(n);
  }
};
static void eq(const String& s, const Run& m, const char* key, const char* what) {
  VH_CHECK(s.length() == m.n, key, "%s: length %zu, expected %zu", what, s.length(), m.n);
  VH_CHECK(m.same(s.data(), s.length()), key, "%s: wrong content of %zu bytes", what, m.n);
}
static String make(Run& m, size_t n, char d, size_t spare = 0) { m = Run{ n, d, {} }; String s(n + spare); s.resize(n, d); return s; }

static void edit(Rng& r) {
  size_t k = 20 + r.below(1000); Run m; String s = make(m, G + k, 'x', 64);
  op("%zu bytes", G + k); s.replace(G - 2, "ABCDE"); m.put(G - 2, "ABCDE"); eq(s, m, "content", "replace across 2^32");
  s.insert(G + 7, "QQ"); m.ins(G + 7, "QQ"); s.append("tail"); m.ins(m.n, "tail"); s += 'c'; m.ins(m.n, "c"); s += String("zz"); m.ins(m.n, "zz");
  s.insert(size_t(5), String("hd")); m.ins(5, "hd"); s[G + 11] = '*'; m.put(G + 11, "*"); eq(s, m, "content", "insertions and appends");
  { String t(s); t.replace(G + 1, String("!?"), 1); Run tm = m; tm.put(G + 1, "!"); eq(t, tm, "content", "the edited copy"); eq(s, m, "content", "the original of an edited copy"); }
  s.resize(m.n - 3); m = m.part(0, m.n - 3); s += size_t(G + 2); m = m.part(G + 2, m.n - G - 2); eq(s, m, "content", "dropping the front"); s += "end"; m.ins(m.n, "end"); eq(s, m, "content", "appending to what is left");
}
static void search(Rng& r) {
  size_t k = 40 + r.below(1000); Run m; String s = make(m, G + k, 'x'); s.replace(G + 9, "needle"); s.replace(G + 30, "#"); const String& c = s;
  op("%zu bytes", G + k);
  VH_CHECK(c.find(String("needle")) == G + 9, "find", "find gives %zu", c.find(String("needle")));
  VH_CHECK(c.find(String("needle"), G + 2) == 7, "find", "find from 2^32+2 gives %zu", c.find(String("needle"), G + 2));
  VH_CHECK(c.find(String("needle"), G + 10) == String::npos, "find", "found after its place");
  VH_CHECK(c.find('#') == G + 30, "find", "find of a character gives %zu", c.find('#')); VH_CHECK(c.rfind('n') == G + 9, "rfind", "rfind of a character gives %zu", c.rfind('n'));
  VH_CHECK(c.rfind(String("needle")) == G + 9, "rfind", "rfind gives %zu", c.rfind(String("needle"))); VH_CHECK(c.rfind(String("needle"), G + 10) == String::npos, "rfind", "rfind found below its limit");
  VH_CHECK(c.rfind(String("needle"), G + 1) == G + 9, "rfind", "rfind with a limit gives %zu", c.rfind(String("needle"), G + 1));
  s.replace(G + 9, "xxxxxx"); s.replace(G + 30, "x");
  for (size_t d : { size_t(1), G / 2 - 1, G / 2, G / 2 + 3, G - 1, G, G + 1 }) {
    String t = c(0, ssize_t(s.length() - d)); op("against one %zu shorter", d);
    VH_CHECK(s.compare(t) > 0 && t.compare(s) < 0, "compare", "a string and its beginning, %zu shorter: %d and %d", d, s.compare(t), t.compare(s));
    VH_CHECK(t < s && s > t && t <= s && !(s <= t) && !(s == t) && s != t, "compare", "comparison operators, %zu shorter", d);
    VH_CHECK(s.compare(t, s.length()) > 0 && t.compare(s, s.length()) < 0, "compare", "limited comparison, %zu shorter", d); VH_CHECK(s.compare(t, t.length()) == 0, "compare", "comparison limited to the shorter");
  }
  String t = c(ssize_t(1)); VH_CHECK(s.compare(t) > 0, "compare", "a string and its end"); String e = c(0, ssize_t(G)); e.replace(G - 1, 'y'); VH_CHECK(e.compare(s) > 0 && s.compare(e) < 0 && s != e, "compare", "difference at 2^32-1 not seen");
}
static void views(Rng& r) {
  size_t k = 20 + r.below(1000); Run m; String s = make(m, G + k, 'x'); s.replace(G + 3, "AB"); m.put(G + 3, "AB"); op("%zu bytes", G + k);
  { String t(s); t -= size_t(1); Run tm = m.part(0, m.n - 1); const char* z = t.c_str(); VH_CHECK(z[tm.n] == 0 && strlen(z) == tm.n, "cstr", "the view of %zu bytes has %zu", tm.n, strlen(z)); eq(s, m, "content", "a view of a copy"); }
  { std::unique_ptr<char[]> d(s.dup()); VH_CHECK(d[m.n] == 0 && m.same(d.get(), m.n), "dup", "the duplicate differs"); VH_CHECK(s.copy(d.get(), G + 4) == G + 4 && d[G + 3] == 'A', "copy", "copy of 2^32+4 bytes"); }
  { std::string o(s); VH_CHECK(m.same(o.data(), o.size()), "tostd", "std::string differs"); s = String(); String b(o); eq(b, m, "fromstd", "from std::string"); VH_CHECK(b[G + 4] == 'B' && b.at(G + 3) == 'A' && b.charAt(G + 4) == 'B', "index", "indexing above 2^32"); }
}
static void slices(Rng& r) {
  size_t k = 50 + r.below(1000); Run m; String s = make(m, G + k, 'x'); for (size_t p : { size_t(0), G / 2, G - 1, G, G + 17 }) { s.replace(p, "S"); m.put(p, "S"); }
  const String& c = s; op("%zu bytes", G + k);
  struct { ssize_t a, b; } A[] = { { ssize_t(G), -1 }, { ssize_t(G), 20 }, { ssize_t(G + 3), ssize_t(G) }, { -ssize_t(k), 30 }, { -ssize_t(G), ssize_t(G - 5) }, { 4, ssize_t(G + 1) }, { 3, -ssize_t(G) }, { ssize_t(G / 2), -ssize_t(G / 2) }, { -ssize_t(G + k + 9), ssize_t(G) }, { ssize_t(G + k), 3 }, { 0, ssize_t(G / 2 + 1) }, { ssize_t(G - 1), -3 } };
  for (auto& x : A) {
    ssize_t n = ssize_t(m.n), a = x.a >= n ? n : x.a < 0 ? std::max<ssize_t>(n + x.a, 0) : x.a, l = x.b == -1 || x.b >= n - a ? n - a : x.b < 0 ? std::max<ssize_t>(n - a + x.b, 0) : x.b;
    op("(%zd, %zd)", x.a, x.b); eq(c(x.a, x.b), m.part(size_t(a), size_t(l)), "slice", "slice"); String t(s); t.slice(x.a, x.b); eq(t, m.part(size_t(a), size_t(l)), "slice", "slice in place");
  }
  { Array<char> b(G + 60, 'q'); b.replace(G + 5, 'z'); const Array<char>& cb = b; VH_CHECK(cb.subarray(ssize_t(G + 1), 10).length() == 10 && cb.subarray(ssize_t(G + 1), 10).find('z') == 4, "slice", "subarray above 2^32"); VH_CHECK(cb.find('z') == G + 5 && cb.rfind('z') == G + 5, "slice", "find in a large array"); VH_CHECK(cb.subarray(-55).length() == 55 && cb.subarray(-55)[0] == 'z', "slice", "subarray counted from the end"); Array<char> f(b); f += 100; VH_CHECK(f.length() == G - 40 && f.find('z') == G - 95, "slice", "dropping from the front of an array of 2^32 + 60"); f = b; f -= 100; VH_CHECK(f.length() == G - 40 && f.find('z') == size_t(-1), "slice", "dropping from the back of an array of 2^32 + 60"); b.resize(G / 2 + 5); f = b; f += 7; VH_CHECK(f.length() == G / 2 - 2, "slice", "dropping from the front of an array of 2^31 + 5"); }
}
static void tokens(Rng& r) {
  size_t k = 50 + r.below(1000); Run m; String s = make(m, G + k, ' '); s.replace(G + 4, "a,b"); m.put(G + 4, "a,b"); s.replace(2, ","); m.put(2, ",");
  const String& c = s; op("%zu bytes", G + k);
  auto f = c.split(","); const auto& cf = f; VH_CHECK(cf.length() == 3, "split", "%zu fields", cf.length()); eq(cf[0], m.part(0, 2), "split", "first field"); eq(cf[1], m.part(3, G + 2), "split", "field of 2^32+2 bytes"); eq(cf[2], m.part(G + 6, m.n - G - 6), "split", "last field");
  f = Array<String>(); auto g = c(3).split(" "); VH_CHECK(g.length() == 1 && static_cast<const Array<String>&>(g)[0] == "a,b", "split", "words after 2^32 blanks"); g = Array<String>();
  { String t(c(3)); t.trim(); VH_CHECK(t == "a,b", "trim", "trim over 2^32 blanks leaves %zu bytes", t.length()); }
  { String t(c(3)); String w = bd::newsplit(t, ','); Run wm = m.part(3, G + 2); eq(w, wm, "newsplit", "token"); VH_CHECK(t.length() == m.n - G - 6, "newsplit", "%zu bytes left", t.length()); w = String(); VH_CHECK(String(c(2)).trim().length() == G + 5, "trim", "trim of the end"); }
  { String t = c.sub("a,b", "<>"); Run tm = m.part(0, G + 4); tm.ins(tm.n, "<>"); tm.n += m.n - G - 7; eq(t, tm, "sub", "substitution"); }
}
static void ranges(Rng& r) {
  size_t k = 20 + r.below(1000); Run m; String s = make(m, G + k, 'x', 8); op("%zu bytes", G + k); const String& c = s;
  auto thrown = [](std::function<void()> f) { try { f(); } catch (std::out_of_range&) { return true; } return false; };
  VH_CHECK(!thrown([&] { VH_CHECK(c.at(m.n - 1) == 'x', "content", "last byte"); }), "range-rejected", "at(length-1)"); VH_CHECK(thrown([&] { c.at(m.n); }) && thrown([&] { c.at(m.n + G); }), "range-accepted", "at(length)");
  for (size_t p : { m.n + 1, m.n + G, G + G, m.n + G / 2 }) { op("position %zu", p); VH_CHECK(thrown([&] { s.insert(p, 'c'); }) && thrown([&] { s.insert(p, "xy"); }) && thrown([&] { s.replace(p, "xy"); }) && thrown([&] { s.insert(p, String("xy")); }) && thrown([&] { s.replace(p, 'c'); }) && thrown([&] { size_t f = c.find(String("z"), p); asm volatile("" : : "r"(f)); }), "range-accepted", "position %zu of %zu accepted", p, m.n); }
  VH_CHECK(!thrown([&] { s.insert(m.n, 'c'); }), "range-rejected", "insert at the end"); m.ins(m.n, "c"); VH_CHECK(!thrown([&] { s.replace(G + 1, "yy"); }), "range-rejected", "replace"); m.put(G + 1, "yy"); eq(s, m, "content", "after rejected positions");
}
static void base(Rng& r) {
  size_t k = r.below(1000); size_t n = G + k; String in(n); in.resize(n, 'A'); static const char* T = "BCDEFGHIJ"; for (size_t p : { size_t(0), G / 2, n - 9, G - 4 }) in.replace(p, T, 9);
  op("%zu bytes", n); String e = bd::base64Encode(in); size_t want = (n + 2) / 3 * 4; VH_CHECK(e.length() == want, "encode", "%zu characters for %zu bytes, expected %zu", e.length(), n, want);
  for (size_t p : { size_t(0), G / 2 / 3 * 3, G - 4 - (G - 4) % 3, (n - 9) / 3 * 3 }) { size_t q = std::min<size_t>(12, n - p); if (p + q < n) q -= q % 3; std::string w(static_cast<const String&>(in).data() + p, q); std::string we(bd::base64Encode(String(w.data(), w.size()))); VH_CHECK(!memcmp(static_cast<const String&>(e).data() + p / 3 * 4, we.data(), we.size()), "encode", "wrong characters for the bytes at %zu", p); }
  String d = bd::base64Decode(e); VH_CHECK(d.length() == n && !memcmp(static_cast<const String&>(d).data(), static_cast<const String&>(in).data(), n), "decode", "decoding %zu characters gives %zu bytes", want, d.length());
}
static void stream(Rng& r) {
  size_t k = 20 + r.below(1000); size_t n = G + k; op("%zu bytes", n);
  int fd = open("giant", O_RDWR | O_CREAT | O_TRUNC, 0600); bool ok = fd >= 0 && !ftruncate(fd, off_t(n)) && pwrite(fd, "line\nlast", 9, off_t(G + 5)) == 9; if (!ok) { vh::count("skipped: no sparse file"); if (fd >= 0) close(fd); return; }
  close(fd); Run m{ n, 0, {} }; m.put(G + 5, "line\nlast"); Stream s; int rc = s.loadFile("giant"); unlink("giant");
  VH_CHECK(rc == 0 && s.length() == n, "load", "loading %zu bytes: %d, length %zu", n, rc, s.length()); eq(static_cast<String>(s), m, "load", "loaded content"); VH_CHECK(s.tell() == 0, "load", "cursor at %zu", s.tell());
  { String a = s.read(G + 5); VH_CHECK(a.length() == G + 5 && s.tell() == G + 5, "read", "read of 2^32+5 bytes gives %zu, cursor at %zu", a.length(), s.tell()); }
  String l = s.getline(); VH_CHECK(l == "line\n" || l == "line", "read", "line above 2^32 has %zu bytes", l.length()); VH_CHECK(s.tell() == G + 10, "read", "cursor at %zu", s.tell());
  s.seek(-3, SEEK_CUR); VH_CHECK(s.tell() == G + 7, "seek", "relative seek goes to %zu", s.tell()); s.puts("ZZ"); m.put(G + 7, "ZZ"); VH_CHECK(s.tell() == G + 9, "puts", "cursor at %zu after writing", s.tell()); eq(static_cast<String>(s), m, "puts", "content after writing above 2^32");
}
static void cfuncs(Rng& r) {
  size_t k = 20 + r.below(1000), n = G + k; op("%zu bytes", n); char* a = static_cast<char*>(malloc(n + 64)); char* b = static_cast<char*>(malloc(n + 64)); if (!a || !b) { free(a); free(b); vh::count("skipped: no memory"); return; }
  memset(a, 'x', n); a[n] = 0; b[n + 1] = '~'; size_t x = bd::strlcpy(b, a, n + 1); VH_CHECK(x == n && !memcmp(a, b, n + 1) && b[n + 1] == '~', "strlcpy", "strlcpy of %zu bytes gives %zu", n, x);
  x = bd::strlcpy(b, a, G + 3); VH_CHECK(x == n && b[G + 2] == 0 && b[G + 1] == 'x' && b[G + 3] == 'x', "strlcpy", "bounded strlcpy gives %zu", x);
  x = bd::strlcat(b, "yyyy", G + 5); VH_CHECK(x == G + 6 && b[G + 4] == 0 && b[G + 3] == 'y' && b[G + 2] == 'y' && b[G + 1] == 'x', "strlcat", "strlcat at 2^32 gives %zu", x);
  free(b); b = bd::strldup(a, G + 9); VH_CHECK(strlen(b) == G + 9, "strldup", "strldup of 2^32+9 bytes has %zu", strlen(b)); free(b); b = bd::strdup(a); VH_CHECK(strlen(b) == n, "strdup", "strdup has %zu", strlen(b)); free(b); free(a);
}
static void wipe(Rng& r) {
  size_t k = 20 + r.below(1000), n = G + k; op("%zu bytes", n); watch_left = watch_seen = false; watch_c = char(0xc3); watch_at = { 0, 10, G / 2 - 1, G / 2, G - 1, G, G + 7 };
  { String s(n); s.resize(n, 'x'); char* p = s.mdata(); for (size_t a : watch_at) p[a] = watch_c; watch_p = p; }
  VH_CHECK(watch_seen, "unwiped", "the storage was not given back"); VH_CHECK(!watch_left, "unwiped", "secret bytes left in %zu bytes of storage", n);
}
static void run_case(Rng& r, uint64_t no) {
  static const struct { char m; void (*f)(Rng&); const char* n; size_t gb; } L[] = { { 'E', edit, "edit", 14 }, { 'S', search, "search", 14 }, { 'V', views, "views", 14 }, { 'L', slices, "slices", 10 }, { 'T', tokens, "tokens", 14 }, { 'R', ranges, "ranges", 10 }, { 'B', base, "base64", 24 }, { 'F', stream, "stream", 20 }, { 'C', cfuncs, "helpers", 12 }, { 'W', wipe, "wipe", 8 } };
  (void)no; for (auto& x : L) if (vh::S().mode.find(x.m) != std::string::npos) {
    if (!room(x.gb)) { vh::count("skipped: memory"); continue; }
    op("%s", x.n); try { x.f(r); vh::count(std::string("beyond 2^32: ") + x.n); vh::distinct(vh::mix(uint64_t(x.m), r.next())); } catch (std::bad_alloc&) { vh::count("skipped: memory"); }
  }
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
