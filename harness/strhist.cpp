/* Random histories over a pool of bd::String handles, each with a reference
 * std::string.  After every step every handle is compared with its reference.
 * --mode selects which kinds of operation dominate. */
#include "vh.hpp"
#include "String.h"
#include "Array.h"
#include "HashTable.h"
#include <list>
#include <memory>
#include <sstream>
using bd::String; using bd::Array; using bd::HashTable;
using vh::Rng; using vh::op; using vh::show;
typedef bd::ReferenceCountedArray<char> RCA;

struct H { std::unique_ptr<String> s; std::string m; };
struct Ctx { Rng& r; std::vector<H> pool; int alpha; size_t maxlen; uint64_t hsh; };

static const char* const ALPHA[] = { "ab", "ab ", "aAbB", "a \n\r\t", "abcdefghij", ",-x" };
static char rch(Ctx& c) {
  if (c.alpha == 6) { static const unsigned char z[] = { 0, 'a', 0xff, 0x80, 'A', 'b', ' ' }; return char(z[c.r.below(sizeof z)]); }
  if (c.alpha == 7) return char(c.r.below(256));
  const char* a = ALPHA[c.alpha];
  return a[c.r.below(strlen(a))];
}
static size_t rlen(Ctx& c, size_t cap = 24) {
  switch (c.r.below(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2;
    case 3: return 14 + c.r.below(5);            // around the small sizes
    case 4: return c.maxlen > 100 ? c.r.below(c.maxlen) : c.r.below(cap);
    default: return c.r.below(cap);
  }
}
static std::string rstr(Ctx& c, size_t cap = 24) { std::string s(rlen(c, cap), 'x'); for (auto& ch : s) ch = rch(c); return s; }
static std::string rcstr(Ctx& c, size_t cap = 24) { std::string s = rstr(c, cap); for (auto& ch : s) if (!ch) ch = 'z'; return s; }
/* positions: mostly valid, often at the edges, sometimes far out */
static size_t rpos(Ctx& c, size_t len, unsigned badpct = 12) {
  if (c.r.chance(badpct)) {
    switch (c.r.below(6)) {
      case 0: return len + 1;
      case 1: return len + 2 + c.r.below(40);
      case 2: return size_t(-1);
      case 3: return size_t(-1) - c.r.below(4);
      case 4: return size_t(1) << (31 + c.r.below(33));
      default: return len + 1 + c.r.below(3);
    }
  }
  switch (c.r.below(6)) {
    case 0: return 0;
    case 1: return len;
    case 2: return len ? len - 1 : 0;
    default: return c.r.below(len + 1);
  }
}
static ssize_t rsigned(Ctx& c, size_t len) {
  ssize_t L = ssize_t(len);
  switch (c.r.below(12)) {
    case 0: return 0;
    case 1: return L;
    case 2: return -L;
    case 3: return L + 1 + ssize_t(c.r.below(5));
    case 4: return -L - 1 - ssize_t(c.r.below(5));
    case 5: return -1;
    case 6: { static const ssize_t z[] = { SSIZE_MAX, -SSIZE_MAX - 1, INT32_MAX, INT32_MIN, SSIZE_MAX - 3, -SSIZE_MAX + 3, ssize_t(1) << 31, ssize_t(1) << 32, -(ssize_t(1) << 32) }; return z[c.r.below(9)]; }
    default: return c.r.range(-L - 2, L + 2);
  }
}
static std::string mslice(const std::string& m, ssize_t start, ssize_t len) {
  __int128 L = m.size(), s = start, n = len;
  if (s >= L) return "";
  if (s < 0) s = s + L < 0 ? 0 : s + L;
  __int128 avail = L - s;
  if (len == -1 || n > avail) n = avail;
  else if (n < 0) { n = avail + n; if (n < 0) n = 0; }
  return m.substr(size_t(s), size_t(n));
}

static void verify1(const H& h, const char* what, size_t idx) {
  const String& s = *h.s;
  VH_CHECK(s.length() == h.m.size() && s.size() == h.m.size(), "content", "handle %zu after %s: length %zu, expected %s", idx, what, s.length(), show(h.m).c_str());
  if (h.m.size()) {
    const char* d = s.data();
    VH_CHECK(d && !memcmp(d, h.m.data(), h.m.size()), "content", "handle %zu after %s: have %s expected %s", idx, what, d ? show(d, s.length()).c_str() : "null", show(h.m).c_str());
  }
  VH_CHECK(s.isEmpty() == h.m.empty() && !s == h.m.empty() && bool(s) == !h.m.empty(), "content", "emptiness of handle %zu after %s", idx, what);
}
static void verify_all(Ctx& c, const char* what) {
  for (size_t i = 0; i < c.pool.size(); ++i) verify1(c.pool[i], what, i);
}
static std::map<std::string, size_t>& hashes() { static std::map<std::string, size_t> m; return m; }
static void check_hash(const H& h) {
  const String& s = *h.s;
  const size_t hv = s.hash();
  const String fresh(h.m.data(), h.m.size());
  VH_CHECK(fresh.hash() == hv, "hash", "hash %zu of %s differs from %zu of an equal new string", hv, show(h.m).c_str(), fresh.hash());
  VH_CHECK(std::hash<String>()(s) == hv && s.hash() == hv, "hash", "hash not stable for %s", show(h.m).c_str());
  if (h.m.size() < 40 && hashes().size() < 20000) {
    auto it = hashes().insert({h.m, hv}).first;
    VH_CHECK(it->second == hv, "hash", "hash of %s changed from %zu to %zu", show(h.m).c_str(), it->second, hv);
  }
}
static void check_cstr(const H& h) {
  const String& s = *h.s;
  const char* p = s.c_str();
  VH_CHECK(p != nullptr, "cstr", "null c_str of %s", show(h.m).c_str());
  VH_CHECK(!memcmp(p, h.m.data(), h.m.size()) && p[h.m.size()] == '\0', "cstr", "c_str of %s is %s followed by 0x%02x", show(h.m).c_str(), show(p, h.m.size()).c_str(), (unsigned char)p[h.m.size()]);
  VH_CHECK(!strcmp(*s, h.m.c_str()), "cstr", "operator* of %s", show(h.m).c_str());
}
static void check_views(Ctx& c, H& h) {
  const String& s = *h.s;
  switch (c.r.below(8)) {
    case 0: { std::unique_ptr<char[]> d(s.dup()); VH_CHECK(!memcmp(d.get(), h.m.data(), h.m.size()) && !d[h.m.size()], "dup", "dup of %s", show(h.m).c_str()); break; }
    case 1: { size_t n = c.r.chance(30) ? String::npos : rpos(c, h.m.size(), 20);
      size_t want = std::min(n, h.m.size());
      std::vector<char> dst(want + 1, '#'); dst.resize(want); dst.shrink_to_fit();
      std::unique_ptr<char[]> ex(new char[want ? want : 1]);
      size_t got = s.copy(ex.get(), n);
      VH_CHECK(got == want && !memcmp(ex.get(), h.m.data(), want), "copy", "copy(%zu) of %s gave %zu", n, show(h.m).c_str(), got); break; }
    case 2: { std::string x(s); VH_CHECK(x == h.m, "tostd", "std::string of %s is %s", show(h.m).c_str(), show(x).c_str());
      String back(x); VH_CHECK(back.length() == h.m.size() && back == s, "fromstd", "String(std::string) of %s", show(h.m).c_str()); break; }
    case 3: { std::string x(s.begin(), s.end()); VH_CHECK(x == h.m, "iter", "const iteration over %s", show(h.m).c_str());
      std::string y(s.rbegin(), s.rend()); std::reverse(y.begin(), y.end()); VH_CHECK(y == h.m, "riter", "reverse iteration over %s", show(h.m).c_str());
      std::string z(s.cbegin(), s.cend()); std::string w(s.crbegin(), s.crend()); std::reverse(w.begin(), w.end());
      VH_CHECK(z == h.m && w == h.m, "iter", "c-iteration over %s", show(h.m).c_str()); break; }
    case 4: { for (size_t i = 0; i < h.m.size() && i < 300; ++i) VH_CHECK(s.at(i) == h.m[i] && s[i] == h.m[i] && s.charAt(i) == h.m[i] && s.read(i) == h.m[i], "index", "index %zu of %s", i, show(h.m).c_str());
      if (h.m.size()) VH_CHECK(s.front() == h.m.front() && s.back() == h.m.back(), "index", "front/back of %s", show(h.m).c_str()); break; }
    case 5: { // mutable iteration must read the same
      std::string x(h.s->begin(), h.s->end()); VH_CHECK(x == h.m, "iter", "iteration over %s", show(h.m).c_str());
      std::string y(h.s->rbegin(), h.s->rend()); std::reverse(y.begin(), y.end()); VH_CHECK(y == h.m, "iter", "mutable reverse iteration over %s", show(h.m).c_str());
      for (size_t i = 0; i < h.m.size() && i < 50; ++i) { char ch = (*h.s)[i]; VH_CHECK(ch == h.m[i], "index", "proxy read %zu of %s", i, show(h.m).c_str()); } break; }
    case 6: { std::ostringstream os; os << s; VH_CHECK(os.str() == h.m, "ostream", "<< of %s", show(h.m).c_str());
      std::ostringstream o2; o2 << String(s); VH_CHECK(o2.str() == h.m, "ostream", "<< of a temporary of %s", show(h.m).c_str()); break; }
    default: check_cstr(h);
  }
}

/* run f; it must throw out_of_range exactly if bad */
template <class F> static bool guarded(Ctx& c, bool bad, const char* what, F f) {
  bool threw = false;
  try { f(); }
  catch (const std::out_of_range&) { threw = true; }
  catch (const std::exception& e) { vh::fail("exception", "%s threw %s", what, e.what()); }
  VH_CHECK(threw == bad, bad ? "range-accepted" : "range-rejected", "%s %s", what, threw ? "threw out_of_range for a valid position" : "accepted an invalid position");
  if (bad) { vh::count("rejected"); verify_all(c, what); }
  return !threw;
}

struct Src { String s; std::string m; };
/* an argument string: new, a copy/slice of some handle (maybe the target itself) */
static Src rsrc(Ctx& c, H& h) {
  switch (c.r.below(6)) {
    case 0: { H& o = c.r.pick(c.pool); return { String(*o.s), o.m }; }
    case 1: { H& o = c.r.pick(c.pool); ssize_t a = rsigned(c, o.m.size()), b = rsigned(c, o.m.size()); return { o.s->substring(a, b), mslice(o.m, a, b) }; }
    case 2: { ssize_t a = ssize_t(c.r.below(h.m.size() + 1)); return { h.s->substring(a), mslice(h.m, a, -1) }; }
    default: { std::string m = rstr(c); return { String(m.data(), m.size()), m }; }
  }
}
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static int mcmp(const std::string& a, const std::string& b) {
  size_t n = std::min(a.size(), b.size());
  int d = n ? memcmp(a.data(), b.data(), n) : 0;
  return d ? sgn(d) : a.size() < b.size() ? -1 : a.size() > b.size();
}
static size_t mfind(const std::string& hay, const std::string& nd, size_t pos) {
  if (nd.empty()) return 0;
  for (size_t i = pos; i + nd.size() <= hay.size(); ++i) if (!hay.compare(i, nd.size(), nd)) return i - pos;
  return String::npos;
}
static size_t mrfind(const std::string& hay, const std::string& nd, size_t lpos) {
  if (nd.empty()) return hay.size() - 1;
  size_t best = String::npos;
  for (size_t i = lpos; i < hay.size() && i + nd.size() <= hay.size(); ++i) if (!hay.compare(i, nd.size(), nd)) best = i;
  return best;
}
static std::string up(std::string s) { for (auto& ch : s) if (ch >= 'a' && ch <= 'z') ch = char(ch - 32); return s; }
static std::vector<std::string> msplit(const std::string& t, const std::string& d, size_t limit) {
  std::vector<std::string> out;
  if (t.empty()) return out;
  if (limit == 1 || d.empty()) { out.push_back(t); return out; }
  size_t p = 0; bool tail = true; // tail: text after the last delimiter exists
  while (limit == String::npos || out.size() + 1 < limit) {
    if (d == " ") while (p < t.size() && t[p] == ' ') ++p;
    if (p >= t.size()) break;
    size_t f = t.find(d, p);
    if (f == std::string::npos) { out.push_back(t.substr(p)); p = t.size(); tail = false; break; }
    out.push_back(t.substr(p, f - p));
    p = f + d.size();
  }
  if (limit != String::npos && tail) {
    if (d == " ") while (p < t.size() && t[p] == ' ') ++p;
    out.push_back(t.substr(p));
  }
  return out;
}
static std::string msub(const std::string& t, const std::string& a, const std::string& b, int limit) {
  if (a.empty()) return t;
  std::string out; size_t p = 0; int n = 0;
  for (;;) {
    size_t f = (limit != -1 && n >= limit) ? std::string::npos : t.find(a, p);
    if (f == std::string::npos) { out += t.substr(p); return out; }
    out += t.substr(p, f - p) + b; p = f + a.size(); ++n;
  }
}
/* keeps a substitution's result, and the time it takes, in bounds */
static void fit(const std::string& t, const std::string& a, std::string& b) {
  if (a.empty() || b.size() <= a.size()) return;
  size_t n = 0; for (size_t p = 0; (p = t.find(a, p)) != std::string::npos; p += a.size()) ++n;
  if (n * b.size() > 200000) b.resize(std::min(b.size(), 200000 / n));
  if (n > 3000 && t.size() > 20000) b.resize(std::min(b.size(), a.size()));
}
static bool msp(char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }

struct Op { const char* name; char group; void (*fn)(Ctx&, H&, size_t); };
#define OP(name, group) { name, group, [](Ctx& c, H& h, size_t hi) { (void)c; (void)h; (void)hi;
#define END } },
static const Op OPS[] = {
  /* B: building and assigning */
  OP("assign-cstr", 'B') std::string x = rcstr(c); op("h%zu = cstr %s", hi, show(x).c_str()); *h.s = x.c_str(); h.m = x; END
  OP("assign-std", 'B') std::string x = rstr(c); op("h%zu = std %s", hi, show(x).c_str()); *h.s = x; h.m = x; END
  OP("ctor-cstr", 'B') std::string x = rcstr(c); op("h%zu = new(cstr %s)", hi, show(x).c_str()); h.s.reset(new String(x.c_str())); h.m = x; END
  OP("ctor-cstr-len", 'B') std::string x = rstr(c); op("h%zu = new(cstr,len %s)", hi, show(x).c_str()); std::unique_ptr<char[]> ex(new char[x.size() ? x.size() : 1]); memcpy(ex.get(), x.data(), x.size()); h.s.reset(new String(ex.get(), x.size())); h.m = x; END
  OP("ctor-char", 'B') char ch = rch(c); op("h%zu = new('\\x%02x')", hi, (unsigned char)ch); h.s.reset(new String(ch)); h.m = std::string(1, ch); END
  OP("ctor-cap", 'B') size_t n = rlen(c); op("h%zu = new(capacity %zu)", hi, n); h.s.reset(new String(n)); h.m.clear(); VH_CHECK(h.s->capacity() >= n, "capacity", "String(%zu) has capacity %zu", n, h.s->capacity()); END
  OP("ctor-fill", 'B') size_t n = rlen(c); char ch = rch(c); op("h%zu = new(%zu x '\\x%02x')", hi, n, (unsigned char)ch); h.s.reset(new String(n, ch)); h.m.assign(n, ch); END
  OP("ctor-ilist", 'B') char a = rch(c), b = rch(c), d = rch(c); int n = int(c.r.below(4)); op("h%zu = {list of %d}", hi, n);
    if (c.r.chance(50)) { h.s.reset(n == 0 ? new String(std::initializer_list<char>{}) : n == 1 ? new String({a}) : n == 2 ? new String({a, b}) : new String({a, b, d})); }
    else { if (n == 0) *h.s = std::initializer_list<char>{}; else if (n == 1) *h.s = {a}; else if (n == 2) *h.s = {a, b}; else *h.s = {a, b, d}; }
    h.m = std::string({a, b, d}).substr(0, n); END
  OP("ctor-range", 'B') std::string x = rstr(c); op("h%zu = range %s", hi, show(x).c_str());
    if (c.r.chance(50)) h.s.reset(new String(x.begin(), x.end())); else { std::list<char> l(x.begin(), x.end()); h.s.reset(new String(l.begin(), l.end())); } h.m = x; END
  OP("ctor-std", 'B') std::string x = rstr(c); op("h%zu = new(std %s)", hi, show(x).c_str()); h.s.reset(new String(x)); h.m = x; END
  /* X: sharing, moving, lifetime */
  OP("copy-assign", 'X') size_t o = c.r.below(c.pool.size()); op("h%zu = h%zu", hi, o); *h.s = *c.pool[o].s; h.m = c.pool[o].m; END
  OP("copy-ctor", 'X') size_t o = c.r.below(c.pool.size()); op("h%zu = new(h%zu)", hi, o); h.s.reset(new String(*c.pool[o].s)); h.m = std::string(c.pool[o].m); END
  OP("move-assign", 'X') size_t o = c.r.below(c.pool.size()); if (o == hi) { op("h%zu = move(itself)", hi); String& alias = *h.s; *h.s = std::move(alias); return; } op("h%zu = move(h%zu)", hi, o); *h.s = std::move(*c.pool[o].s); h.m = c.pool[o].m; c.pool[o].m.clear(); END
  OP("move-ctor", 'X') size_t o = c.r.below(c.pool.size()); if (o == hi) return; op("h%zu = new(move(h%zu))", hi, o); h.s.reset(new String(std::move(*c.pool[o].s))); h.m = c.pool[o].m; c.pool[o].m.clear(); END
  OP("self-assign", 'X') op("h%zu = itself", hi); String& alias = *h.s; *h.s = alias; END
  OP("swap", 'X') size_t o = c.r.below(c.pool.size()); op("swap h%zu h%zu", hi, o); if (o == hi) return; using std::swap; if (c.r.chance(50)) swap(*h.s, *c.pool[o].s); else swap(static_cast<RCA&>(*h.s), static_cast<RCA&>(*c.pool[o].s)); std::swap(h.m, c.pool[o].m); END
  OP("destroy", 'X') op("destroy h%zu", hi); h.s.reset(new String); h.m.clear(); END
  OP("share-sub", 'X') H& o = c.r.pick(c.pool); ssize_t a = rsigned(c, o.m.size()), b = rsigned(c, o.m.size()); op("h%zu = substring(%zd,%zd)", hi, a, b); std::string m = mslice(o.m, a, b); *h.s = o.s->substring(a, b); h.m = m; END
  /* E: editing */
  OP("append-char", 'E') char ch = rch(c); op("h%zu append char %02x", hi, (unsigned char)ch); switch (c.r.below(4)) { case 0: h.s->append(ch); break; case 1: h.s->push_back(ch); break; case 2: *h.s += ch; break; default: { char t = ch; h.s->push_back(std::move(t)); } } h.m += ch; END
  OP("append-cstr", 'E') std::string x = rcstr(c); op("h%zu append cstr %s", hi, show(x).c_str()); if (c.r.chance(50)) h.s->append(x.c_str()); else *h.s += x.c_str(); h.m += x; END
  OP("append-cstr-n", 'E') std::string x = rstr(c); size_t n = c.r.below(x.size() + 1); op("h%zu append cstr %s n=%zu", hi, show(x).c_str(), n); std::unique_ptr<char[]> ex(new char[n ? n : 1]); memcpy(ex.get(), x.data(), n); h.s->append(ex.get(), n); h.m.append(x.data(), n); END
  OP("append-str", 'E') Src a = rsrc(c, h); op("h%zu append %s", hi, show(a.m).c_str()); if (c.r.chance(50)) h.s->append(a.s); else *h.s += a.s; h.m += a.m; VH_CHECK(a.s.length() == a.m.size() && (a.m.empty() || !memcmp(a.s.data(), a.m.data(), a.m.size())), "arg-changed", "append changed its argument"); END
  OP("append-str-n", 'E') Src a = rsrc(c, h); size_t n = rpos(c, a.m.size(), 30); op("h%zu append %s n=%zu", hi, show(a.m).c_str(), n); h.s->append(a.s, n); h.m += a.m.substr(0, n); VH_CHECK(a.s.length() == a.m.size(), "arg-changed", "append changed its argument"); END
  OP("append-self", 'E') if (h.m.size() > 6000) return; op("h%zu append itself", hi); if (c.r.chance(50)) *h.s += *h.s; else h.s->append(*h.s); h.m += std::string(h.m); END
  OP("append-move", 'E') Src a = rsrc(c, h); size_t n = c.r.chance(50) ? String::npos : rpos(c, a.m.size(), 30); op("h%zu append move %s n=%zu", hi, show(a.m).c_str(), n); if (n == String::npos) { if (c.r.chance(50)) *h.s += std::move(a.s); else h.s->append(std::move(a.s)); } else h.s->append(std::move(a.s), n); h.m += a.m.substr(0, n); a.s = "reuse"; a.s += 'x'; VH_CHECK(a.s == "reusex", "moved-from", "moved-from argument not reusable"); END
  OP("insert-char", 'E') size_t p = rpos(c, h.m.size()); char ch = rch(c); op("h%zu insert(%zu, char %02x)", hi, p, (unsigned char)ch); bool bad = p > h.m.size();
    if (guarded(c, bad, "insert(pos,char)", [&] { if (p & 1) h.s->insert(p, ch); else { char t = ch; h.s->insert(p, std::move(t)); } })) h.m.insert(p, 1, ch); END
  OP("insert-own-char", 'E') if (h.m.empty()) return; size_t p = c.r.below(h.m.size() + 1), q = c.r.below(h.m.size()); op("h%zu insert(%zu, own element %zu)", hi, p, q); char ch = h.m[q]; const String& cs = *h.s; switch (c.r.below(4)) { case 0: h.s->insert(p, cs[q]); break; case 1: p = h.m.size(); h.s->push_back(cs[q]); break; case 2: p = h.m.size(); *h.s += cs.at(q); break; default: h.s->insert(p, (*h.s)[q]); } h.m.insert(p, 1, ch); END
  OP("insert-cstr", 'E') size_t p = rpos(c, h.m.size()); std::string x = rcstr(c); op("h%zu insert(%zu, cstr %s)", hi, p, show(x).c_str()); bool bad = p > h.m.size();
    if (guarded(c, bad, "insert(pos,cstr)", [&] { h.s->insert(p, x.c_str()); })) h.m.insert(p, x); END
  OP("insert-cstr-n", 'E') size_t p = rpos(c, h.m.size()); std::string x = rstr(c); size_t n = 1 + c.r.below(x.size() + 1); x.resize(std::max(x.size(), n), 'q'); op("h%zu insert(%zu, cstr %s, %zu)", hi, p, show(x).c_str(), n); bool bad = p > h.m.size(); std::unique_ptr<char[]> ex(new char[n]); memcpy(ex.get(), x.data(), n);
    if (guarded(c, bad, "insert(pos,cstr,n)", [&] { h.s->insert(p, ex.get(), n); })) h.m.insert(p, x.substr(0, n)); END
  OP("insert-own-cstr", 'E') if (h.m.empty() || h.m.size() > 6000) return; size_t p = c.r.below(h.m.size() + 1), q = c.r.below(h.m.size()); const char* z = h.s->c_str() + q; std::string x(h.m.c_str() + q); bool lim = c.r.chance(50); size_t n = lim ? 1 + c.r.below(h.m.size() - q) : String::npos; if (lim) x = h.m.substr(q, n);
    bool rep = c.r.chance(40); op("h%zu %s(%zu, own c_str+%zu, %zd)", hi, rep ? "replace" : "insert", p, q, ssize_t(n));
    if (rep) { h.s->replace(p, z, n); if (h.m.size() < p + x.size()) h.m.resize(p + x.size()); h.m.replace(p, x.size(), x); } else { h.s->insert(p, z, n); h.m.insert(p, x); } END
  OP("insert-str", 'E') size_t p = rpos(c, h.m.size()); Src a = rsrc(c, h); op("h%zu insert(%zu, %s)", hi, p, show(a.m).c_str()); bool bad = p > h.m.size();
    if (guarded(c, bad, "insert(pos,string)", [&] { h.s->insert(p, a.s); })) h.m.insert(p, a.m); VH_CHECK(std::string(a.s) == a.m, "arg-changed", "insert changed its argument"); END
  OP("insert-self", 'E') if (h.m.size() > 6000) return; size_t p = c.r.below(h.m.size() + 1); size_t n = c.r.chance(50) ? String::npos : 1 + c.r.below(h.m.size() + 2); op("h%zu insert(%zu, itself, %zd)", hi, p, ssize_t(n)); std::string x = h.m.substr(0, n); if (n == String::npos) h.s->insert(p, *h.s); else h.s->insert(p, *h.s, n); h.m.insert(p, x); END
  OP("insert-str-n", 'E') size_t p = rpos(c, h.m.size()); Src a = rsrc(c, h); size_t n = c.r.chance(20) ? a.m.size() : rpos(c, a.m.size(), 30); op("h%zu insert(%zu, %s, %zu)", hi, p, show(a.m).c_str(), n); bool bad = p > h.m.size(); if (n == 0) { bool t = false; try { h.s->insert(p, a.s, n); } catch (const std::out_of_range&) { t = true; } VH_CHECK(!t || bad, "range-rejected", "insert(pos,string,0) threw"); return; }
    if (guarded(c, bad, "insert(pos,string,n)", [&] { if (c.r.chance(50)) h.s->insert(p, a.s, n); else h.s->insert(p, String(a.s), n); })) h.m.insert(p, a.m.substr(0, n)); END
  OP("insert-move", 'E') size_t p = rpos(c, h.m.size()); Src a = rsrc(c, h); op("h%zu insert(%zu, move %s)", hi, p, show(a.m).c_str()); bool bad = p > h.m.size();
    if (guarded(c, bad, "insert(pos,move)", [&] { h.s->insert(p, std::move(a.s)); })) h.m.insert(p, a.m); a.s = String("reuse"); VH_CHECK(a.s == "reuse", "moved-from", "moved-from argument not reusable"); END
  OP("insert-iter", 'E') size_t p = c.r.below(h.m.size() + 1); char ch = rch(c); op("h%zu insert(iterator %zu, %02x)", hi, p, (unsigned char)ch); auto it = h.s->insert(h.s->cbegin() + p, ch); h.m.insert(p, 1, ch); VH_CHECK(it == h.s->begin() + p && *it == ch, "iterator", "insert returned a wrong iterator"); END
  OP("insert-range", 'E') size_t p = c.r.below(h.m.size() + 1); std::string x = rstr(c); op("h%zu insert(iterator %zu, range %s)", hi, p, show(x).c_str()); int k = int(c.r.below(3)); String::iterator it; if (k == 0) it = h.s->insert(h.s->cbegin() + p, x.begin(), x.end()); else if (k == 1) { std::list<char> l(x.begin(), x.end()); it = h.s->insert(h.s->cbegin() + p, l.begin(), l.end()); } else it = h.s->insert(h.s->cbegin() + p, x.data(), x.data() + x.size()); h.m.insert(p, x); VH_CHECK(it == h.s->begin() + p, "iterator", "range insert returned a wrong iterator"); END
  OP("replace-char", 'E') size_t p = rpos(c, h.m.size()); char ch = rch(c); op("h%zu replace(%zu, char %02x)", hi, p, (unsigned char)ch); bool bad = p > h.m.size();
    if (guarded(c, bad, "replace(pos,char)", [&] { if (p & 1) h.s->replace(p, ch); else { char t = ch; h.s->replace(p, std::move(t)); } })) { if (p == h.m.size()) h.m += ch; else h.m[p] = ch; } END
  OP("replace-cstr", 'E') size_t p = rpos(c, h.m.size()); std::string x = rcstr(c); size_t n = c.r.chance(50) ? String::npos : 1 + c.r.below(x.size() + 1); if (n != String::npos) { x.resize(std::max(n, x.size()), 'r'); } op("h%zu replace(%zu, cstr %s, %zd)", hi, p, show(x).c_str(), ssize_t(n)); bool bad = p > h.m.size(); std::string y = x.substr(0, n);
    if (guarded(c, bad, "replace(pos,cstr)", [&] { h.s->replace(p, x.c_str(), n); })) { if (h.m.size() < p + y.size()) h.m.resize(p + y.size()); h.m.replace(p, y.size(), y); } END
  OP("replace-str", 'E') size_t p = rpos(c, h.m.size()); Src a = rsrc(c, h); size_t n = c.r.chance(50) ? String::npos : 1 + c.r.below(a.m.size() + 2); op("h%zu replace(%zu, %s, %zd)", hi, p, show(a.m).c_str(), ssize_t(n)); bool bad = p > h.m.size(); std::string y = a.m.substr(0, n); bool mv = c.r.chance(40);
    if (guarded(c, bad, "replace(pos,string)", [&] { if (mv) h.s->replace(p, String(a.s), n); else h.s->replace(p, a.s, n); })) { if (h.m.size() < p + y.size()) h.m.resize(p + y.size()); h.m.replace(p, y.size(), y); } VH_CHECK(std::string(a.s) == a.m, "arg-changed", "replace changed its argument"); END
  OP("replace-self", 'E') if (h.m.size() > 6000) return; size_t p = c.r.below(h.m.size() + 1); op("h%zu replace(%zu, itself)", hi, p); std::string y = h.m; h.s->replace(p, *h.s); if (h.m.size() < p + y.size()) h.m.resize(p + y.size()); h.m.replace(p, y.size(), y); END
  OP("index-write", 'E') if (h.m.empty()) return; size_t p = c.r.below(h.m.size()), q = c.r.below(h.m.size()); char ch = rch(c); int k = int(c.r.below(12)); op("h%zu write[%zu] kind %d %02x (q=%zu)", hi, p, k, (unsigned char)ch, q);
    switch (k) {
      case 0: (*h.s)[p] = ch; h.m[p] = ch; break;
      case 1: (*h.s)[p] = (*h.s)[q]; h.m[p] = h.m[q]; break;
      case 2: (*h.s)[p].mget() = ch; h.m[p] = ch; break;
      case 3: h.s->write(p, ch); h.m[p] = ch; break;
      case 4: h.s->front() = ch; h.m.front() = ch; break;
      case 5: h.s->back() = ch; h.m.back() = ch; break;
      case 6: h.s->begin()[p] = ch; h.m[p] = ch; break;
      case 7: h.s->mdata()[p] = ch; h.m[p] = ch; break;
      case 8: h.s->rbegin()[p] = ch; h.m[h.m.size() - 1 - p] = ch; break;
      case 9: { const String& cs = *h.s; h.s->write(p, cs[q]); h.m[p] = h.m[q]; break; }
      case 10: { H& o = c.r.pick(c.pool); if (o.m.empty()) break; size_t z = c.r.below(o.m.size()); char v = o.m[z]; (*h.s)[p] = (*o.s)[z]; h.m[p] = v; break; }
      default: h.s->read(p) = ch; h.m[p] = ch;
    } END
  OP("algorithm", 'E') int k = int(c.r.below(3)); op("h%zu std algorithm %d", hi, k); if (k == 0) { std::sort(h.s->begin(), h.s->end()); std::sort(h.m.begin(), h.m.end()); } else if (k == 1) { std::reverse(h.s->begin(), h.s->end()); std::reverse(h.m.begin(), h.m.end()); } else { char ch = rch(c); std::fill(h.s->begin(), h.s->end(), ch); std::fill(h.m.begin(), h.m.end(), ch); } END
  OP("slice-assign", 'V') size_t p = rpos(c, h.m.size(), 8); if (p > h.m.size() + 1000) p = h.m.size() + 1; ssize_t len = c.r.chance(40) ? -1 : ssize_t(c.r.below(h.m.size() + 3)); Src a = rsrc(c, h); op("h%zu(%zu,%zd) = %s", hi, p, len, show(a.m).c_str()); bool bad = p > h.m.size(); std::string y = a.m.substr(0, size_t(len)); int k = int(c.r.below(3));
    if (len == 0) { if (bad) return; (*h.s)(ssize_t(p), len) = a.s; return; }
    if (guarded(c, bad, "slice assignment", [&] { if (k == 0) (*h.s)(ssize_t(p), len) = a.s; else if (k == 1) (*h.s)(ssize_t(p), len) = String(a.s); else (*h.s)(ssize_t(p), len) = a.s(0); })) { if (h.m.size() < p + y.size()) h.m.resize(p + y.size()); h.m.replace(p, y.size(), y); } END
  OP("resize-fill", 'E') size_t n = c.r.chance(10) ? h.m.size() : rlen(c, 40); char ch = rch(c); op("h%zu resize(%zu, %02x)", hi, n, (unsigned char)ch); h.s->resize(n, ch); h.m.resize(n, ch); END
  OP("resize", 'E') size_t n = rlen(c, 40), old = h.m.size(); op("h%zu resize(%zu)", hi, n); h.s->resize(n); VH_CHECK(h.s->length() == n, "content", "resize(%zu) gave length %zu", n, h.s->length()); h.m.resize(n); for (size_t i = old; i < n; ++i) { char ch = rch(c); h.s->write(i, ch); h.m[i] = ch; } END
  OP("clear", 'E') op("h%zu clear", hi); h.s->clear(); h.m.clear(); END
  OP("reserve", 'E') size_t n = rlen(c, 64); op("h%zu reserve(%zu)", hi, n); if (c.r.chance(50)) h.s->reserve(n); else static_cast<const String&>(*h.s).reserve(n, 1.5); VH_CHECK(h.s->capacity() >= n, "capacity", "reserve(%zu) left capacity %zu", n, h.s->capacity()); END
  OP("concat", 'E') Src a = rsrc(c, h); std::string x = rcstr(c); char ch = rch(c); op("h%zu = h%zu + %s", hi, hi, show(a.m).c_str()); switch (c.r.below(6)) { case 0: *h.s = *h.s + a.s; h.m += a.m; break; case 1: *h.s = *h.s + x.c_str(); h.m += x; break; case 2: *h.s = x.c_str() + *h.s; h.m = x + h.m; break; case 3: *h.s = *h.s + ch; h.m += ch; break; case 4: *h.s = a.s + *h.s + a.s; h.m = a.m + h.m + a.m; break; default: { String t(*h.s + a.s); VH_CHECK(std::string(t) == h.m + a.m, "content", "a + b is %s", show(std::string(t)).c_str()); } } if (h.m.size() > 9000) { h.s->resize(100); h.m.resize(100); } END
  OP("repeat", 'E') int n = int(c.r.below(5)); op("h%zu * %d", hi, n); String t(*h.s * n); std::string m; for (int i = 0; i < n; ++i) m += h.m; VH_CHECK(std::string(t) == m, "content", "%s * %d is %s", show(h.m).c_str(), n, show(std::string(t)).c_str()); if (m.size() < 200) { *h.s = std::move(t); h.m = m; } END
  OP("cstr", 'E') op("h%zu c_str", hi); check_cstr(h); END
  /* V: views and dropping */
  OP("slice", 'V') ssize_t a = rsigned(c, h.m.size()), b = rsigned(c, h.m.size()); op("h%zu.slice(%zd,%zd)", hi, a, b); if (c.r.chance(20)) { h.s->slice(a); h.m = mslice(h.m, a, -1); } else { h.s->slice(a, b); h.m = mslice(h.m, a, b); } END
  OP("substring", 'V') ssize_t a = rsigned(c, h.m.size()), b = rsigned(c, h.m.size()); op("h%zu.substring(%zd,%zd)", hi, a, b); const String& cs = *h.s; String x(c.r.chance(50) ? cs.substring(a, b) : cs(a, b)); String y((*h.s)(a, b)); String z((*h.s)(a, b).get()); std::string m = mslice(h.m, a, b);
    VH_CHECK(x.length() == m.size() && std::string(x) == m, "slice", "substring(%zd,%zd) of %s has length %zu", a, b, show(h.m).c_str(), x.length()); VH_CHECK(y == x && z == x, "slice", "proxy slice (%zd,%zd) of %s", a, b, show(h.m).c_str());
    String w(cs.substring(a)); VH_CHECK(std::string(w) == mslice(h.m, a, -1), "slice", "substring(%zd) of %s", a, show(h.m).c_str());
    ssize_t a2 = rsigned(c, m.size()), b2 = rsigned(c, m.size()); String u(x.substring(a2, b2)); VH_CHECK(std::string(u) == mslice(m, a2, b2), "slice", "substring(%zd,%zd) of slice %s", a2, b2, show(m).c_str()); END
  OP("drop-front", 'V') size_t n = rpos(c, h.m.size(), 25); op("h%zu += %zu", hi, n); *h.s += n; h.m.erase(0, std::min(n, h.m.size())); END
  OP("drop-back", 'V') size_t n = rpos(c, h.m.size(), 25); op("h%zu -= %zu", hi, n); *h.s -= n; h.m.resize(h.m.size() - std::min(n, h.m.size())); END
  OP("incdec", 'V') if (h.m.empty()) { if (c.r.chance(50)) ++*h.s; return; } int k = int(c.r.below(5)); op("h%zu incdec %d", hi, k); std::string before = h.m; switch (k) { case 0: ++*h.s; h.m.erase(0, 1); break; case 1: { String t((*h.s)++); VH_CHECK(std::string(t) == before, "slice", "post-increment returned %s", show(std::string(t)).c_str()); h.m.erase(0, 1); break; } case 2: --*h.s; h.m.pop_back(); break; case 3: { String t((*h.s)--); VH_CHECK(std::string(t) == before, "slice", "post-decrement returned %s", show(std::string(t)).c_str()); h.m.pop_back(); break; } default: h.s->pop_back(); h.m.pop_back(); } END
  /* S: search and compare */
  OP("find-char", 'S') char ch = rch(c); size_t p = rpos(c, h.m.size()); const String& cs = *h.s; op("h%zu find(char %02x, %zu)", hi, (unsigned char)ch, p); size_t f = h.m.find(ch); size_t g = cs.find(ch); VH_CHECK(g == (f == std::string::npos ? String::npos : f), "find", "find(char) in %s: %zd", show(h.m).c_str(), ssize_t(g));
    size_t res = 0; if (guarded(c, p > h.m.size(), "find(char,pos)", [&] { res = cs.find(ch, p); asm volatile("" : : "r"(res) : "memory"); })) { f = h.m.find(ch, p); VH_CHECK(res == (f == std::string::npos ? String::npos : f - p), "find", "find(char,%zu) in %s: %zd", p, show(h.m).c_str(), ssize_t(res)); }
    f = h.m.rfind(ch); VH_CHECK(cs.rfind(ch) == (f == std::string::npos ? String::npos : f), "rfind", "rfind(char) in %s", show(h.m).c_str()); END
  OP("find-str", 'S') Src a = c.r.chance(50) ? Src{ String(), "" } : rsrc(c, h); if (a.m.empty() && c.r.chance(90)) { if (h.m.size() && c.r.chance(60)) { size_t i = c.r.below(h.m.size()); a.m = h.m.substr(i, 1 + c.r.below(4)); if (c.r.chance(20)) a.m += rch(c); } else a.m = rstr(c, 4); a.s = String(a.m.data(), a.m.size()); }
    size_t p = rpos(c, h.m.size()), lp = rpos(c, h.m.size(), 15); const String& cs = *h.s; op("h%zu find %s pos %zu lpos %zu", hi, show(a.m).c_str(), p, lp);
    size_t g = cs.find(a.s); VH_CHECK(g == mfind(h.m, a.m, 0), "find", "find(%s) in %s: %zd", show(a.m).c_str(), show(h.m).c_str(), ssize_t(g));
    size_t res = 0; if (guarded(c, p > h.m.size(), "find(string,pos)", [&] { res = cs.find(a.s, p); asm volatile("" : : "r"(res) : "memory"); })) VH_CHECK(res == mfind(h.m, a.m, p), "find", "find(%s,%zu) in %s: %zd", show(a.m).c_str(), p, show(h.m).c_str(), ssize_t(res));
    g = cs.rfind(a.s); VH_CHECK(g == mrfind(h.m, a.m, 0), "rfind", "rfind(%s) in %s: %zd", show(a.m).c_str(), show(h.m).c_str(), ssize_t(g));
    g = cs.rfind(a.s, lp); VH_CHECK(g == mrfind(h.m, a.m, lp), "rfind", "rfind(%s,%zu) in %s: %zd", show(a.m).c_str(), lp, show(h.m).c_str(), ssize_t(g));
    g = cs.ifind(a.s); VH_CHECK(g == mfind(up(h.m), up(a.m), 0), "ifind", "ifind(%s) in %s: %zd", show(a.m).c_str(), show(h.m).c_str(), ssize_t(g));
    g = cs.rifind(a.s); VH_CHECK(g == mrfind(up(h.m), up(a.m), 0), "rifind", "rifind(%s) in %s: %zd", show(a.m).c_str(), show(h.m).c_str(), ssize_t(g));
    g = cs.rifind(a.s, lp); VH_CHECK(g == mrfind(up(h.m), up(a.m), lp), "rifind", "rifind(%s,%zu) in %s: %zd", show(a.m).c_str(), lp, show(h.m).c_str(), ssize_t(g)); END
  OP("compare", 'S') Src a = rsrc(c, h); if (c.r.chance(15)) { size_t k = rpos(c, h.m.size(), 0); a.s = h.s->substring(0, ssize_t(k)); a.m = h.m.substr(0, k); } else if (c.r.chance(35)) { a.m = h.m; if (c.r.chance(60)) { if (a.m.size() && c.r.chance(60)) { size_t i = c.r.below(a.m.size()); a.m[i] = rch(c); } else a.m += rch(c); } a.s = String(a.m.data(), a.m.size()); }
    size_t n = c.r.chance(30) ? rpos(c, std::max(h.m.size(), a.m.size()), 20) : c.r.below(8); const String &x = *h.s, &y = a.s; op("h%zu compare %s n=%zu", hi, show(a.m).c_str(), n); int w = mcmp(h.m, a.m);
    VH_CHECK(sgn(x.compare(y)) == w, "compare", "compare(%s, %s)", show(h.m).c_str(), show(a.m).c_str()); VH_CHECK(sgn(y.compare(x)) == -w, "compare", "compare not antisymmetric");
    VH_CHECK((x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x <= y) == (w <= 0) && (x > y) == (w > 0) && (x >= y) == (w >= 0), "compare", "operators on %s, %s", show(h.m).c_str(), show(a.m).c_str());
    VH_CHECK(sgn(x.compare(y, n)) == mcmp(h.m.substr(0, n), a.m.substr(0, n)), "compare", "compare(%s, %s, %zu)", show(h.m).c_str(), show(a.m).c_str(), n);
    /* C strings: the text up to the first NUL */
    std::string cs(a.m.c_str()); std::unique_ptr<char[]> ex(new char[cs.size() + 1]); memcpy(ex.get(), cs.c_str(), cs.size() + 1); const char* z = ex.get(); w = mcmp(h.m, cs);
    VH_CHECK(sgn(x.compare(z)) == w, "compare", "compare(%s, cstr %s) = %d", show(h.m).c_str(), show(cs).c_str(), x.compare(z));
    VH_CHECK((x == z) == (w == 0) && (x != z) == (w != 0) && (x < z) == (w < 0) && (x <= z) == (w <= 0) && (x > z) == (w > 0) && (x >= z) == (w >= 0), "compare", "operators on %s, cstr %s", show(h.m).c_str(), show(cs).c_str());
    VH_CHECK(sgn(x.compare(z, n)) == mcmp(h.m.substr(0, n), cs.substr(0, n)), "compare", "compare(%s, cstr %s, %zu) = %d", show(h.m).c_str(), show(cs).c_str(), n, x.compare(z, n));
    for (auto& o : c.pool) { int v = mcmp(h.m, o.m); VH_CHECK(sgn(x.compare(*o.s)) == v && (x == *o.s) == (v == 0) && (x < *o.s) == (v < 0), "compare", "pool compare %s, %s", show(h.m).c_str(), show(o.m).c_str()); } END
  OP("bad-index", 'I') size_t p = h.m.size() + (c.r.chance(50) ? 0 : c.r.below(50)); if (c.r.chance(20)) p = size_t(-1) - c.r.below(3); if (c.r.chance(30) && h.m.size()) p = c.r.below(h.m.size()); op("h%zu at(%zu)", hi, p); const String& cs = *h.s; char r = 0; bool bad = p >= h.m.size();
    if (guarded(c, bad, "at", [&] { r = cs.at(p); })) VH_CHECK(r == h.m[p], "index", "at(%zu)", p); if (guarded(c, bad, "charAt", [&] { r = cs.charAt(p); })) VH_CHECK(r == h.m[p], "index", "charAt(%zu)", p); END
  OP("bad-edit", 'I') size_t p = rpos(c, h.m.size(), 70); bool bad = p > h.m.size(); if (!bad) return; Src a = rsrc(c, h); int k = int(c.r.below(11)); char ch = 'k'; op("h%zu invalid position %zu kind %d", hi, p, k); size_t n = 1 + c.r.below(3); size_t res;
    guarded(c, true, "edit at an invalid position", [&] { switch (k) { case 0: h.s->insert(p, 'k'); break; case 1: h.s->insert(p, ch); break; case 2: h.s->insert(p, "xyz"); break; case 3: h.s->insert(p, "xyz", n); break; case 4: h.s->insert(p, a.s); break; case 5: h.s->insert(p, String(a.s)); break; case 6: h.s->insert(p, a.s, n); break; case 7: h.s->replace(p, ch); break; case 8: h.s->replace(p, "xyz"); break; case 9: h.s->replace(p, a.s); break; default: res = h.s->find(a.s, p); asm volatile("" : : "r"(res) : "memory"); } }); VH_CHECK(std::string(a.s) == a.m, "arg-changed", "failed edit changed its argument"); END
  /* T: tokens */
  OP("split", 'T') std::string d = c.r.chance(35) ? " " : c.r.chance(8) ? "" : rstr(c, 3); if (c.r.chance(30) && h.m.size()) d = h.m.substr(c.r.below(h.m.size()), 1 + c.r.below(2)); size_t lim = c.r.chance(50) ? String::npos : 1 + c.r.below(6); op("h%zu split(%s, %zd)", hi, show(d).c_str(), ssize_t(lim)); const String& cs = *h.s; String dd(d.data(), d.size());
    Array<String> got(lim == String::npos ? cs.split(dd) : cs.split(dd, lim)); auto want = msplit(h.m, d, lim); bool same = got.length() == want.size(); for (size_t i = 0; same && i < want.size(); ++i) same = std::string(static_cast<const Array<String>&>(got)[i]) == want[i];
    std::string gs, ws; const Array<String>& cg = got; for (size_t i = 0; i < cg.length(); ++i) gs += show(std::string(cg[i])) + ","; for (auto& x : want) ws += show(x) + ","; VH_CHECK(same, "split", "split(%s, %s, %zd) = [%s] expected [%s]", show(h.m).c_str(), show(d).c_str(), ssize_t(lim), gs.c_str(), ws.c_str());
    if (lim != String::npos) VH_CHECK(got.length() <= lim, "split", "more than %zu elements", lim);
    if (!d.empty() && d != " " && got.length()) { std::string j(cg.join(dd)); VH_CHECK(j == h.m || (lim == String::npos && j + d == h.m), "join", "join(split(%s)) is %s", show(h.m).c_str(), show(j).c_str()); } 
    if (cg.length() && c.r.chance(30)) { size_t i = c.r.below(cg.length()); *h.s = cg[i]; h.m = want[i]; } END
  OP("newsplit", 'T') char d = c.r.chance(50) ? ' ' : rch(c); op("h%zu newsplit(%02x)", hi, (unsigned char)d); std::string first, rest; if (!h.m.empty()) { size_t p = h.m.find(d); if (p == std::string::npos) { first = h.m; rest = ""; } else { first = h.m.substr(0, p); size_t q = p + 1; if (d == ' ') while (q < h.m.size() && h.m[q] == ' ') ++q; rest = h.m.substr(q); } }
    String tok(d == ' ' && c.r.chance(50) ? newsplit(*h.s) : newsplit(*h.s, d)); VH_CHECK(std::string(tok) == first, "newsplit", "newsplit(%s) returned %s", show(h.m).c_str(), show(std::string(tok)).c_str()); h.m = rest; END
  OP("trim", 'T') op("h%zu trim", hi); std::string m = h.m; size_t a = 0; while (a < m.size() && msp(m[a])) ++a; size_t b = m.size(); while (b > a && msp(m[b - 1])) --b; m = m.substr(a, b - a); const String& cs = *h.s; String t(cs.trim()); VH_CHECK(std::string(t) == m, "trim", "trim of %s is %s", show(h.m).c_str(), show(std::string(t)).c_str()); if (c.r.chance(60)) { String& ret = h.s->trim(); VH_CHECK(&ret == h.s.get(), "trim", "trim returns itself"); h.m = m; } END
  OP("chomp", 'T') op("h%zu chomp", hi); std::string m = h.m; if (m.size() && m.back() == '\n') m.pop_back(); if (m.size() && m.back() == '\r') m.pop_back(); const String& cs = *h.s; String t(cs.chomp()); VH_CHECK(std::string(t) == m, "chomp", "chomp of %s is %s", show(h.m).c_str(), show(std::string(t)).c_str()); if (c.r.chance(60)) { h.s->chomp(); h.m = m; } END
  OP("sub", 'T') std::string a = rstr(c, 3), b = rstr(c, 5); if (c.r.chance(40) && h.m.size()) a = h.m.substr(c.r.below(h.m.size()), 1 + c.r.below(2)); if (c.r.chance(20)) b = a + a; fit(h.m, a, b); int lim = c.r.chance(60) ? -1 : int(1 + c.r.below(4)); if (lim != -1 && c.r.chance(25)) { size_t occ = 0; for (size_t q = 0; a.size() && (q = h.m.find(a, q)) != std::string::npos; q += a.size()) ++occ; lim = int(std::max<long>(1, long(occ) + long(c.r.below(4)) - 2)); } op("h%zu sub(%s,%s,%d)", hi, show(a).c_str(), show(b).c_str(), lim); const String& cs = *h.s; String sa(a.data(), a.size()), sb(b.data(), b.size()); String t(lim == -1 ? cs.sub(sa, sb) : cs.sub(sa, sb, lim)); std::string m = msub(h.m, a, b, lim); VH_CHECK(std::string(t) == m, "sub", "sub(%s,%s,%d) of %s is %s", show(a).c_str(), show(b).c_str(), lim, show(h.m).c_str(), show(std::string(t)).c_str()); if (c.r.chance(30) && m.size() < 3000) { *h.s = t; h.m = m; } END
  OP("subst", 'T') HashTable<String, String> tab; size_t n = c.r.below(4); for (size_t i = 0; i < n; ++i) { std::string a = rstr(c, 3), b = rstr(c, 4); if (h.m.size() > 3000 || b.size() > 100) { fit(h.m, a, b); b.resize(std::min(b.size(), a.size() + 1)); if (h.m.size() > 20000) b.resize(std::min(b.size(), a.size())); } tab.insert(String(a.data(), a.size()), String(b.data(), b.size())); } std::string m = h.m; const auto& ct = tab; for (const auto& kv : ct) m = msub(m, std::string(kv.first), std::string(kv.second), -1); op("h%zu subst(%zu entries)", hi, n); String t(static_cast<const String&>(*h.s).subst(tab)); VH_CHECK(std::string(t) == m, "subst", "subst of %s is %s expected %s", show(h.m).c_str(), show(std::string(t)).c_str(), show(m).c_str()); END
  /* O: observation */
  OP("hash", 'O') op("h%zu hash", hi); check_hash(h); END
  OP("views", 'O') op("h%zu views", hi); check_views(c, h); END
  OP("key", 'O') HashTable<String, int> t; for (size_t i = 0; i < c.pool.size(); ++i) t.insert(*c.pool[i].s, int(i)); op("pool as table keys"); for (size_t i = 0; i < c.pool.size(); ++i) { String k(c.pool[i].m.data(), c.pool[i].m.size()); VH_CHECK(t.contains(k), "key", "key %s not found through an equal string", show(c.pool[i].m).c_str()); size_t f = 0; while (c.pool[f].m != c.pool[i].m) ++f; VH_CHECK(t.getValue(k) == int(f), "key", "key %s maps to %d", show(c.pool[i].m).c_str(), t.getValue(k)); } END
};
/* hundreds of owners of one buffer */
static void crowd(Ctx& c, H& h, size_t hi) {
  size_t k = c.r.chance(4) ? 65536 : 256; k += c.r.below(4); op("%zu copies of h%zu", k, hi);
  std::vector<String> v(k, *h.s); std::string m = h.m; v[c.r.below(k)] += "x"; v[k / 2].insert(size_t(0), 'y'); *h.s += "edit"; h.m += "edit";
  v.resize(k / 2); VH_CHECK(std::string(v[0]) == m || std::string(v[0]) == m + "x", "content", "one of %zu copies changed", k); v.clear();
}
/* most other handles become copies or parts of this one */
static void burst(Ctx& c, H& h, size_t hi) {
  if (h.m.size() > 20000) return;
  op("copies and parts of h%zu everywhere", hi); vh::count("bursts of sharing");
  for (auto& o : c.pool) if (&o != &h && c.r.chance(80)) { if (c.r.chance(50)) { *o.s = *h.s; o.m = h.m; } else { ssize_t a = rsigned(c, h.m.size()), b = rsigned(c, h.m.size()); *o.s = h.s->substring(a, b); o.m = mslice(h.m, a, b); } }
  verify_all(c, "sharing");
}
static const size_t NOPS = sizeof(OPS) / sizeof(OPS[0]);
static uint64_t opcount[NOPS];

static unsigned weight(char g) {
  const std::string& m = vh::S().mode;
  unsigned w = g == 'B' ? 6 : g == 'X' ? 8 : g == 'E' ? 10 : g == 'V' ? 8 : g == 'S' ? 3 : g == 'T' ? 4 : g == 'I' ? 2 : 4;
  for (char f : m) if (f == g) w *= 5;
  return w;
}
static void run_case(Rng& r, uint64_t no) {
  static std::vector<unsigned> cum;
  if (cum.empty()) { unsigned t = 0; for (auto& o : OPS) { t += weight(o.group); cum.push_back(t); } }
  bool huge = r.below(2500) == 0;   // a few histories work on very long strings
  Ctx c{ r, {}, int(r.below(8)), huge ? 100000u : r.chance(6) ? 5000u : 30u, 0 };
  bool crowded = r.chance(15) && !huge; size_t n = crowded ? 5 + r.below(6) : 2 + r.below(5);
  for (size_t i = 0; i < n; ++i) { H h; h.s.reset(new String); c.pool.push_back(std::move(h)); }
  size_t steps = 8 + r.below(50);
  bool hot = r.chance(50);      // hash cached before nearly every edit
  for (size_t i = 0; i < steps; ++i) {
    unsigned w = unsigned(r.below(cum.back()));
    size_t k = size_t(std::upper_bound(cum.begin(), cum.end(), w) - cum.begin());
    size_t hi = r.below(n);
    H& h = c.pool[hi];
    if (hot && r.chance(70)) { for (auto& o : c.pool) { size_t v = o.s->hash(); asm volatile("" : : "r"(v) : "memory"); } }
    if (r.chance(crowded ? 30 : 3)) { size_t bi = r.chance(70) ? hi : r.below(n); burst(c, c.pool[bi], bi); }
    uint64_t st = vh::mix(vh::hstr(h.m.data(), h.m.size()), k);
    st = vh::mix(st, h.s->rcount() * 4096 + h.s->capacity());
    vh::distinct(st);
    OPS[k].fn(c, h, hi);
    ++opcount[k];
    if (r.below(6000) == 0) crowd(c, h, hi);
    verify_all(c, OPS[k].name);
    if (r.chance(25)) check_views(c, h);
    if (hot || r.chance(20)) check_hash(h);
    if (r.chance(10)) { for (auto& o : c.pool) { check_hash(o); check_cstr(o); } verify_all(c, "c_str of all"); }
    if (h.m.size() > (huge ? 300000 : 12000)) { h.s->clear(); h.m.clear(); }
  }
  /* destroy in random order, survivors stay intact */
  while (!c.pool.empty()) { size_t i = r.below(c.pool.size()); c.pool.erase(c.pool.begin() + long(i)); verify_all(c, "destruction"); }
#ifdef HAVE_LSAN
  if (no % 512 == 511) { VH_CHECK(__lsan_do_recoverable_leak_check() == 0, "leak", "LeakSanitizer found a leak"); }
#else
  (void)no;
#endif
}
int main(int argc, char** argv) {
  return vh::drive(argc, argv, run_case, [] { for (size_t i = 0; i < NOPS; ++i) if (opcount[i]) vh::count(std::string("op:") + OPS[i].name, opcount[i]); });
}
