/* What a string's buffer still holds at the moment it is given back to the
 * allocator.  A shape (how the string is built, shared, sliced and in which
 * order its owners go) is run several times with different random bytes; a
 * position that kept its byte every time was not wiped. */
#include "heap.hpp"
#include "String.h"
#include "Array.h"
#include "Stream.h"
#include "HashTable.h"
#include <memory>
using bd::String; using bd::Array; using bd::Stream; using vh::Rng; using vh::op; using vh::show;

struct Rec { size_t n; std::vector<char> before; std::vector<bool> kept; bool done = false; };
static std::map<uint64_t, Rec>* g_watch;      // serial -> content to look for
static void on_delete(const Blk& b) {
  auto it = g_watch->find(b.serial); if (it == g_watch->end()) return; Rec& r = it->second; r.done = true; r.kept.assign(r.n, false);
  for (size_t i = 0; i < r.n; ++i) r.kept[i] = r.before[i] != 0 && b.p[i] == r.before[i];
}
static std::string secret(Rng& x, size_t n) { std::string s(n, 0); for (auto& c : s) c = char(1 + x.below(255)); return s; }

/* one run of a shape; returns the kept positions of the watched buffers in order */
struct Out { std::vector<Rec> recs; };
static Out run(uint64_t shape_seed, uint64_t bytes_seed) {
  Rng r(shape_seed), x(bytes_seed); Out out; g_watch = new std::map<uint64_t, Rec>; heap().on_delete = on_delete; heap().n = 0;
  { Track off(false);
    struct Own { int kind; String* s; Array<String>* a; Stream* st; bd::HashTable<String, String>* h; std::string val; };
    std::vector<Own> own;
    size_t n; switch (r.below(6)) { case 0: n = 1 + r.below(4); break; case 1: n = r.below(150) == 0 ? 60000 + r.below(20000) : 1000 + r.below(3000); break; case 2: n = 15 + r.below(4); break; default: n = 1 + r.below(120); }
    std::string t = secret(x, n); int how = int(r.below(10)); String* s = nullptr; std::string cur = t;
    op("text of %zu bytes built in way %d", n, how);
    { Track on;
      switch (how) {
        case 0: s = new String(t.data(), t.size()); break;
        case 1: s = new String(t.c_str()); break;
        case 2: s = new String(std::string(t)); break;
        case 3: s = new String; for (char c : t) *s += c; break;
        case 4: s = new String; s->reserve(n + r.below(300)); *s += t.c_str(); break;
        case 5: { size_t h = n / 2; s = new String(t.data(), h); s->reserve(n + 40); s->append(String(t.data() + h, n - h)); break; }
        case 6: s = new String(n + r.below(64)); for (char c : t) s->push_back(c); break;
        case 7: s = new String(String::printf("%s", t.c_str())); break;
        case 8: s = new String(t[0]); s->resize(n, 'x'); for (size_t i = 0; i < n; ++i) (*s)[i] = t[i]; break;
        default: s = new String; s->resize(n, '.'); std::copy(t.begin(), t.end(), s->begin()); break;
      }
      /* edits within the buffer that leave text outside the view */
      int ed = int(r.below(7)); size_t k = r.below(n + 1);
      if (ed == 1) { *s -= k; cur = cur.substr(0, n - k); } else if (ed == 2) { *s += k; cur = cur.substr(k); } else if (ed == 3) { s->slice(ssize_t(k / 2), ssize_t(n - k)); cur = cur.substr(k / 2, n - k); } else if (ed == 4) { s->clear(); cur.clear(); } else if (ed == 5) { s->resize(n - k); cur = cur.substr(0, n - k); } else if (ed == 6) { (void)s->c_str(); }
    }
    Blk* b = cur.empty() && s->capacity() == 0 ? nullptr : heap().find(s->data());
    if (!b || !s->capacity()) { Track on; delete s; delete g_watch; g_watch = nullptr; heap().on_delete = nullptr; return out; }
    uint64_t ser = b->serial; const char* base = b->p; size_t bn = b->n;
    own.push_back(Own{ 0, s, nullptr, nullptr, nullptr, cur });
    size_t owners = n < 200 && r.below(800) == 0 ? 250 + r.below(20) : 1 + r.below(5);
    for (size_t i = 1; i < owners; ++i) {
      Own& src = own[r.below(own.size())]; if (!src.s) continue; Own o{ 0, nullptr, nullptr, nullptr, nullptr, src.val }; Track on;
      switch (r.below(7)) {
        case 0: o.s = new String(*src.s); break;
        case 1: { size_t L = src.val.size(), a = r.below(L + 1), l = r.below(L + 1); o.s = new String(src.s->substring(ssize_t(a), ssize_t(l))); o.val = a >= L ? "" : src.val.substr(a, l); break; }
        case 2: o.s = new String; *o.s = *src.s; break;
        case 3: o.a = new Array<String>; o.a->push_back(*src.s); break;
        case 4: o.st = new Stream(*src.s); break;
        case 5: o.h = new bd::HashTable<String, String>; (*o.h)["k"] = *src.s; break;
        default: { String tmp(*src.s); o.s = new String(std::move(tmp)); break; }
      }
      own.push_back(o);
    }
    /* edits by one owner take it elsewhere and never touch this buffer */
    if (own.size() > 1 && r.chance(30)) { Own& e = own[r.below(own.size())]; if (e.s && !e.val.empty()) { Track on; (*e.s)[0] = 'E'; e.val[0] = 'E'; } }
    auto value = [](const Own& o) { if (o.s) return std::string(*o.s); if (o.a) return std::string((*static_cast<const Array<String>*>(o.a))[0]); if (o.st) return std::string(String(*o.st)); return std::string(String((*o.h)["k"])); };
    auto holds = [&](const Own& o) { const char* d = o.s ? o.s->data() : o.a ? (*static_cast<const Array<String>*>(o.a))[0].data() : nullptr; if (o.s && o.s->capacity() == 0) return false; return d && d >= base && d <= base + bn; };
    /* is the buffer still there (an edit may have moved everyone)? */
    for (size_t left = own.size(); left; --left) {
      size_t i = r.below(own.size()); Own o = own[i]; own.erase(own.begin() + long(i));
      Blk* now = heap().find(base); bool live = now && now->serial == ser; 
      if (live) { Rec rec; rec.n = bn; rec.before.assign(base, base + bn); (*g_watch)[ser] = rec; }
      int way = int(r.below(4)); op("owner of kind %s goes in way %d, %zu left", o.s ? "string" : o.a ? "array" : o.st ? "stream" : "table", way, own.size());
      { Track on;
        if (o.s) { if (way == 0) { std::unique_ptr<String> u(o.s); } else if (way == 1) { String moved(std::move(*o.s)); delete o.s; } else if (way == 2) { try { std::unique_ptr<String> u(o.s); throw 1; } catch (int) {} } else delete o.s; }
        else if (o.a) { if (way == 0) { Array<String> c(*o.a); delete o.a; } else delete o.a; }
        else if (o.st) delete o.st; else delete o.h; }
      if (live && (*g_watch)[ser].done) { VH_CHECK(true, "x", "x"); for (auto& q : own) VH_CHECK(!holds(q), "freed-early", "the buffer was given back while a string still owns it"); out.recs.push_back((*g_watch)[ser]); }
      g_watch->clear();
      for (auto& q : own) { std::string v = value(q); VH_CHECK(v == q.val, "wiped-early", "after another owner went, a remaining owner reads %s expected %s", show(v).c_str(), show(q.val).c_str()); }
    }
  }
  delete g_watch; g_watch = nullptr; heap().on_delete = nullptr; return out;
}
static void run_case(Rng& r, uint64_t no) {
  uint64_t shape = r.next(); std::vector<bool> all; size_t n = 0, cnt = 0; std::vector<std::vector<bool>> kept; size_t runs = 9, secretbytes = 0;
  for (size_t i = 0; i < runs; ++i) {
    Out o = run(shape, r.next());
    if (i == 0) { cnt = o.recs.size(); kept.resize(cnt); for (size_t k = 0; k < cnt; ++k) kept[k] = o.recs[k].kept; }
    VH_CHECK(o.recs.size() == cnt, "shape", "runs of one shape differ");
    for (size_t k = 0; k < cnt; ++k) { VH_CHECK(o.recs[k].n == kept[k].size(), "shape", "runs of one shape differ in size"); for (size_t z = 0; z < kept[k].size(); ++z) { ++vh::S().evals; if (o.recs[k].before[z]) ++secretbytes; kept[k][z] = kept[k][z] && o.recs[k].kept[z]; } vh::count("buffers-given-back"); }
  }
  for (size_t k = 0; k < cnt; ++k) for (size_t z = 0; z < kept[k].size(); ++z) VH_CHECK(!kept[k][z], "not-wiped", "byte %zu of a buffer of %zu bytes was given back unwiped in all of %zu runs", z, kept[k].size(), runs);
  vh::count("secret-bytes-checked", secretbytes); if (cnt) vh::distinct(shape); (void)n; (void)no;
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
