/* Threads that give up their owners of one buffer at the same moment: whoever
 * turns out to be the last one, what goes back to the allocator is wiped, once,
 * and nothing a remaining owner still reads is. */
#include "vh.hpp"
#include "String.h"
#include "Array.h"
#include "Stream.h"
#include "HashTable.h"
#include <atomic>
#include <memory>
#include <new>
#include <sched.h>
#include <thread>
using bd::String; using bd::Array; using bd::Stream; using vh::Rng; using vh::op; using vh::show;

static std::atomic<const char*> g_base{ nullptr };   // the buffer that is watched in this round
static std::atomic<int> g_released{ 0 }, g_kept{ 0 };
static std::string* g_text; static size_t g_at;      // what it held, and where
static void gone(void* p) {
  if (!p) return;
  if (p == g_base.load(std::memory_order_relaxed)) {
    const char* c = static_cast<const char*>(p) + g_at; int same = 0;
    for (size_t i = 0; i < g_text->size(); ++i) same += c[i] == (*g_text)[i];
    g_base.store(nullptr, std::memory_order_relaxed); g_kept.store(same, std::memory_order_relaxed); g_released.fetch_add(1, std::memory_order_relaxed);
  }
  free(p);
}
__attribute__((noinline)) void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
__attribute__((noinline)) void* operator new[](size_t n) { return operator new(n); }
__attribute__((noinline)) void operator delete(void* p) noexcept { gone(p); }
__attribute__((noinline)) void operator delete[](void* p) noexcept { gone(p); }
__attribute__((noinline)) void operator delete(void* p, size_t) noexcept { gone(p); }
__attribute__((noinline)) void operator delete[](void* p, size_t) noexcept { gone(p); }

struct Barrier { std::atomic<int> n{ 0 }, gen{ 0 }; int tot; explicit Barrier(int t) : tot(t) {} void wait() { int g = gen.load(); if (n.fetch_add(1) + 1 == tot) { n.store(0); gen.fetch_add(1); } else { int k = 0; while (gen.load() == g) if (++k > 4000) sched_yield(); } } };
struct Hand { char pad[128]; std::unique_ptr<String> s, s2; std::unique_ptr<Array<String>> a; std::unique_ptr<Stream> st; std::unique_ptr<bd::HashTable<String, String>> h; std::string m; int way = 0; uint64_t spin = 0; bool bad = false; };

static void run_case(Rng& r, uint64_t) {
  const int nt = r.chance(60) ? 2 : 2 + int(r.below(3)), rounds = 400; uint64_t seed = r.next();
  std::vector<Hand> hs{ size_t(nt) }; std::vector<std::thread> th; Barrier bar(nt + 1); std::atomic<bool> stop{ false };
  for (int i = 0; i < nt; ++i) th.emplace_back([&, i] {
    Hand& h = hs[size_t(i)];
    for (;;) {
      bar.wait(); if (stop.load()) return;
      for (volatile uint64_t z = h.spin; z; --z) {}
      switch (h.way) {
        case 0: case 1: h.s.reset(); break;
        case 2: { String t(std::move(*h.s)); h.s.reset(); break; }
        case 3: { h.bad = std::string(h.s->data(), h.s->length()) != h.m; h.s.reset(); break; }
        case 4: h.s2.reset(); h.s.reset(); break;
        case 5: h.a.reset(); break;
        case 6: h.st.reset(); break;
        case 7: h.h.reset(); break;
        default: { String t(*h.s); h.bad = std::string(t.data(), t.length()) != h.m; h.s.reset(); break; }
      }
      bar.wait();
    }
  });
  
  for (int k = 0; k < rounds; ++k) {
    size_t n = 24 + (r.chance(20) ? r.below(600) : r.below(40)); std::string t(n, 0); for (auto& c : t) c = char(1 + r.below(255));
    bool keep = r.chance(15); String kept;
    { std::unique_ptr<String> first(new String(t.data(), t.size()));
      g_text = &t; g_released = 0; g_kept = 0; 
      for (auto& h : hs) {
        h.way = int(r.below(9)); h.m = t; h.bad = false; h.spin = r.chance(50) ? r.below(40) : 0; const String& f = *first; String v(f);
        if (r.chance(30)) { size_t a = r.below(n), l = r.below(n + 1 - a); v = f.substring(ssize_t(a), ssize_t(l)); h.m = t.substr(a, l); if (v.isEmpty()) { v = f; h.m = t; } }
        if (h.way == 5) { h.a.reset(new Array<String>); h.a->push_back(v); if (r.chance(50)) h.a->push_back(f); } else if (h.way == 6) h.st.reset(new Stream(f)); else if (h.way == 7) { h.h.reset(new bd::HashTable<String, String>); (*h.h)["k"] = v; } else h.s.reset(new String(v));
        if (h.way == 4) h.s2.reset(new String(v));
      }
      if (keep) kept = *first;
      g_base.store(static_cast<const String&>(*first).data()); g_at = 0;
    }
    bar.wait(); bar.wait();
    for (auto& h : hs) { ++vh::S().evals; VH_CHECK(!h.bad, "wiped-early", "an owner of a text of %zu bytes read something else just before it went", n); }
    if (keep) { std::string v(static_cast<const String&>(kept).data(), kept.length()); VH_CHECK(v == t, "wiped-early", "the remaining owner reads %s expected %s", show(v).c_str(), show(t).c_str()); VH_CHECK(g_released == 0, "freed-early", "the buffer was given back although an owner is left"); { String x(std::move(kept)); } }
    vh::count("rounds");
    VH_CHECK(g_released == 1, "not-released", "the buffer was given back %d times after all its owners went", int(g_released));
    VH_CHECK(g_kept < int(n / 2), "not-wiped", "%d owners in %d threads went at the same moment; %d of the %zu bytes were given back unwiped", nt, nt, int(g_kept), n);
    ++vh::S().evals;
  }
  g_base = nullptr; stop = true; bar.wait(); for (auto& x : th) x.join();
  vh::distinct(seed);
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
