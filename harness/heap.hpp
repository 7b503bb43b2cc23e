/* Heap monitor: replaces operator new and delete.  Inside a Track scope every
 * block is registered (address, size, serial), can be made to fail, and can be
 * looked at by a hook just before it is given back to the allocator.  Blocks
 * have a margin so that a pointer to one past the end still identifies them. */
#ifndef HEAP_HPP
#define HEAP_HPP
#include "vh.hpp"
#include <new>
struct Blk { char* p; size_t n; uint64_t serial; };
struct Heap {
  bool track = false; volatile bool inside = false;   // inside: our own malloc (volatile: compilers know that malloc reads no variable)
  static const size_t CAP = 1 << 15, MARGIN = 32;
  Blk* tab = nullptr; size_t n = 0;        // live tracked blocks, sorted by address
  uint64_t serial = 0, news = 0, dels = 0;
  long fail_at = -1; long seen = 0; bool failed = false; bool fail_rest = false;
  void (*on_delete)(const Blk&) = nullptr;
  size_t lower(const char* p) const { size_t a = 0, b = n; while (a < b) { size_t m = (a + b) / 2; if (tab[m].p <= p) a = m + 1; else b = m; } return a; }
  void add(char* p, size_t sz) { if (!tab) { inside = true; tab = static_cast<Blk*>(malloc(CAP * sizeof(Blk))); inside = false; } if (n == CAP) { fprintf(stderr, "heap table full\n"); _exit(3); } size_t i = lower(p); memmove(tab + i + 1, tab + i, (n - i) * sizeof(Blk)); tab[i] = Blk{ p, sz, ++serial }; ++n; ++news; }
  Blk* find(const void* q) { const char* p = static_cast<const char*>(q); size_t i = lower(p); if (!i) return nullptr; Blk& b = tab[i - 1]; return p <= b.p + b.n ? &b : nullptr; }
  bool del(char* p) { size_t i = lower(p); if (!i || tab[i - 1].p != p) return false; Blk b = tab[i - 1]; if (on_delete) { bool t = track; track = false; on_delete(b); track = t; } memmove(tab + i - 1, tab + i, (n - i) * sizeof(Blk)); --n; ++dels; return true; }
};
inline Heap& heap() { static Heap h; return h; }
struct Track { bool o; explicit Track(bool on = true) : o(heap().track) { heap().track = on; } ~Track() { heap().track = o; } };
static void* vh_new(size_t n) {
  Heap& h = heap();
  if (h.track) { long k = h.seen++; if (h.fail_at >= 0 && (k == h.fail_at || (h.fail_rest && k > h.fail_at))) { h.failed = true; throw std::bad_alloc(); } }
  h.inside = true; char* p = static_cast<char*>(malloc(n + Heap::MARGIN)); h.inside = false; if (!p) throw std::bad_alloc();
  if (h.track) { memset(p, 0, n); h.add(p, n); }
  return p;
}
static void vh_del(void* p) { if (!p) return; heap().del(static_cast<char*>(p)); heap().inside = true; free(p); heap().inside = false; }
__attribute__((noinline)) void* operator new(size_t n) { return vh_new(n); }
__attribute__((noinline)) void* operator new[](size_t n) { return vh_new(n); }
__attribute__((noinline)) void operator delete(void* p) noexcept { vh_del(p); }
__attribute__((noinline)) void operator delete[](void* p) noexcept { vh_del(p); }
__attribute__((noinline)) void operator delete(void* p, size_t) noexcept { vh_del(p); }
__attribute__((noinline)) void operator delete[](void* p, size_t) noexcept { vh_del(p); }
#endif
