/* Bounded C-string helpers: exact heap blocks, canaries, reference results. */
#include "vh.hpp"
#include "Cstrings.h"
#include <memory>
using vh::Rng; using vh::op; using vh::show;
static std::unique_ptr<char[]> exact(const std::string& s) { std::unique_ptr<char[]> p(new char[s.size() + 1]); memcpy(p.get(), s.c_str(), s.size() + 1); return p; }
static std::string rtext(Rng& r, size_t cap) { std::string s(r.chance(15) ? 0 : r.below(1500) == 0 ? 65000 + r.below(2000) : r.chance(4) ? r.below(3000) : r.below(cap), 'x'); for (auto& c : s) c = char(1 + r.below(255)); return s; }
static void run_case(Rng& r, uint64_t) {
  for (int it = 0; it < 20; ++it) {
    std::string src = rtext(r, 24); auto s = exact(src);
    size_t siz = r.chance(20) ? src.size() + r.below(3) : r.chance(src.size() > 1000 ? 60 : 1) ? r.below(src.size() * 2 + 4000) : r.below(34); if (r.chance(10)) siz = 0; if (r.chance(10)) siz = 1; if (r.chance(10) && src.size()) siz = src.size();
    std::string init(siz, 0); size_t dl = r.chance(15) ? siz : siz ? r.below(siz) : 0; for (size_t i = 0; i < siz; ++i) init[i] = i < dl ? char(1 + r.below(255)) : i == dl ? 0 : char(r.below(256));
    switch (r.below(7)) {
      case 0: case 1: {
        op("strlcpy(siz %zu, %s)", siz, show(src).c_str());
        for (int tight = 0; tight < 2; ++tight) {
          size_t pad = tight ? 0 : 8; std::unique_ptr<char[]> d(new char[siz + pad + 1 - (siz + pad > 0)]); if (siz) memcpy(d.get(), init.data(), siz); memset(d.get() + siz, '#', pad);
          size_t ret = bd::strlcpy(d.get(), s.get(), siz);
          VH_CHECK(ret == src.size(), "strlcpy", "strlcpy(siz %zu) of %s returned %zu", siz, show(src).c_str(), ret);
          if (siz) { std::string want = src.substr(0, siz - 1); VH_CHECK(!memcmp(d.get(), want.c_str(), want.size() + 1), "strlcpy", "strlcpy(siz %zu) of %s left %s", siz, show(src).c_str(), show(d.get(), siz).c_str()); }
          for (size_t i = siz; i < siz + pad; ++i) VH_CHECK(d[i] == '#', "bounds", "strlcpy wrote past its size %zu", siz);
        } vh::count("strlcpy"); break; }
      case 2: case 3: {
        op("strlcat(siz %zu, dst len %zu, %s)", siz, dl, show(src).c_str());
        for (int tight = 0; tight < 2; ++tight) {
          size_t pad = tight ? 0 : 8; std::unique_ptr<char[]> d(new char[siz + pad + 1 - (siz + pad > 0)]); if (siz) memcpy(d.get(), init.data(), siz); memset(d.get() + siz, '#', pad);
          size_t ret = bd::strlcat(d.get(), s.get(), siz);
          VH_CHECK(ret == dl + src.size(), "strlcat", "strlcat(siz %zu) onto %zu of %s returned %zu", siz, dl, show(src).c_str(), ret);
          if (dl < siz) { std::string want = init.substr(0, dl) + src; if (want.size() > siz - 1) want.resize(siz - 1); VH_CHECK(!memcmp(d.get(), want.c_str(), want.size() + 1), "strlcat", "strlcat(siz %zu) left %s expected %s", siz, show(d.get(), siz).c_str(), show(want).c_str()); }
          else if (siz) VH_CHECK(!memcmp(d.get(), init.data(), siz), "strlcat", "strlcat changed an unterminated destination");
          for (size_t i = siz; i < siz + pad; ++i) VH_CHECK(d[i] == '#', "bounds", "strlcat wrote past its size %zu", siz);
        } vh::count("strlcat"); break; }
      case 4: { op("strdup %s", show(src).c_str()); char* p = bd::strdup(s.get()); VH_CHECK(p && p != s.get() && !strcmp(p, src.c_str()), "strdup", "strdup of %s", show(src).c_str()); memset(s.get(), 'q', src.size()); VH_CHECK(!memcmp(p, src.c_str(), src.size() + 1), "strdup", "copy not independent"); p[src.size()] = 0; free(p); vh::count("strdup"); break; }
      case 5: { size_t mx = r.chance(10) ? size_t(-1) : r.chance(30) ? src.size() - (src.size() && r.chance(30)) + r.below(2) : r.below(30); op("strldup(%s, %zu)", show(src).c_str(), mx); char* p = bd::strldup(s.get(), mx); std::string want = src.substr(0, mx); VH_CHECK(p && !memcmp(p, want.c_str(), want.size() + 1), "strldup", "strldup(%s, %zu) is %s", show(src).c_str(), mx, show(p, want.size()).c_str()); free(p); vh::count("strldup"); break; }
      default: { char* p = nullptr; std::string cur; bool has = false; int k = int(2 + r.below(6)); op("str_redup x%d", k); for (int i = 0; i < k; ++i) { if (r.chance(25)) { bd::str_redup(&p, nullptr); has = false; VH_CHECK(!p, "str_redup", "not cleared"); } else { cur = rtext(r, 40); auto n = exact(cur); bd::str_redup(&p, n.get()); has = true; VH_CHECK(p && p != n.get(), "str_redup", "no copy"); memset(n.get(), 'q', cur.size()); if (r.chance(25)) { size_t from = r.below(cur.size() + 1); op("str_redup from byte %zu of itself", from); cur = cur.substr(from); bd::str_redup(&p, p + from); } } if (has) VH_CHECK(!memcmp(p, cur.c_str(), cur.size() + 1), "str_redup", "str_redup gave %s expected %s", show(p, cur.size()).c_str(), show(cur).c_str()); } bd::str_redup(&p, nullptr); VH_CHECK(!p, "str_redup", "not cleared"); vh::count("str_redup");
        size_t a = r.below(50), b = 1 + r.below(9); unsigned char* z = static_cast<unsigned char*>(bd::calloc(a + 1, b)); for (size_t i = 0; i < (a + 1) * b; ++i) { VH_CHECK(z[i] == 0, "calloc", "calloc memory not zero"); z[i] = (unsigned char)i; } size_t ns = 1 + r.below(900); z = static_cast<unsigned char*>(bd::realloc(z, ns)); for (size_t i = 0; i < std::min(ns, (a + 1) * b); ++i) VH_CHECK(z[i] == (unsigned char)i, "realloc", "realloc lost content"); z[ns - 1] = 1; free(z); vh::count("calloc/realloc"); }
    }
    vh::distinct(vh::mix(vh::mix(vh::hstr(src.data(), src.size()), siz), dl));
  }
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
