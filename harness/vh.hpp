/* Common driver support: random numbers, operation log, oracle reporting,
 * measured coverage.  A driver defines run_case(rng, case_no) and calls
 * vh::drive() from main. */
#ifndef VH_HPP
#define VH_HPP
#include <algorithm>
#include <cinttypes>
#include <climits>
#include <limits.h>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#ifdef VH_ASAN
#include <sanitizer/lsan_interface.h>
#define HAVE_LSAN 1
#endif

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a + 1))); }
  bool chance(unsigned pct) { return below(100) < pct; }
  template <class T> T& pick(std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
inline uint64_t hstr(const char* p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
  return h;
}

struct State {
  std::string prop = "C00", mode, statsfile, logfile;
  uint64_t seed = 1, start = 0, count = 1;
  uint64_t scale = 1;
  uint64_t cur = 0;
  double limit_cpu = 60;
  char* log = nullptr;          // shared mapping, survives a crash
  size_t logcap = 1 << 20, logpos = 0;
  bool lognow = true;
  uint64_t evals = 0;           // oracle comparisons made
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::set<std::string> known, only;    // listed findings; the oracles of this property (empty: all)
  std::map<std::string, uint64_t> known_hits;
};
inline State& S() { static State* s = new State; return *s; }

inline void logv(const char* fmt, va_list ap) {
  State& s = S();
  if (!s.log || !s.lognow) return;
  size_t room = s.logcap - s.logpos;
  if (room < 8) return;
  int n = vsnprintf(s.log + s.logpos, room, fmt, ap);
  if (n < 0) return;
  s.logpos += std::min(size_t(n), room - 2);
  s.log[s.logpos++] = '\n';
  s.log[s.logpos < s.logcap ? s.logpos : s.logcap - 1] = 0;
}
__attribute__((format(printf, 1, 2))) inline void op(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); logv(fmt, ap); va_end(ap);
}
inline std::string show(const char* p, size_t n) {
  std::string r = "\"";
  size_t m = n > 80 ? 80 : n;
  for (size_t i = 0; i < m; ++i) {
    unsigned char c = p[i]; char b[8];
    if (c >= 32 && c < 127 && c != '"' && c != '\\') r += char(c);
    else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  r += "\"";
  if (n > m) r += "...(" + std::to_string(n) + ")";
  return r;
}
inline std::string show(const std::string& s) { return show(s.data(), s.size()); }

inline void write_stats();

/* Another property's oracle disagrees: this case can not go on, and says
 * nothing about the property that is being checked. */
struct Foreign {};
/* An oracle disagrees with the code. */
__attribute__((format(printf, 2, 3))) inline void fail(const char* key, const char* fmt, ...) {
  State& s = S();
  if (s.known.count(key)) { s.known_hits[key]++; return; }
  if (!s.only.empty() && !s.only.count(key)) { s.counters[std::string("foreign:") + key]++; throw Foreign(); }
  char buf[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  op("!! ORACLE %s: %s", key, buf);
  fprintf(stderr, "VIOL key=%s case=%" PRIu64 " seed=%" PRIu64 " mode=%s\n  %s\n", key, s.cur, s.seed, s.mode.c_str(), buf);
  fflush(stderr);
  _exit(77);
}
#define VH_CHECK(cond, key, ...) do { ++vh::S().evals; if (!(cond)) vh::fail(key, __VA_ARGS__); } while (0)

inline void count(const std::string& k, uint64_t n = 1) { S().counters[k] += n; }
inline void distinct(uint64_t h) { if (S().distinct.size() < 400000) S().distinct.insert(h); }

inline std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += char(c);
  }
  return r;
}
inline void write_stats() {
  State& s = S();
  if (s.statsfile.empty()) return;
  FILE* f = fopen(s.statsfile.c_str(), "w");
  if (!f) { perror("stats"); _exit(3); }
  fprintf(f, "{\"cases\": %" PRIu64 ", \"oracle_evaluations\": %" PRIu64 ", \"counters\": {", s.counters["cases"], s.evals);
  bool first = true;
  for (auto& kv : s.counters) { fprintf(f, "%s\"%s\": %" PRIu64, first ? "" : ", ", jesc(kv.first).c_str(), kv.second); first = false; }
  fprintf(f, "}, \"known\": {");
  first = true;
  for (auto& kv : s.known_hits) { fprintf(f, "%s\"%s\": %" PRIu64, first ? "" : ", ", jesc(kv.first).c_str(), kv.second); first = false; }
  fprintf(f, "}, \"samples\": [");
  first = true;
  for (auto& x : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(x).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
  f = fopen((s.statsfile + ".set").c_str(), "wb");
  if (!f) _exit(3);
  for (uint64_t h : s.distinct) fwrite(&h, 8, 1, f);
  fclose(f);
}

inline void on_cpu(int) {
  static const char m[] = "VIOL key=no-termination (case exceeded its CPU-time limit)\n";
  ssize_t r = write(2, m, sizeof m - 1); (void)r;
  _exit(78);
}
inline void arm(double sec) {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = long(sec);
  setitimer(ITIMER_PROF, &it, nullptr);
}

typedef void (*case_fn)(Rng&, uint64_t);
inline int drive(int argc, char** argv, case_fn fn, std::function<void()> at_end = nullptr) {
  State& s = S();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") s.prop = v;
    else if (a == "--mode") s.mode = v;
    else if (a == "--seed") s.seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--start") s.start = strtoull(v.c_str(), 0, 10);
    else if (a == "--count") s.count = strtoull(v.c_str(), 0, 10);
    else if (a == "--scale") s.scale = strtoull(v.c_str(), 0, 10);
    else if (a == "--stats") s.statsfile = v;
    else if (a == "--log") s.logfile = v;
    else if (a == "--known") s.known.insert(v);
    else if (a == "--only") s.only.insert(v);
    else if (a == "--cpu") s.limit_cpu = atof(v.c_str());
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
  }
  if (!s.logfile.empty()) {
    int fd = open(s.logfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, s.logcap)) { perror("log"); return 3; }
    s.log = static_cast<char*>(mmap(0, s.logcap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
    if (s.log == MAP_FAILED) { perror("mmap"); return 3; }
  }
  signal(SIGPROF, on_cpu);
  for (uint64_t c = s.start; c < s.start + s.count; ++c) {
    s.cur = c;
    s.logpos = 0;
    op("case %" PRIu64 " seed %" PRIu64 " mode %s", c, s.seed, s.mode.c_str());
    arm(s.limit_cpu);
    Rng r(mix(mix(s.seed, 0x51ed27), c));
    try { fn(r, c); } catch (const Foreign&) {}
    ++s.counters["cases"];
    if (s.log && s.samples.size() < 3 && (c - s.start) % 37 == 1)
      s.samples.push_back(std::string(s.log, std::min(s.logpos, size_t(700))));
  }
  arm(s.limit_cpu * 2);
  if (at_end) at_end();
  arm(0);
  write_stats();
  return 0;
}
} // namespace vh
#endif
