/* Stream load/save: real files, every system call made to fail in turn. */
#include "sysmon.hpp"
#include "Stream.h"
#include <memory>
#include <new>
#include <sched.h>
#include <sys/mount.h>
using bd::String; using bd::Stream; using vh::Rng; using vh::op; using vh::show;
#ifdef V_NO_MMAP
static const bool MM = false;
#else
static const bool MM = true;
#endif
static std::string rdata(Rng& r) { size_t n; switch (r.below(8)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = 4094 + r.below(5); break; case 3: n = 1022 + r.below(5); break; case 4: n = r.below(40000); break; case 5: n = r.chance(10) ? 300000 + r.below(900000) : r.below(3000); break; default: n = r.below(200); } std::string s(n, 0); uint64_t x = r.next(); bool bin = r.chance(50); for (auto& c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = bin ? char(x >> 56) : char('a' + (x >> 58) % 26); } return s; }
static std::string rname(Rng& r) { static const char* N[] = { "f", "a b", "%s%n", "x.y", ".hid", "sub/f", "./f", "sub/../g" }; std::string n = N[r.below(8)]; if (r.chance(5)) n += std::string(200, 'n'); return n; }
static String S(const std::string& s) { return String(s.data(), s.size()); }
static Stream mkstream(Rng& r, const std::string& d, size_t& tell) { Stream s; switch (r.below(3)) { case 0: s = Stream(S(d)); break; case 1: { size_t h = d.size() / 2; s << S(d.substr(0, h)); s << S(d.substr(h)); break; } default: { std::string l = "pre" + d + "post"; String big(S(l)); String part(big(3, ssize_t(d.size()))); if (d.empty()) part = String(); Stream t(part); s = t; } } s.seek(int(d.size() ? r.below(d.size()) : 0), SEEK_SET); tell = s.tell(); return s; }
struct Env { Rng& r; std::string dir; };
static void clean_maps() { for (auto& u : mon().unmapped) __real_munmap(u.first, u.second); mon().unmapped.clear(); }

static void save_case(Env& e) {
  Rng& r = e.r; std::string name = rname(r), data = rdata(r), old; bool exists = r.chance(50); mode_t om = r.chance(50) ? 0640 : 0600, mode = r.chance(50) ? 0600 : r.chance(50) ? 0644 : 0755, um = r.chance(50) ? 022 : 0; bool byfd = r.chance(25), defmode = r.chance(30); bool full = MM || !byfd;
  if (exists) { old = rdata(r); }
  umask(um);
  size_t tell; Stream s(mkstream(r, data, tell)); String holder; if (r.chance(40)) holder = String(s);
  static const int errs[] = { EIO, ENOSPC, EACCES, EMFILE, ENOMEM };
  /* k = -1: no fault; then the k-th call fails, until the run has no k-th call */
  for (long k = -1; k < 40; ++k) {
    ::unlink(name.c_str()); if (exists) spit(name, old, om); else if (byfd) spit(name, "", om);
    int fd = -1; if (byfd) { fd = __real_open(name.c_str(), O_RDWR | (full ? 0 : O_TRUNC) | (r.chance(25) ? O_APPEND : 0)); if (full && r.chance(50)) __real_lseek(fd, 3, SEEK_SET); }
    auto f0 = fds();
    mon().err = errs[r.below(5)]; if (k >= 0) mon().fail = { k };
    op("save %zu bytes to %s %s fault at call %ld", data.size(), byfd ? "fd of" : "", show(name).c_str(), k);
    if (k < 0 && r.chance(40)) mon().shortio = r.next() | 1;
    mon().start(); int ret = byfd ? s.writeFile(fd) : defmode ? s.writeFile(S(name)) : s.writeFile(S(name), mode); mon().stop();
    long inj = mon().injected; std::string nm = mon().injected_names;
    clean_maps();
    if (k >= 0 && !inj) { if (fd >= 0) __real_close(fd); if (k >= mon().n) break; continue; }
    VH_CHECK(fds() == f0, "fd-leak", "saving left the descriptor table changed (fault %s)", nm.c_str());
    VH_CHECK(std::string(String(s)) == data && s.tell() == tell, "stream-changed", "saving changed the stream (fault %s)", nm.c_str());
    if (holder.length()) VH_CHECK(std::string(holder) == data, "stream-changed", "saving changed a sharer of the stream's text");
    VH_CHECK(!mapped(name), "map-leak", "the file stays mapped after saving");
    if (inj) { VH_CHECK(ret != 0, "fault-ignored", "saving reported success although %swas made to fail", nm.c_str()); vh::count("save-fault:" + nm); }
    else VH_CHECK(ret == 0, "save-failed", "saving %zu bytes to %s failed without a reason", data.size(), show(name).c_str());
    if (ret == 0) { std::string got; VH_CHECK(slurp(name, got) && got == data, "save-content", "saving %zu bytes over %zu reported success but the file holds %zu bytes %s", data.size(), old.size(), got.size(), show(got).c_str()); struct stat st; __real_stat(name.c_str(), &st); mode_t want = exists || byfd ? om : mode_t((defmode ? 0600 : mode) & ~um); VH_CHECK((st.st_mode & 07777) == want, "save-mode", "the saved file has mode %o expected %o", st.st_mode & 07777, want); }
    if (fd >= 0) { VH_CHECK(fcntl(fd, F_GETFD) != -1, "fd-closed", "saving closed the caller's descriptor"); __real_close(fd); }
    vh::count("saves"); vh::distinct(vh::mix(vh::mix(vh::hstr(data.data(), data.size()), uint64_t(k + 1)), vh::hstr(nm.data(), nm.size())));
  }
  ::unlink(name.c_str());
  if (r.chance(40)) { /* refused by the system itself */
    int kind = int(r.below(4)); op("save refused kind %d", kind); int ret = 0; auto f0 = fds();
    if (kind == 0) ret = s.writeFile(S("no/such/dir/f")); else if (kind == 1) ret = s.writeFile(S("sub")); else if (kind == 2) { if (data.empty()) return; int fd = __real_open("/dev/full", O_RDWR); if (fd < 0) return; auto f1 = fds(); ret = s.writeFile(fd); VH_CHECK(fds() == f1, "fd-leak", "failed save leaked a descriptor"); __real_close(fd); }
    else { if (data.size() < 2) return; struct rlimit old_, lim; getrlimit(RLIMIT_FSIZE, &old_); lim = old_; lim.rlim_cur = data.size() - 1; signal(SIGXFSZ, SIG_IGN); bool lg = vh::S().lognow; vh::S().lognow = false; setrlimit(RLIMIT_FSIZE, &lim); ret = s.writeFile(S(name)); setrlimit(RLIMIT_FSIZE, &old_); vh::S().lognow = lg; }
    VH_CHECK(ret != 0, "fault-ignored", "saving where it cannot succeed (kind %d) reported success", kind); VH_CHECK(fds() == f0, "fd-leak", "failed save leaked a descriptor"); VH_CHECK(std::string(String(s)) == data && s.tell() == tell, "stream-changed", "a failed save changed the stream"); vh::count("save-refused:" + std::to_string(kind)); ::unlink(name.c_str());
  }
}
static void load_case(Env& e) {
  Rng& r = e.r; std::string name = rname(r), data = rdata(r); bool byfd = r.chance(30);
  static const int errs[] = { EIO, ENOMEM, EACCES, EMFILE };
  size_t pt; std::string prev = r.chance(60) ? rdata(r) : ""; Stream base(mkstream(r, prev, pt)); String keep(base);
  spit(name, data, 0600);
  for (long k = -1; k < 200; ++k) {
    Stream s(base); int fd = -1; if (byfd) { fd = __real_open(name.c_str(), O_RDONLY); if (r.chance(50)) __real_lseek(fd, 7, SEEK_SET); }
    auto f0 = fds(); mon().err = errs[r.below(4)]; if (k >= 0) mon().fail = { k };
    op("load %zu bytes from %s%s fault at call %ld", data.size(), byfd ? "fd of " : "", show(name).c_str(), k);
    if (k < 0 && r.chance(40)) mon().shortio = r.next() | 1;
    mon().start(); int ret = byfd ? s.loadFile(fd) : s.loadFile(S(name)); mon().stop();
    long inj = mon().injected; std::string nm = mon().injected_names; clean_maps();
    if (k >= 0 && !inj) { if (fd >= 0) __real_close(fd); if (k >= mon().n) break; continue; }
    VH_CHECK(fds() == f0, "fd-leak", "loading left the descriptor table changed (fault %s)", nm.c_str());
    VH_CHECK(!mapped(name), "map-leak", "the file stays mapped after loading (fault %s)", nm.c_str());
    if (!inj) VH_CHECK(ret == 0, "load-failed", "loading %zu bytes failed without a reason", data.size()); else vh::count("load-fault:" + nm);
    if (ret == 0) { std::string got{ String(s) }; VH_CHECK(got == data && s.length() == data.size() && s.tell() == 0, "load-content", "loading reported success but the stream holds %zu bytes %s (cursor %zu), the file %zu bytes (fault %s)", got.size(), show(got).c_str(), s.tell(), data.size(), nm.c_str()); String all(s.read(data.size() + 5)); VH_CHECK(std::string(all) == data, "load-content", "reading a loaded stream"); }
    VH_CHECK(std::string(String(base)) == prev && std::string(keep) == prev, "stream-changed", "loading changed a copy of the stream");
    std::string still; VH_CHECK(slurp(name, still) && still == data, "file-changed", "loading changed the file");
    if (fd >= 0) { VH_CHECK(fcntl(fd, F_GETFD) != -1, "fd-closed", "loading closed the caller's descriptor"); __real_close(fd); }
    vh::count("loads"); vh::distinct(vh::mix(vh::mix(vh::hstr(data.data(), data.size()), uint64_t(k + 1001)), vh::hstr(nm.data(), nm.size())));
  }
  ::unlink(name.c_str());
  { Stream s(base); auto f0 = fds(); int kind = int(r.below(4)); op("load refused kind %d", kind); int wfd = -1; if (kind == 3) { spit(name, "x" + data, 0600); wfd = __real_open(name.c_str(), O_WRONLY); f0 = fds(); } int ret = kind == 0 ? s.loadFile(S("no-such-file")) : kind == 1 ? s.loadFile(S("sub")) : kind == 2 ? s.loadFile(-1) : s.loadFile(wfd); if (wfd >= 0) { auto f1 = fds(); VH_CHECK(f1 == f0, "fd-leak", "failed load leaked a descriptor"); __real_close(wfd); ::unlink(name.c_str()); f0 = fds(); } VH_CHECK(ret != 0, "fault-ignored", "loading what cannot be loaded (kind %d) reported success", kind); VH_CHECK(fds() == f0, "fd-leak", "failed load leaked a descriptor"); vh::count("load-refused:" + std::to_string(kind)); }
  /* what was saved is what is loaded */
  { size_t t; Stream s(mkstream(r, data, t)); if (s.writeFile(S(name)) == 0) { Stream l; VH_CHECK(l.loadFile(S(name)) == 0 && std::string(String(l)) == data, "roundtrip", "load after save of %zu bytes", data.size()); } else vh::fail("save-failed", "save failed without a reason"); ::unlink(name.c_str()); }
}
/* A file system of a few pages, in a mount namespace of our own that goes with the process. */
static bool put(const char* f, const char* t) { int fd = __real_open(f, O_WRONLY); if (fd < 0) return false; bool ok = __real_write(fd, t, strlen(t)) == ssize_t(strlen(t)); __real_close(fd); return ok; }
static bool small_fs() {
  static int st = -1; if (st >= 0) return st;
  char u[64], g[64]; snprintf(u, sizeof u, "0 %d 1", int(getuid())); snprintf(g, sizeof g, "0 %d 1", int(getgid()));
  mkdir("small", 0755);
  st = unshare(CLONE_NEWUSER | CLONE_NEWNS) == 0 && put("/proc/self/setgroups", "deny") && put("/proc/self/uid_map", u) && put("/proc/self/gid_map", g) && mount("none", "small", "tmpfs", 0, "size=128k") == 0;
  if (!st) fprintf(stderr, "no file system of our own (%s): full disks are not exercised\n", strerror(errno));
  return st;
}
static void full_case(Rng& r) {
  if (!small_fs()) { vh::count("no-small-fs"); return; }
  umask(022); std::string data = rdata(r), old, filler; if (r.chance(60)) { data.resize(20000 + r.below(300000)); for (auto& c : data) if (!c) c = char(r.next()); }
  size_t tell; Stream s(mkstream(r, data, tell)); String name("small/f"); bool exists = r.chance(50), byfd = r.chance(40); 
  ::unlink("small/f"); ::unlink("small/filler");
  if (exists) { old = std::string(r.below(60000), 'o'); spit("small/f", old, 0600); } else if (byfd) spit("small/f", "", 0600);
  size_t fill = r.below(33) * 4096; { int fd = __real_open("small/filler", O_CREAT | O_WRONLY | O_TRUNC, 0600); std::string b(fill, 'F'); if (fd >= 0) { if (__real_write(fd, b.data(), b.size())) {} __real_close(fd); } }
  int fd = byfd ? __real_open("small/f", O_RDWR | (MM ? 0 : O_TRUNC)) : -1; if (byfd && fd < 0) return;
  auto f0 = fds(); op("save %zu bytes%s over %zu where %zu bytes of 128k are taken", data.size(), byfd ? " by descriptor" : "", old.size(), fill);
  int ret = byfd ? s.writeFile(fd) : s.writeFile(name);
  VH_CHECK(fds() == f0, "fd-leak", "saving left the descriptor table changed"); VH_CHECK(std::string(String(s)) == data && s.tell() == tell, "stream-changed", "saving changed the stream");
  std::string got; bool have = slurp("small/f", got);
  if (ret == 0) { VH_CHECK(have && got == data, "save-content", "saving %zu bytes to an almost full file system reported success but the file holds %zu bytes", data.size(), got.size()); vh::count("small-saved"); } else vh::count("small-refused");
  if (data.size() + fill + 4096 * 4 < 131072) VH_CHECK(ret == 0, "save-failed", "saving %zu bytes failed although there is room", data.size());
  if (fd >= 0) __real_close(fd);
  vh::distinct(vh::mix(vh::hstr(data.data(), data.size()), fill));
}
static void run_case(Rng& r, uint64_t no) {
  if (vh::S().mode == "D") { full_case(r); return; }
  static bool made; if (!made) { mkdir("sub", 0755); made = true; }
  Env e{ r, "." }; if (r.chance(50)) save_case(e); else load_case(e);
#ifdef HAVE_LSAN
  if (no % 128 == 127) { VH_CHECK(__lsan_do_recoverable_leak_check() == 0, "leak", "LeakSanitizer found a leak"); }
#else
  (void)no;
#endif
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
