/* System-call monitor.  The driver is linked with -Wl,--wrap for the calls
 * below; while mon().on, every call made by the code under test is recorded,
 * can be made to fail, or can be the point at which the process dies. */
#ifndef SYSMON_HPP
#define SYSMON_HPP
#include "vh.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <errno.h>

struct Ev { std::string name, a, b; int fd; long ret; int err; bool injected; };
struct Mon {
  bool on = false;
  long n = 0;                              // calls seen since start()
  std::set<long> fail;                     // calls that fail
  long crash = -1; bool crash_after = false;
  int err = EIO;
  std::vector<Ev> ev;
  std::vector<std::pair<void*, size_t>> unmapped; // munmap calls made to fail
  long injected = 0;
  std::string injected_names;
  uint64_t shortio = 0;                    // when set, some reads and writes transfer only a part
  size_t cut(size_t k) { if (!on || !shortio || k < 2) return k; shortio = shortio * 6364136223846793005ull + 1442695040888963407ull; return (shortio >> 40) & 1 ? k : 1 + size_t(shortio >> 20) % k; }
  void (*hook)(const Ev&, bool before) = nullptr;
  void start() { n = 0; ev.clear(); injected = 0; injected_names.clear(); on = true; }
  void stop() { on = false; fail.clear(); crash = -1; shortio = 0; }
};
inline Mon& mon() { static Mon* m = new Mon; return *m; }
inline std::string fdpath(int fd) { char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, b, sizeof b - 1); return k < 0 ? "" : std::string(b, size_t(k)); }

struct Call {
  Ev e; bool act; bool bad; long idx;
  Call(const char* nm, const std::string& a, const std::string& b, int fd, bool can_fail = true) : e{ nm, a, b, fd, 0, 0, false }, act(mon().on), bad(false), idx(-1) {
    if (!act) return;
    Mon& m = mon(); m.on = false; idx = m.n++;
    if (m.crash == idx && !m.crash_after) { _exit(42); }
    if (m.hook) m.hook(e, true);
    bad = can_fail && m.fail.count(idx) > 0;
    m.on = true;
  }
  template <class R> R done(R r) {
    if (!act) return r;
    int er = errno; Mon& m = mon(); m.on = false;
    e.ret = long(r); e.err = er; e.injected = bad; if (bad) { ++m.injected; m.injected_names += e.name + " "; }
    vh::op("   sys %s(%s%s%s fd %d) = %ld%s", e.name.c_str(), e.a.c_str(), e.b.empty() ? "" : " -> ", e.b.c_str(), e.fd, e.ret, bad ? " INJECTED" : "");
    m.ev.push_back(e); if (m.hook) m.hook(e, false);
    if (m.crash == idx && m.crash_after) _exit(42);
    m.on = true; errno = er; return r;
  }
};
#define FAILV(v) (errno = mon().err, (v))
extern "C" {
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_openat(int, const char*, int, ...); int __real_creat(const char*, mode_t);
int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __real_pwrite(int, const void*, size_t, off_t);
off_t __real_lseek(int, off_t, int); void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t); int __real_msync(void*, size_t, int);
int __real_ftruncate(int, off_t); int __real_truncate(const char*, off_t); int __real_fsync(int); int __real_fdatasync(int); int __real_dup(int);
FILE* __real_fdopen(int, const char*); FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*); size_t __real_fwrite(const void*, size_t, size_t, FILE*); int __real_fflush(FILE*); int __real_fseek(FILE*, long, int); long __real_ftell(FILE*);
int __real_fstat(int, struct stat*); int __real_stat(const char*, struct stat*); int __real_rename(const char*, const char*); int __real_renameat(int, const char*, int, const char*); int __real_link(const char*, const char*); int __real_symlink(const char*, const char*);
int __real_unlink(const char*); int __real_remove(const char*); int __real_mkstemp(char*); int __real_mkostemp(char*, int); int __real_fchmod(int, mode_t); int __real_chmod(const char*, mode_t);

static std::string dirof(const char* p) { std::string s(p); size_t k = s.rfind('/'); s = k == std::string::npos ? "." : k == 0 ? "/" : s.substr(0, k); char b[4096]; return realpath(s.c_str(), b) ? b : s; }
/* The code under test runs as root: a call that would create, change or remove
 * something outside the scratch directory is refused instead of carried out. */
static const std::string scratch = [] { char b[4096]; return std::string(getcwd(b, sizeof b) ? b : "?"); }();
static bool outside(const char* p) { std::string d = dirof(p) + "/"; if (d[0] != '/' || d.compare(0, scratch.size() + 1, scratch + "/") == 0 || !strcmp(p, "/dev/null") || !strcmp(p, "/dev/full")) return false; fprintf(stderr, "refused outside the scratch directory: %s\n", p); errno = EACCES; return true; }
#define GUARD(p) if (c.act && !c.bad && outside(p)) return c.done(-1)
static std::string oflags(int f) { std::string s = (f & O_ACCMODE) == O_RDONLY ? "r" : "w"; if (f & O_CREAT) s += "c"; if (f & O_TRUNC) s += "t"; return s; }
int __wrap_open(const char* p, int f, ...) { mode_t m = 0; if (f & O_CREAT) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); } Call c("open", p, oflags(f), -1); if ((f & O_ACCMODE) != O_RDONLY || (f & O_CREAT)) GUARD(p); return c.done(c.bad ? FAILV(-1) : __real_open(p, f, m)); }
int __wrap_open64(const char* p, int f, ...) { mode_t m = 0; if (f & O_CREAT) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); } Call c("open", p, oflags(f), -1); if ((f & O_ACCMODE) != O_RDONLY || (f & O_CREAT)) GUARD(p); return c.done(c.bad ? FAILV(-1) : __real_open(p, f, m)); }
int __wrap_openat(int d, const char* p, int f, ...) { mode_t m = 0; if (f & O_CREAT) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); } Call c("open", p, oflags(f), -1); if ((f & O_ACCMODE) != O_RDONLY || (f & O_CREAT)) GUARD(p); return c.done(c.bad ? FAILV(-1) : __real_openat(d, p, f, m)); }
int __wrap_creat(const char* p, mode_t m) { Call c("open", p, "wct", -1); GUARD(p); return c.done(c.bad ? FAILV(-1) : __real_open(p, O_CREAT | O_WRONLY | O_TRUNC, m)); }
int __wrap_close(int fd) { Call c("close", "", "", fd); if (c.act && fd >= 0 && fcntl(fd, F_GETFD) == -1) vh::fail("double-close", "descriptor %d is closed although it is not open: it may by now be someone else's", fd); int r = __real_close(fd); return c.done(c.bad ? FAILV(-1) : r); }
ssize_t __wrap_read(int fd, void* b, size_t n) { n = mon().cut(n); Call c("read", "", "", fd); return c.done(c.bad ? FAILV(ssize_t(-1)) : __real_read(fd, b, n)); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { n = mon().cut(n); Call c("write", "", "", fd); return c.done(c.bad ? FAILV(ssize_t(-1)) : __real_write(fd, b, n)); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { n = mon().cut(n); Call c("read", "", "", fd); return c.done(c.bad ? FAILV(ssize_t(-1)) : __real_pread(fd, b, n, o)); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { n = mon().cut(n); Call c("write", "", "", fd); return c.done(c.bad ? FAILV(ssize_t(-1)) : __real_pwrite(fd, b, n, o)); }
off_t __wrap_lseek(int fd, off_t o, int w) { Call c("lseek", "", "", fd); return c.done(c.bad ? FAILV(off_t(-1)) : __real_lseek(fd, o, w)); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { if (fd < 0) return __real_mmap(a, n, p, f, fd, o); Call c("mmap", (p & PROT_WRITE) && (f & MAP_SHARED) ? "w" : "r", "", fd); void* r = c.bad ? FAILV(MAP_FAILED) : __real_mmap(a, n, p, f, fd, o); c.done(r == MAP_FAILED ? -1L : 0L); return r; }
int __wrap_munmap(void* a, size_t n) { Call c("munmap", "", "", -1); if (c.bad) mon().unmapped.push_back({ a, n }); return c.done(c.bad ? FAILV(-1) : __real_munmap(a, n)); }
int __wrap_msync(void* a, size_t n, int f) { Call c("msync", "", "", -1); return c.done(c.bad ? FAILV(-1) : __real_msync(a, n, f)); }
int __wrap_ftruncate(int fd, off_t n) { Call c("ftruncate", "", "", fd); return c.done(c.bad ? FAILV(-1) : __real_ftruncate(fd, n)); }
int __wrap_truncate(const char* p, off_t n) { Call c("truncate", p, "", -1); GUARD(p); return c.done(c.bad ? FAILV(-1) : __real_truncate(p, n)); }
int __wrap_fsync(int fd) { Call c("fsync", "", "", fd); return c.done(c.bad ? FAILV(-1) : 0); }
int __wrap_fdatasync(int fd) { Call c("fsync", "", "", fd); return c.done(c.bad ? FAILV(-1) : 0); }
int __wrap_dup(int fd) { Call c("dup", "", "", fd); return c.done(c.bad ? FAILV(-1) : __real_dup(fd)); }
FILE* __wrap_fdopen(int fd, const char* m) { Call c("fdopen", m, "", fd); FILE* r = c.bad ? FAILV((FILE*)0) : __real_fdopen(fd, m); c.done(r ? 0L : -1L); return r; }
FILE* __wrap_fopen(const char* p, const char* m) { Call c("open", p, m[0] == 'r' && !strchr(m, '+') ? "r" : m[0] == 'w' ? "wct" : "wc", -1); if (c.act && !c.bad && (m[0] != 'r' || strchr(m, '+')) && outside(p)) { c.done(-1L); return nullptr; } FILE* r = c.bad ? FAILV((FILE*)0) : __real_fopen(p, m); c.done(r ? 0L : -1L); return r; }
int __wrap_fclose(FILE* f) { Call c("fclose", "", "", -1); int r = __real_fclose(f); return c.done(c.bad ? FAILV(EOF) : r); }
size_t __wrap_fwrite(const void* b, size_t s, size_t n, FILE* f) { Call c("fwrite", "", "", -1, s * n > 0); return c.done(c.bad ? FAILV(size_t(0)) : __real_fwrite(b, s, n, f)); }
int __wrap_fflush(FILE* f) { Call c("fflush", "", "", -1); return c.done(c.bad ? FAILV(EOF) : __real_fflush(f)); }
int __wrap_fseek(FILE* f, long o, int w) { Call c("fseek", "", "", -1); return c.done(c.bad ? FAILV(-1) : __real_fseek(f, o, w)); }
long __wrap_ftell(FILE* f) { Call c("ftell", "", "", -1); return c.done(c.bad ? FAILV(-1L) : __real_ftell(f)); }
int __wrap_fstat(int fd, struct stat* st) { Call c("fstat", "", "", fd); return c.done(c.bad ? FAILV(-1) : __real_fstat(fd, st)); }
int __wrap_stat(const char* p, struct stat* st) { Call c("stat", p, "", -1); return c.done(c.bad ? FAILV(-1) : __real_stat(p, st)); }
/* another directory counts as another device */
int __wrap_rename(const char* a, const char* b) { Call c("rename", a, b, -1); GUARD(a); GUARD(b); if (c.act && !c.bad && dirof(a) != dirof(b)) { errno = EXDEV; return c.done(-1); } return c.done(c.bad ? FAILV(-1) : __real_rename(a, b)); }
int __wrap_renameat(int x, const char* a, int y, const char* b) { Call c("rename", a, b, -1); GUARD(a); GUARD(b); if (c.act && !c.bad && dirof(a) != dirof(b)) { errno = EXDEV; return c.done(-1); } return c.done(c.bad ? FAILV(-1) : __real_renameat(x, a, y, b)); }
int __wrap_link(const char* a, const char* b) { Call c("link", a, b, -1); GUARD(b); return c.done(c.bad ? FAILV(-1) : __real_link(a, b)); }
int __wrap_symlink(const char* a, const char* b) { Call c("symlink", a, b, -1); GUARD(b); return c.done(c.bad ? FAILV(-1) : __real_symlink(a, b)); }
int __wrap_unlink(const char* p) { Call c("unlink", p, "", -1); GUARD(p); return c.done(c.bad ? FAILV(-1) : __real_unlink(p)); }
int __wrap_remove(const char* p) { Call c("unlink", p, "", -1); GUARD(p); return c.done(c.bad ? FAILV(-1) : __real_remove(p)); }
int __wrap_mkstemp(char* t) { Call c("mkstemp", t, "", -1); GUARD(t); int r = c.bad ? FAILV(-1) : __real_mkstemp(t); c.e.b = r >= 0 ? t : ""; return c.done(r); }
int __wrap_mkostemp(char* t, int f) { Call c("mkstemp", t, "", -1); GUARD(t); int r = c.bad ? FAILV(-1) : __real_mkostemp(t, f); c.e.b = r >= 0 ? t : ""; return c.done(r); }
int __wrap_fchmod(int fd, mode_t m) { Call c("fchmod", "", "", fd); return c.done(c.bad ? FAILV(-1) : __real_fchmod(fd, m)); }
int __wrap_chmod(const char* p, mode_t m) { Call c("chmod", p, "", -1); GUARD(p); return c.done(c.bad ? FAILV(-1) : __real_chmod(p, m)); }
}
/* ---- helpers that use the real calls ---- */
inline bool slurp(const std::string& p, std::string& out) { int fd = __real_open(p.c_str(), O_RDONLY); if (fd < 0) return false; out.clear(); char b[65536]; ssize_t k; while ((k = __real_read(fd, b, sizeof b)) > 0) out.append(b, size_t(k)); __real_close(fd); return k == 0; }
inline bool slurpfd(int fd, std::string& out) { out.clear(); char b[65536]; ssize_t k; off_t o = 0; while ((k = __real_pread(fd, b, sizeof b, o)) > 0) { out.append(b, size_t(k)); o += k; } return k == 0; }
inline void spit(const std::string& p, const std::string& d, mode_t m) { int fd = __real_open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || (d.size() && __real_write(fd, d.data(), d.size()) != ssize_t(d.size())) || __real_fchmod(fd, m)) { perror("spit"); _exit(3); } __real_close(fd); }
inline std::set<std::string> ls(const std::string& d) { std::set<std::string> r; DIR* D = opendir(d.c_str()); if (!D) return r; while (dirent* e = readdir(D)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.insert(e->d_name); closedir(D); return r; }
/* open descriptors and what they are */
inline std::map<int, std::string> fds() { std::map<int, std::string> r; DIR* D = opendir("/proc/self/fd"); if (!D) return r; int own = dirfd(D); while (dirent* e = readdir(D)) { int fd = atoi(e->d_name); if (e->d_name[0] != '.' && fd != own) r[fd] = fdpath(fd); } closedir(D); return r; }
inline bool mapped(const std::string& path) { std::string n1 = dirof(path.c_str()) + "/" + path.substr(path.rfind('/') + 1), n2 = n1 + " (deleted)\n"; n1 += "\n"; FILE* f = __real_fopen("/proc/self/maps", "r"); if (!f) return false; char l[8192]; bool r = false; while (fgets(l, sizeof l, f)) if (strstr(l, n1.c_str()) || strstr(l, n2.c_str())) r = true; __real_fclose(f); return r; }
#endif
