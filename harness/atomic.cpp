/* AtomicFile: the target is watched at every system call, every call is made
 * to fail in turn (and in pairs), and the trace is checked at the moment the
 * new content becomes visible.  Mode T: target (C15), mode U: clean-up (C16). */
#include "sysmon.hpp"
#include "AtomicFile.h"
#include "Stream.h"
#include <atomic>
#include <memory>
#include <thread>
using bd::String; using bd::AtomicFile; using vh::Rng; using vh::op; using vh::show;
static uint64_t form;   /* names are given as whole strings and as parts of longer ones */
static String S(const std::string& s) { if (++form % 3) return String(s.data(), s.size()); std::string l = "head/" + s + "tail"; return String(l.data(), l.size())(5, ssize_t(s.size())); }
static std::string rdata(Rng& r) { size_t n; switch (r.below(7)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = 4094 + r.below(5); break; case 3: n = r.chance(4) ? r.below(400000) : r.below(20000); break; default: n = r.below(200); } std::string s(n, 0); for (auto& c : s) c = char(r.below(256)); return s; }
static uint64_t serial;
static std::string newdata(Rng& r) { return rdata(r) + "#" + std::to_string(++serial); }

struct FileState { bool exists = false; std::string data; mode_t mode = 0; bool operator==(const FileState& o) const { return exists == o.exists && (!exists || (data == o.data && mode == o.mode)); } };
static std::string str(const FileState& f) { char b[64]; if (!f.exists) return "(absent)"; snprintf(b, sizeof b, "mode %o %zu bytes ", f.mode, f.data.size()); return b + show(f.data.substr(0, 40)); }
static FileState look(const std::string& p) { FileState f; struct stat st; if (__real_stat(p.c_str(), &st)) return f; f.exists = true; f.mode = st.st_mode & 07777; if (!S_ISDIR(st.st_mode) && !slurp(p, f.data)) f.data = "(unreadable)"; return f; }

/* what is watched */
struct Watch {
  std::map<std::string, FileState> target;   // every watched name and its value
  std::string name; bool committing = false; // the file being committed now
  std::string data; mode_t mode = 0; bool anymode = false;
  std::map<ino_t, std::string> durable;      // content at the last successful fsync
  uint64_t points = 0, news = 0;
} W;
static bool is_new(const FileState& f) { return f.exists && f.data == W.data && (W.anymode || f.mode == W.mode); }
static void visible(const std::string& from, const char* how) {
  struct stat st; if (__real_stat(from.c_str(), &st)) return;
  auto it = W.durable.find(st.st_ino);
  VH_CHECK(it != W.durable.end(), "not-durable", "%s makes the new content visible but it was never forced to disk", how);
  VH_CHECK(it->second == W.data, "not-durable", "%s makes the new content visible but only %zu of %zu bytes were forced to disk", how, it->second.size(), W.data.size());
  if (!W.anymode) VH_CHECK((st.st_mode & 07777) == W.mode, "mode-late", "%s makes the new content visible with mode %o, requested %o", how, st.st_mode & 07777, W.mode);
}
static std::string full(const std::string& p) { size_t k = p.rfind('/'); return dirof(p.c_str()) + "/" + (k == std::string::npos ? p : p.substr(k + 1)); }
static void hook(const Ev& e, bool before) {
  if (!before && e.name == "fsync" && e.ret == 0) { struct stat st; std::string d; if (!__real_fstat(e.fd, &st) && slurpfd(e.fd, d)) W.durable[st.st_ino] = d; }
  if (before && (e.name == "rename" || e.name == "link") && W.committing && full(e.b) == full(W.name)) visible(e.a, e.name.c_str());
  for (auto& t : W.target) {
    FileState f = look(t.first); ++W.points;
    bool ok = f == t.second;
    if (!ok && W.committing && full(t.first) == full(W.name) && is_new(f)) { ok = true; ++W.news; }
    VH_CHECK(ok, "target-torn", "%s %s(%s): the target %s reads %s; before it was %s%s", before ? "before" : "after", e.name.c_str(), e.a.c_str(), show(t.first).c_str(), str(f).c_str(), str(t.second).c_str(), W.committing ? (", new is " + std::to_string(W.data.size()) + " bytes").c_str() : "");
  }
}
static void check_targets(const char* when) { for (auto& t : W.target) { FileState f = look(t.first); VH_CHECK(f == t.second, "target-changed", "%s: the target %s reads %s, expected %s", when, show(t.first).c_str(), str(f).c_str(), str(t.second).c_str()); } }
static std::set<std::string> tree() { std::set<std::string> r; for (const char* d : { ".", "sub", "%d" }) for (auto& n : ls(d)) r.insert(std::string(d) + "/" + n); return r; }
static std::string names(const std::set<std::string>& a, const std::set<std::string>& b) { std::string r; for (auto& x : a) if (!b.count(x)) r += " +" + x; for (auto& x : b) if (!a.count(x)) r += " -" + x; return r; }
static void wipe_tree() { for (auto& n : tree()) { struct stat st; if (!lstat(n.c_str(), &st) && !S_ISDIR(st.st_mode)) ::unlink(n.c_str()); } }

static std::string cwd() { static std::string c; if (c.empty()) { char b[4096]; c = getcwd(b, sizeof b) ? b : "."; } return c; }
static std::string rname(Rng& r) { static const char* N[] = { "t", "./t", "sub/t", "sub/../t2", "a b", "%s%n", "%d/%d", ".t", "sub//t", "t.XXXXXX", "XXXXXX" }; std::string n = N[r.below(11)]; if (r.chance(12)) { n = std::string(2 + r.below(r.chance(50) ? 30 : 238), 'n'); for (auto& c : n) c = char('a' + r.below(26)); if (r.chance(30)) n = "sub/" + n; } if (r.chance(20)) n = cwd() + "/" + n; return n; }
static mode_t rmode(Rng& r) { static const mode_t M[] = { 0, 0400, 0600, 0644, 0666, 0755, 0777, 04755, 01777, 0640 }; return r.chance(15) ? mode_t(r.below(010000)) : M[r.below(10)]; }
static const int ERRS[] = { EIO, ENOSPC, EACCES, EMFILE, EROFS, EINTR, EDQUOT };

struct File { AtomicFile a; bool open = false; std::string name, data, tmp; mode_t mode = mode_t(-1); };
static void put(Rng& r, File& f, const std::string& d) {
  int fd = f.a.fd();
  if (r.chance(25) && f.data.empty()) { bd::Stream s(S(d)); if (s.writeFile(fd) || __real_lseek(fd, 0, SEEK_END) < 0) vh::fail("write", "cannot write to the open file"); }
  else { size_t o = 0; while (o < d.size()) { size_t k = r.chance(50) ? d.size() - o : 1 + r.below(d.size() - o); if (__real_write(fd, d.data() + o, k) != ssize_t(k)) vh::fail("write", "cannot write to the open file: %s", strerror(errno)); o += k; } }
  f.data += d; op("  wrote %zu bytes to fd %d", d.size(), fd);
}
static bool do_open(File& f, const std::string& n, mode_t m) { W.committing = false; mon().start(); bool ok = m == mode_t(-1) ? f.a.open(S(n)) : f.a.open(S(n), m); mon().stop(); f.open = ok; f.name = n; f.data.clear(); f.mode = m; f.tmp.clear(); for (auto& e : mon().ev) { if (e.name == "mkstemp" && e.ret >= 0) f.tmp = e.b; else if (e.name == "open" && e.ret >= 0 && e.b.find('c') != std::string::npos) f.tmp = e.a; } VH_CHECK(f.a.is_open() == ok && (f.a.fd() != -1) == ok, "is-open", "open returned %d but is_open() says %d and fd() %d", ok, f.a.is_open(), f.a.fd()); op("  open(%s, %o) = %d", show(n).c_str(), m, ok); return ok; }
static bool do_commit(File& f) {
  W.name = f.name; W.data = f.data; W.mode = f.mode; W.anymode = f.mode == mode_t(-1); W.committing = f.open;
  mon().start(); bool ok = f.a.commit(); mon().stop(); W.committing = false; op("  commit = %d", ok);
  bool was = f.open; f.open = false;
  VH_CHECK(!f.a.is_open() && f.a.fd() == -1, "is-open", "still open after commit");
  if (!was) { VH_CHECK(!ok, "not-open", "commit of a file that is not open reports success"); return ok; }
  FileState now = look(f.name);
  VH_CHECK(ok == is_new(now), "commit-lies", "commit returned %s but the target %s reads %s (fault: %s)", ok ? "true" : "false", show(f.name).c_str(), str(now).c_str(), mon().injected_names.c_str());
  if (ok) { for (auto& t : W.target) if (full(t.first) == full(f.name)) t.second = now; W.target[f.name] = now; vh::count("commits"); } else vh::count("failed-commits");
  return ok;
}
static bool do_abort(File& f) { W.committing = false; mon().start(); bool ok = f.a.abort(); mon().stop(); op("  abort = %d", ok); if (!mon().injected) VH_CHECK(ok == f.open, "not-open", "abort returned %d on a file that is %s", ok, f.open ? "open" : "not open"); f.open = false; VH_CHECK(!f.a.is_open() && f.a.fd() == -1, "is-open", "still open after abort"); vh::count("aborts"); return ok; }

/* one open/write/finish with each call failing in turn, and some pairs */
static void fault_case(Rng& r) {
  std::string name = rname(r); mode_t mode = r.chance(30) ? mode_t(-1) : rmode(r); bool exists = r.chance(60); std::string old = newdata(r), dat = newdata(r); mode_t om = rmode(r); int fin = int(r.below(8)); /* 0-4 commit 5 abort 6 destroy 7 reopen */
  umask(r.chance(50) ? 022 : 0);
  std::string second = rname(r);
  long ncalls = 0;
  auto once = [&](std::set<long> faults) -> bool {
    wipe_tree(); W = Watch(); uint64_t sv = r.s;
    if (exists) spit(name, old, om); W.target[name] = look(name);
    auto t0 = tree(); auto f0 = fds(); mon().hook = hook; mon().err = ERRS[r.below(7)];
    std::string fl; for (long k : faults) fl += " " + std::to_string(k);
    op("one %s mode %o old %s finish %d faults%s", show(name).c_str(), mode, exists ? "present" : "absent", fin, fl.c_str());
    long base = 0, inj = 0; bool unlinkbad = false;
    auto set = [&] { mon().fail.clear(); for (long k : faults) if (k >= base) mon().fail.insert(k - base); };
    auto took = [&] { base += mon().n; inj += mon().injected; if (mon().injected_names.find("unlink") != std::string::npos) unlinkbad = true; };
    { File f; set(); bool ok = do_open(f, name, mode); took();
      check_targets("after open");
      if (!inj) VH_CHECK(ok, "open-failed", "open of %s failed without a reason", show(name).c_str());
      if (!ok) { VH_CHECK(fds() == f0, "fd-leak", "a failed open leaves a descriptor open"); if (!unlinkbad) VH_CHECK(tree() == t0, "temp-left", "a failed open leaves files behind:%s", names(tree(), t0).c_str()); }
      if (ok) put(r, f, dat);
      check_targets("after writing");
      if (fin < 5) { set(); bool c = do_commit(f); took(); if (!inj) VH_CHECK(c, "commit-failed", "commit failed without a reason"); if (c) { auto t1 = tree(); std::string fn = full(name); for (auto& y : t1) { bool known = full(y) == fn; struct stat st; if (!__real_stat(y.c_str(), &st) && S_ISDIR(st.st_mode)) known = true; VH_CHECK(known || unlinkbad, "temp-left", "after a successful commit there is an extra file %s", y.c_str()); } }
        VH_CHECK(fds() == f0, "fd-leak", "commit leaves a descriptor open (fault: %s)", mon().injected_names.c_str());
        if (!c && !unlinkbad) VH_CHECK(tree() == t0, "temp-left", "a failed commit leaves files behind:%s (fault: %s)", names(tree(), t0).c_str(), mon().injected_names.c_str());
      } else if (fin == 5) { set(); do_abort(f); took(); if (!unlinkbad) VH_CHECK(tree() == t0, "temp-left", "abort leaves files behind:%s", names(tree(), t0).c_str()); VH_CHECK(fds() == f0, "fd-leak", "abort leaves a descriptor open"); }
      else if (fin == 7) { W.target[second] = look(second); set(); bool o2 = do_open(f, second, mode); took(); if (!unlinkbad) { auto t1 = tree(); VH_CHECK(t1.size() <= t0.size() + (o2 ? 1 : 0), "temp-left", "reopening leaves files behind:%s", names(t1, t0).c_str()); } VH_CHECK(fds().size() <= f0.size() + (o2 ? 1 : 0), "fd-leak", "reopening leaves a descriptor open"); }
      check_targets("at the end");
      set(); W.committing = false; mon().start(); f.a.~AtomicFile(); mon().stop(); took(); new (&f.a) AtomicFile;
    }
    check_targets("after destruction"); VH_CHECK(fds() == f0, "fd-leak", "destroying leaves a descriptor open (finish %d)", fin);
    if (!unlinkbad) { auto t1 = tree(); if (fin >= 5) VH_CHECK(t1 == t0, "temp-left", "destroying leaves files behind:%s", names(t1, t0).c_str()); else VH_CHECK(t1.size() <= t0.size() + 1, "temp-left", "files left behind:%s", names(t1, t0).c_str()); }
    ncalls = base; r.s = sv; vh::count("fault-runs"); vh::count("faults-injected", uint64_t(inj)); vh::count("crash-points", W.points); vh::distinct(vh::mix(vh::mix(vh::hstr(name.data(), name.size()), uint64_t(fin * 2 + exists)), vh::mix(vh::hstr(fl.data(), fl.size()), mode)));
    return inj >= long(faults.size());
  };
  once({}); long n = ncalls;
  for (long k = 0; k < n + 3 && k < 60; ++k) { once({ k }); r.next(); }
  for (int i = 0; i < 6; ++i) { long a = long(r.below(uint64_t(n) + 1)), b = long(r.below(uint64_t(n) + 3)); once({ a, b }); r.next(); }
}
/* histories of two files */
static void hist_case(Rng& r) {
  wipe_tree(); W = Watch(); mon().hook = hook; mon().err = EIO; umask(r.chance(50) ? 022 : 0);
  std::vector<std::string> pool; for (int i = 0; i < 3; ++i) pool.push_back(rname(r)); pool.push_back("sub"); pool.push_back("no/such/t"); pool.push_back(std::string(252, 'l')); pool.push_back("nodir/"); pool.push_back("sub/");
  for (int i = 0; i < 3; ++i) { if (r.chance(60)) spit(pool[i], newdata(r), rmode(r)); }
  for (auto& n : pool) W.target[n] = look(n);
  auto files = [&] { std::set<std::string> x; for (auto& t : W.target) if (t.second.exists) x.insert(full(t.first)); return x; };
  auto f0 = fds(); size_t dirs = 0; { auto t = tree(); size_t k = 0; for (auto& y : t) { struct stat st; if (!__real_stat(y.c_str(), &st) && S_ISDIR(st.st_mode)) ++k; } dirs = k; }
  std::unique_ptr<File> f[2] = { std::unique_ptr<File>(new File), std::unique_ptr<File>(new File) };
  int n = 4 + int(r.below(14)); uint64_t h = 0;
  for (int i = 0; i < n; ++i) {
    int w = int(r.below(2)); File& x = *f[w]; int o = int(r.below(10)); std::string target = pool[r.chance(75) ? r.below(3) : r.below(pool.size())]; op("file %d op %d %s", w, o, show(target).c_str());
    h = vh::mix(h, uint64_t(o * 2 + w) * 64 + (x.open ? 32 : 0));
    if (o < 3) { bool ok = do_open(x, target, r.chance(30) ? mode_t(-1) : rmode(r)); bool bad = target.compare(0, 3, "no/") == 0 || target == "nodir/" || target.size() == 252 || target == "sub/"; if (!bad && target != "sub") VH_CHECK(ok, "open-failed", "open of %s failed without a reason", show(target).c_str()); if (target.compare(0, 3, "no/") == 0 || target == "nodir/") VH_CHECK(!ok, "open-lies", "open of a file in a missing directory reports success"); }
    else if (o < 5) { if (x.open) put(r, x, newdata(r)); }
    else if (o < 7) { bool was = x.open; bool dirt = x.name == "sub" || x.name == "sub/"; if (was && x.data.empty()) put(r, x, newdata(r)); bool ok = do_commit(x); if (dirt) VH_CHECK(!ok, "commit-lies", "commit onto a directory reports success"); else if (was) VH_CHECK(ok, "commit-failed", "commit onto %s failed without a reason", show(x.name).c_str()); }
    else if (o == 7) do_abort(x);
    else if (o == 9) { /* somebody else's file that happens to have the name of a finished temporary file */
      if (!x.open && !x.tmp.empty() && !look(x.tmp).exists) { spit(x.tmp, newdata(r), 0600); W.target[x.tmp] = look(x.tmp); op("  foreign file %s", show(x.tmp).c_str()); vh::count("foreign-files"); } }
    else { W.committing = false; mon().start(); f[w].reset(); mon().stop(); f[w].reset(new File); op("  destroyed"); vh::count("destroyed"); }
    check_targets("after the step");
    size_t open = size_t(f[0]->open) + size_t(f[1]->open); auto fd1 = fds(); VH_CHECK(fd1.size() <= f0.size() + open, "fd-leak", "%zu descriptors more than before with %zu files open", fd1.size() - f0.size(), open);
    auto t1 = tree(); size_t extra = 0; auto known = files(); for (auto& y : t1) { struct stat st; if (!__real_stat(y.c_str(), &st) && S_ISDIR(st.st_mode)) continue; if (!known.count(full(y))) ++extra; } VH_CHECK(extra <= open, "temp-left", "%zu extra files in the directories with %zu files open", extra, open);
    vh::distinct(h);
  }
  (void)dirs; mon().start(); f[0].reset(); f[1].reset(); mon().stop();
  check_targets("after destruction"); VH_CHECK(fds() == f0, "fd-leak", "descriptors left open at the end");
  auto known = files(); for (auto& y : tree()) { struct stat st; if (!__real_stat(y.c_str(), &st) && S_ISDIR(st.st_mode)) continue; VH_CHECK(known.count(full(y)), "temp-left", "%s is left behind at the end", y.c_str()); }
  vh::count("histories"); vh::count("crash-points", W.points);
}
/* a process that really dies at the k-th call, then another one that uses the same target */
static void crash_case(Rng& r) {
  wipe_tree(); W = Watch(); std::string name = rname(r); bool exists = r.chance(70); std::string old = newdata(r), dat = newdata(r); mode_t mode = rmode(r), om = rmode(r); umask(022);
  long seen = 1;
  for (long k = 0; k < 2 * seen && k < 60; ++k) {
    wipe_tree(); if (exists) spit(name, old, om); FileState o = look(name);
    int p[2]; if (pipe(p)) _exit(3);
    pid_t pid = fork();
    if (pid == 0) {
      mon().hook = nullptr; AtomicFile a; long n = 0; long at = k / 2; mon().crash_after = k & 1;
      mon().crash = at; mon().start(); bool ok = a.open(S(name), mode); mon().on = false; n += mon().n; if (!ok) _exit(43);
      if (__real_write(a.fd(), dat.data(), dat.size()) != ssize_t(dat.size())) _exit(3);
      mon().n = 0; mon().crash = at - n; mon().on = true; ok = a.commit(); mon().on = false; n += mon().n;
      char b[32]; int l = snprintf(b, sizeof b, "%ld", n); if (__real_write(p[1], b, size_t(l)) < 0) _exit(3); _exit(ok ? 0 : 44);
    }
    int st; __real_close(p[1]); char b[32] = { 0 }; ssize_t l = __real_read(p[0], b, 31); (void)l; __real_close(p[0]); waitpid(pid, &st, 0);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st); op("crash run %s at %ld/2: exit %d", show(name).c_str(), k, code);
    VH_CHECK(code == 42 || code == 0, "commit-failed", "child ended with %d", code); if (code == 42) seen = std::max(seen, k / 2 + 2); else break;
    FileState f = look(name); bool nw = f.exists && f.data == dat && f.mode == mode; VH_CHECK(f == o || nw, "target-torn", "after a crash at call %ld (%s) the target reads %s, before it was %s", k / 2, k & 1 ? "after" : "before", str(f).c_str(), str(o).c_str()); vh::count(nw ? "crash-new" : "crash-old");
    /* the leftovers of the crash do not get in the way */
    { AtomicFile a; VH_CHECK(a.open(S(name), 0600), "open-failed", "open after a crash failed"); if (__real_write(a.fd(), "again", 5) != 5) _exit(3); VH_CHECK(a.commit(), "commit-failed", "commit after a crash failed"); FileState g = look(name); VH_CHECK(g.exists && g.data == "again" && g.mode == 0600, "commit-lies", "target after the second run reads %s", str(g).c_str()); }
    vh::distinct(vh::mix(vh::hstr(name.data(), name.size()), uint64_t(k) * 4 + exists * 2 + nw));
  }
  vh::count("crash-histories");
}
/* a reader that watches the name while it is replaced over and over */
static void reader_case(Rng& r) {
  wipe_tree(); std::string name = rname(r); umask(022); auto gen = [](uint64_t g, size_t n) { std::string s = std::to_string(g) + ":" + std::to_string(n) + ":"; s.append(n, char('a' + g % 26)); return s; };
  uint64_t g = 1; spit(name, gen(1, 100), 0600); std::atomic<bool> stop{ false }; std::atomic<uint64_t> reads{ 0 }, done{ 1 }; std::string bad; uint64_t distinct_gens = 0;
  std::thread t([&] { uint64_t last = 0; while (!stop) { uint64_t lo = done.load(); std::string s; if (!slurp(name, s)) { bad = std::string("the target cannot be read: ") + strerror(errno); return; } char* e; uint64_t v = strtoull(s.c_str(), &e, 10); size_t n = *e == ':' ? strtoull(e + 1, nullptr, 10) : 0; if (s != gen(v, n)) { bad = "the target holds a mixture: " + show(s.substr(0, 60)); return; } if (v < last || v < lo) { bad = "the target went back from generation " + std::to_string(std::max(last, lo)) + " to " + std::to_string(v); return; } if (v != last) ++distinct_gens; last = v; ++reads; } });
  int n = 40 + int(r.below(80)); AtomicFile a;
  for (int i = 0; i < n; ++i) { bool commit = r.chance(85); if (!a.open(S(name), 0644)) vh::fail("open-failed", "open failed while a reader watches"); ++g; std::string d = gen(g, r.below(30000)); size_t h = d.size() / 2; if (__real_write(a.fd(), d.data(), h) != ssize_t(h) || __real_write(a.fd(), d.data() + h, d.size() - h) != ssize_t(d.size() - h)) vh::fail("write", "write failed"); if (commit) { VH_CHECK(a.commit(), "commit-failed", "commit failed while a reader watches"); done = g; } else a.abort(); }
  stop = true; t.join(); VH_CHECK(bad.empty(), "target-torn", "a concurrent reader: %s", bad.c_str()); vh::count("reader-runs"); vh::count("reader-reads", reads); vh::count("reader-generations", distinct_gens); vh::count("commits", uint64_t(n));
}
static void run_case(Rng& r, uint64_t no) {
  static bool made; if (!made) { mkdir("sub", 0755); mkdir("%d", 0755); made = true; }
  form = r.below(3); serial = 0; mon().hook = nullptr; bool T = vh::S().mode == "T"; uint64_t k = r.below(100);
  if (T ? k < 35 : k < 40) fault_case(r); else if (T ? k < 75 : k < 92) hist_case(r); else if (T ? k < 95 : k < 98) crash_case(r); else reader_case(r);
  wipe_tree();
#ifdef HAVE_LSAN
  if (no % 64 == 63) { VH_CHECK(__lsan_do_recoverable_leak_check() == 0, "leak", "LeakSanitizer found a leak"); }
#else
  (void)no;
#endif
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
