/* C23: life of commands, variables and interpreters. */
#include "tclval.hpp"
#include <stdexcept>
static const char* const KEYS[] = { "alpha", "beta", "gamma", "nsl::delta", "::beta", "::nsl::delta" };          // names the program registers
static const char* const TNAMES[] = { "alpha", "beta", "gamma", "nsl::delta", "r1", "r2", "nsl::r3" };   // names in the script
static const char* const VARS[] = { "va", "vb", "nsl::vc" };
static const size_t NK = 6, NT = 7, NV = 3, NH = 6;
struct In { std::unique_ptr<ScriptInterpTCL> si; std::map<std::string, int> cmd; std::map<std::string, std::string> reg; std::map<std::string, int> var; };  // tcl name -> handler (-1: a proc); key -> tcl name ("": gone); var -> program variable
static std::vector<In>* ins; static size_t curi; static std::string curname; static Rng* R; static int called, depth; static int64_t pv[4];
static uint64_t hookcalls;
/* the Tcl interpreters behind them: linked with --wrap=Tcl_CreateInterp */
static long tcl_made, tcl_gone;
static void vh_gone(ClientData, Tcl_Interp*) { ++tcl_gone; }
extern "C" Tcl_Interp* __real_Tcl_CreateInterp(void);
extern "C" Tcl_Interp* __wrap_Tcl_CreateInterp(void) { Tcl_Interp* i = __real_Tcl_CreateInterp(); ++tcl_made; Tcl_CallWhenDeleted(i, vh_gone, nullptr); return i; }
static std::string tev(ScriptInterpTCL& si, const std::string& s) { String r; { Track t; r = si.eval(B(s)); } return S(r); }
static void hook(const void*, const void*) { Track off(false); ++hookcalls; }
static void inside();
static std::string replytext;
template <int N> static String hnd(String a) {
  Track off(false); called = N; std::string arg = S(a); inside();
  VH_CHECK(S(a) == arg, "argument-lost", "the argument of a running command changed from %s to %s", show(arg).c_str(), show(S(a)).c_str());
  return B(std::to_string(N) + ":" + arg);
}
typedef String (*hfn)(String);
static const hfn HF[NH] = { hnd<0>, hnd<1>, hnd<2>, hnd<3>, hnd<4>, hnd<5> };
static std::string keyof(In& x, const std::string& t) { for (auto& kv : x.reg) if (kv.second == t) return kv.first; return ""; }
static void lose(In& x, const std::string& t) { std::string k = keyof(x, t); if (!k.empty()) x.reg[k] = ""; x.cmd.erase(t); }
static std::string nrm(const std::string& k) { return k.compare(0, 2, "::") ? k : k.substr(2); }
static void do_create(In& x, const std::string& k, int h) { op("  create %s -> handler %d", k.c_str(), h); { Track t; x.si->createCommand(B(k), HF[h]); } if (x.reg.count(k) && !x.reg[k].empty()) x.cmd.erase(x.reg[k]); lose(x, nrm(k)); x.reg[k] = nrm(k); x.cmd[nrm(k)] = h; }
static void do_delete(In& x, const std::string& k) { op("  delete %s", k.c_str()); { Track t; x.si->deleteCommand(B(k)); } if (x.reg.count(k)) { if (!x.reg[k].empty()) x.cmd.erase(x.reg[k]); x.reg.erase(k); } }
static void do_rename(In& x, const std::string& a, const std::string& b) {
  bool ok = x.cmd.count(a) && (b.empty() || !x.cmd.count(b)) ; op("  rename %s {%s}", a.c_str(), b.c_str()); std::string c = tev(*x.si, "catch {rename " + a + " {" + b + "}}"); VH_CHECK(c == (ok ? "0" : "1"), "rename", "rename %s {%s} gave %s", a.c_str(), b.c_str(), c.c_str());
  if (!ok) return; std::string k = keyof(x, a); int h = x.cmd[a]; x.cmd.erase(a); if (!k.empty()) x.reg[k] = b; if (!b.empty()) x.cmd[b] = h;
}
static void do_proc(In& x, const std::string& t) { op("  proc %s", t.c_str()); tev(*x.si, "proc ::" + t + " {a} {return proc:$a}"); lose(x, t); x.cmd[t] = -1; }
static void do_link(In& x, const std::string& v, int p) { op("  link %s to %d", v.c_str(), p); Track t; x.si->linkVar(B(v), pv[p], hook); Track off(false); x.var[v] = p; }
static void do_unlink(In& x, const std::string& v) { op("  unlink %s", v.c_str()); { Track t; x.si->unlinkVar(B(v)); } x.var.erase(v); }
static void fresh(In& x) { x = In(); { Track t; x.si.reset(new ScriptInterpTCL); } tev(*x.si, "namespace eval nsl {}; proc vh_local {c a} {set va local; set vb local; set r [$c $a]; if {$va ne {local} || $vb ne {local}} {return changed-locals}; return $r}; proc vh_deep {c a} {set va outer; upvar 0 va vb; vh_local $c $a}"); }
static void check(In& x, size_t xi, const char* what) {
  for (auto t : TNAMES) { bool want = x.cmd.count(t) != 0; std::string got = tev(*x.si, std::string("info commands ::") + t); VH_CHECK(want == !got.empty(), want ? "command-lost" : "command-left", "after %s: %s %s in interpreter %zu", what, t, want ? "is missing" : "still exists", xi); }
  for (auto v : VARS) { bool want = x.var.count(v) != 0; std::string got = tev(*x.si, std::string("info exists ::") + v); VH_CHECK(got == (want ? "1" : "0"), want ? "variable-lost" : "variable-left", "after %s: variable %s of interpreter %zu", what, v, xi); if (want) { got = tev(*x.si, std::string("set ::") + v); VH_CHECK(got == std::to_string(pv[x.var[v]]), "variable", "%s of interpreter %zu reads %s", v, xi, got.c_str()); } }
}
/* calls a command and checks who answers */
static void do_call(size_t xi, const std::string& t, bool act) {
  In& x = (*ins)[xi]; bool has = x.cmd.count(t); int h = has ? x.cmd[t] : 0; std::string arg = rtxt(*R, 5); op("  i%zu call %s (%s)", xi, t.c_str(), has ? h < 0 ? "proc" : ("handler " + std::to_string(h)).c_str() : "absent");
  size_t si = curi; std::string sn = curname; int sc = called, sd = depth; curi = xi; curname = t; called = -9; depth = act ? sd + 1 : 99;
  if (!has) { std::string got = tev(*x.si, "info commands ::" + t); VH_CHECK(got.empty(), "command-left", "%s still exists", t.c_str()); }
  else { static const char* const WAYS[] = { "", "", "vh_local ", "vh_deep ", "apply {{c a} {set va local; set vb local; $c $a}} ", "uplevel #0 " };   /* also where variables of the same names are local */
    int way = int(R->below(6)); vh::count("way:" + std::to_string(way)); std::string got = tev(*x.si, way == 5 ? "uplevel #0 [list ::" + t + " " + word(arg) + "]" : WAYS[way] + ("::" + t) + " " + word(arg)); std::string want = h < 0 ? "proc:" + arg : std::to_string(h) + ":" + arg; VH_CHECK(got == want, "handler", "%s in interpreter %zu answered %s expected %s", t.c_str(), xi, show(got).c_str(), show(want).c_str()); }
  curi = si; curname = sn; called = sc; depth = sd;
}
/* what a handler does while it runs */
static void inside() {
  if (depth > 2) return; Rng& r = *R; In& x = (*ins)[curi]; std::string k = keyof(x, curname); size_t xi = curi; std::string me = curname;
  switch (r.below(12)) {
    case 0: if (!k.empty()) { do_delete(x, k); vh::count("deleted itself"); } break;
    case 1: if (!k.empty()) { do_create(x, k, int(r.below(NH))); vh::count("replaced itself"); } break;
    case 2: if (x.cmd.count(me)) { do_rename(x, me, ""); vh::count("script deleted running command"); } break;
    case 3: if (x.cmd.count(me)) { do_rename(x, me, TNAMES[r.below(NT)]); vh::count("renamed itself"); } break;
    case 4: do_proc(x, me); vh::count("script replaced running command"); break;
    case 5: for (auto key : KEYS) do_delete(x, key); break;
    case 6: if (depth < 2) { do_call(xi, me, true); vh::count("called itself"); } break;
    case 7: { size_t o = r.below(ins->size()); if (o != xi && depth < 2) { op("  i%zu replaced by a new interpreter", o); fresh((*ins)[o]); vh::count("another interpreter replaced"); } break; }
    case 8: { size_t o = r.below(ins->size()); if (depth < 2) do_call(o, TNAMES[r.below(NT)], true); break; }
    case 9: do_link(x, VARS[r.below(NV)], int(r.below(4))); break;
    case 10: do_unlink(x, VARS[r.below(NV)]); break;
    default: break;
  }
}
static void run_case(Rng& r, uint64_t) {
  R = &r; size_t n0 = heap().n; tcl_made = tcl_gone = 0; depth = 0; for (auto& p : pv) p = r.range(-1000, 1000);
  std::vector<In> pool(1 + r.below(3)); ins = &pool; for (auto& x : pool) fresh(x);
  size_t steps = 15 + r.below(50);
  for (size_t i = 0; i < steps; ++i) {
    size_t xi = r.below(pool.size()); In& x = pool[xi]; const char* what; op("i%zu:", xi); int w = int(r.below(20));
    switch (w) {
      case 0: case 1: case 2: case 3: what = "create"; do_create(x, KEYS[r.below(NK)], int(r.below(NH))); break;
      case 4: case 5: what = "delete"; do_delete(x, KEYS[r.below(NK)]); break;
      case 6: case 7: what = "rename"; do_rename(x, TNAMES[r.below(NT)], r.chance(25) ? "" : TNAMES[r.below(NT)]); break;
      case 8: what = "proc"; do_proc(x, TNAMES[r.below(NT)]); break;
      case 9: case 10: what = "link"; do_link(x, VARS[r.below(NV)], int(r.below(4))); break;
      case 11: what = "unlink"; do_unlink(x, VARS[r.below(NV)]); break;
      case 12: { what = "unset"; std::string v = VARS[r.below(NV)]; op("  unset %s", v.c_str()); tev(*x.si, "unset -nocomplain ::" + v); x.var.erase(v); break; }
      case 13: { what = "variable write"; if (x.var.empty()) break; auto it = x.var.begin(); std::advance(it, long(r.below(x.var.size()))); int64_t v = r.range(-5000, 5000); uint64_t h = hookcalls; op("  set %s %" PRId64, it->first.c_str(), v); tev(*x.si, "set ::" + it->first + " " + std::to_string(v)); VH_CHECK(pv[it->second] == v && hookcalls == h + 1, "variable", "writing %s stored %" PRId64, it->first.c_str(), pv[it->second]); break; }
      case 14: what = "namespace delete"; if (r.chance(60)) break; op("  namespace delete nsl"); tev(*x.si, "namespace delete nsl; namespace eval nsl {}"); for (auto t : TNAMES) if (!strncmp(t, "nsl::", 5)) lose(x, t); for (auto v : VARS) if (!strncmp(v, "nsl::", 5)) x.var.erase(v); break;
      case 15: what = "new interpreter"; if (r.chance(60)) break; op("  replaced"); fresh(x); break;
      default: what = "call"; do_call(xi, TNAMES[r.below(NT)], true); break;
    }
    vh::count(std::string("op:") + what); uint64_t st = vh::hstr(what, strlen(what)); for (auto& y : pool) { for (auto& kv : y.cmd) st = vh::mix(vh::mix(st, vh::hstr(kv.first.data(), kv.first.size())), uint64_t(kv.second)); for (auto& kv : y.reg) st = vh::mix(st, vh::hstr(kv.second.data(), kv.second.size())); st = vh::mix(st, 7); } vh::distinct(st);
    for (size_t q = 0; q < pool.size(); ++q) check(pool[q], q, what);
    if (r.chance(30)) for (size_t q = 0; q < pool.size(); ++q) for (auto t : TNAMES) if (pool[q].cmd.count(t)) do_call(q, t, false);
  }
  while (!pool.empty()) { size_t i = r.below(pool.size()); op("i%zu destroyed", i); pool.erase(pool.begin() + long(i)); for (size_t q = 0; q < pool.size(); ++q) check(pool[q], q, "destruction of another interpreter"); }
  for (auto& p : pv) p += 1;   /* the program's variables outlive the interpreters */
  ins = nullptr;
  vh::count("Tcl interpreters deleted", uint64_t(tcl_gone)); VH_CHECK(tcl_gone == tcl_made, "interpreter-left", "%ld Tcl interpreters were made, %ld deleted", tcl_made, tcl_gone);
  VH_CHECK(heap().n == n0, "left-allocated", "%zu blocks of the binding are left allocated after its interpreters are gone", heap().n - n0);
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
