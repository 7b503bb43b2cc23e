/* C22: evaluating scripts, loading script files, invoking stored callbacks. */
#include "tclval.hpp"
#include <sys/stat.h>
typedef std::vector<std::string> SV;
static std::vector<ScriptCallbackerPtr> stored;
static ScriptInterpTCL* cur;
static void keep(ScriptCallbackerPtr p) { stored.push_back(p); }
static String nested(String s) { return cur->eval(s); }                  /* a command that evaluates a script */
static String run_stored(int32_t i, Array<String> a) { return stored.at(size_t(i))->call(a); }
static Array<String> arr(Rng& r, const SV& v) {
  Array<String> a; for (auto& e : v) a << B(e); if (r.chance(30)) { Array<String> c; c << B("head"); for (auto& e : v) c << B(e); c << B("tail"); return c(1, ssize_t(v.size())); } return a;   /* sometimes a slice of a larger array */
}
static void spit(const std::string& n, const std::string& t) { FILE* f = fopen(n.c_str(), "w"); if (!f) { perror(n.c_str()); _exit(3); } fwrite(t.data(), 1, t.size(), f); fclose(f); }
static std::string ascii(Rng& r) { std::string o; for (unsigned char c : rtxt(r)) if (c < 0x80 && c >= 32) o += char(c); return o; }
/* a script, what it gives, whether it fails */
struct Script { std::string text, want; bool fails; };
static Script rscript(Rng& r, int depth = 0) {
  std::string t = rtxt(r); Script s{ "", "", false };
  switch (r.below(depth > 2 ? 6 : 12)) {
    case 0: s = { "set vh_a " + word(t), t, false }; break;
    case 1: s = { "return " + word(t), t, false }; if (depth) s.text = "set vh_b " + word(t); break;
    case 2: { long a = long(r.range(-100000, 100000)), b = long(r.range(1, 1000)); s = { "expr {" + std::to_string(a) + " * " + std::to_string(b) + "}", std::to_string(a * b), false }; break; }
    case 3: { size_t n = r.below(6), m = 0; std::string x = "set vh_n 0; foreach q {"; for (size_t i = 0; i < n; ++i) { x += " " + std::to_string(i); m += i; } s = { x + "} {incr vh_n $q}; set vh_n", std::to_string(m), false }; break; }
    case 4: s = { "error " + word(t), t, true }; break;
    case 5: s = { "vh_no_such_command", "invalid command name \"vh_no_such_command\"", true }; break;
    case 6: { Script a = rscript(r, depth + 1); s = { "set vh_q 1; " + a.text, a.want, a.fails }; break; }
    case 7: { Script a = rscript(r, depth + 1); s = { "eval {" + a.text + "}", a.want, a.fails }; break; }
    case 8: { Script a = rscript(r, depth + 1); s = { "if 1 {" + a.text + "\n}", a.want, a.fails }; break; }
    case 9: { Script a = rscript(r, depth + 1); s = { "# comment " + std::to_string(r.below(9)) + "\n" + a.text + "\n", a.want, a.fails }; break; }
    case 10: { Script a = rscript(r, depth + 1); if (a.fails) { s = { "catch {" + a.text + "} vh_e; set vh_e", a.want, false }; } else s = { "catch {" + a.text + "} vh_e", a.text.compare(0, 6, "return") ? "0" : "2", false }; if (!a.fails && a.text.find("return ") != std::string::npos) s = { "set vh_a {}", "", false }; break; }
    default: { size_t n = 1 + r.below(4); SV v; for (size_t i = 0; i < n; ++i) v.push_back(rtxt(r, 6)); size_t k = r.below(n); s = { "lindex [list " + list(v) + "] " + std::to_string(k), v[k], false }; }
  }
  return s;
}
static bool error_text(const std::string& got, const std::string& msg) { return got.compare(0, msg.size(), msg) == 0 && (got.size() == msg.size() || got[msg.size()] == '\n'); }
static void run_case(Rng& r, uint64_t) {
  stored.clear(); ScriptInterpTCL si; cur = &si; si.createCommand("vh_keep", keep); si.createCommand("vh_nested", nested); si.createCommand("vh_run", run_stored);
  ev(si, "set vh_s SUBSTITUTED; set vh_hits 0; proc vh_bad args {incr ::vh_hits; return EXECUTED}; proc vh_fail args {error boom}; proc vh_cb args {set ::vh_got $args; incr ::vh_calls; return $::vh_reply}; set vh_calls 0; set vh_reply {}");
  struct CB { SV pre; bool fails; }; std::vector<CB> cbs; long loads = 0; bool crippled = false;
  size_t steps = 20 + r.below(50);
  for (size_t i = 0; i < steps; ++i) {
    unsigned w = unsigned(r.below(100));
    if (w < 40) {
      Script s = rscript(r); if (crippled && (s.text.find("set ") != std::string::npos || s.text.find("vh_no_such") != std::string::npos)) { std::string t = rtxt(r); s = r.chance(50) ? Script{ "return " + word(t), t, false } : Script{ "error " + word(t), t, true }; }
      bool nest = r.chance(20) && s.text.compare(0, 6, "return"); op("eval%s %s", nest ? " inside a command" : "", show(s.text).c_str());
      std::string got = ev(si, nest ? "vh_nested {" + s.text + "}" : s.text);
      vh::distinct(vh::mix(1, vh::hstr(s.text.data(), s.text.size()))); vh::count(s.fails ? "eval: error" : "eval: result");
      if (s.fails) VH_CHECK(error_text(got, s.want), "eval-error", "the error of %s is %s expected %s", show(s.text).c_str(), show(got).c_str(), show(s.want).c_str());
      else VH_CHECK(got == s.want, "eval", "%s gave %s expected %s", show(s.text).c_str(), show(got).c_str(), show(s.want).c_str());
    } else if (w == 41 && !crippled) {   /* a script is evaluated at global level, wherever the program happens to be called from */
      std::string t = rtxt(r), l = rtxt(r); bool cb = r.chance(50); op("%s from inside a procedure with a local of the same name", cb ? "callback" : "eval"); size_t k = stored.size();
      if (cb) ev(si, "vh_keep {set vh_g}");
      std::string got = ev(si, "unset -nocomplain vh_g; namespace eval ::vh_ns {proc scope {vh_g} {set vh_r [" + (cb ? "vh_run " + std::to_string(k) + " [list " + word(t) + "]" : "vh_nested " + word("set vh_g " + word(t))) + "]; list $vh_r $vh_g [info exists ::vh_g]}}; ::vh_ns::scope " + word(l));
      if (cb) stored.pop_back();
      VH_CHECK(got == ev(si, "list " + word(t) + " " + word(l) + " 1"), "eval-level", "result, local and global are %s", show(got).c_str()); VH_CHECK(ev(si, "set vh_g") == t, "eval-level", "the global variable holds %s expected %s", show(ev(si, "set vh_g")).c_str(), show(t).c_str()); vh::count("eval: from a procedure");
    } else if (w == 40 && !crippled) {   /* the trace of an error has no place to go */
      std::string t = rtxt(r); op("error while errorInfo is an array"); ev(si, "unset -nocomplain ::errorInfo; array set ::errorInfo {a b}"); std::string got = ev(si, "error " + word(t)); vh::count("eval: error without errorInfo"); VH_CHECK(error_text(got, t), "eval-error", "the error %s arrives as %s", show(t).c_str(), show(got).c_str()); ev(si, "unset -nocomplain ::errorInfo");
    } else if (w < 44 && !crippled && i > steps / 2) {   /* the script takes over basic commands */
      op("the script replaces set"); ev(si, "rename set vh_set; proc set args {return HIJACKED}"); crippled = true;
    } else if (w < 58) {
      static const char* N[] = { "s.tcl", "a b.tcl", "x.tcl.tcl", "s.txt", "tcl", ".tcl", "s.tcl.bak", "atcl", "s.TCL", "", "x", ".tc", "s.tc", "missing.tcl", "dir.tcl", "stcl", "s.tclx" };
      std::string n = N[r.below(17)]; bool is = n.size() >= 4 && n.substr(n.size() - 4) == ".tcl"; bool missing = n == "missing.tcl" || n == "dir.tcl" || n.empty(); mkdir("dir.tcl", 0700);
      bool fails = r.chance(40); std::string msg = ascii(r); long mark = ++loads; std::string text = (r.chance(30) ? "# first line\n" : "") + std::string("variable ::vh_loaded ") + std::to_string(mark) + "\n" + (fails ? "error " + word(msg) + "\nvariable ::vh_loaded 0\n" : r.chance(50) ? "return fine\n" : ""); if (!missing) spit(n, text);
      String rs("before"); op("load %s (%s)", show(n).c_str(), fails ? "fails" : "works"); ev(si, "variable ::vh_loaded -1"); auto rc = si.loadScript(B(n), rs); if (!missing) unlink(n.c_str()); std::string ran = ev(si, "return $::vh_loaded");
      vh::count(!is ? "load: other kind" : missing ? "load: missing" : fails ? "load: error" : "load: ok"); vh::distinct(vh::mix(vh::mix(2, vh::hstr(n.data(), n.size())), vh::hstr(msg.data(), msg.size())));
      if (!is) { VH_CHECK(rc == ScriptInterp::SCRIPT_LOAD_WRONG_INTERP, "load", "%s: %d", n.c_str(), int(rc)); VH_CHECK(ran == "-1", "load", "%s is no script of this kind but was run", n.c_str()); }
      else if (missing) VH_CHECK(rc == ScriptInterp::SCRIPT_LOAD_ERROR && rs.length() && S(rs) != "before" && ran == "-1", "load", "missing %s: %d %s", n.c_str(), int(rc), S(rs).c_str());
      else if (fails) { VH_CHECK(rc == ScriptInterp::SCRIPT_LOAD_ERROR && S(rs) == msg, "load-error", "%s: %d with %s expected %s", n.c_str(), int(rc), show(S(rs)).c_str(), show(msg).c_str()); VH_CHECK(ran == std::to_string(mark), "load", "ran to %s", ran.c_str()); }
      else { VH_CHECK(rc == ScriptInterp::SCRIPT_LOAD_OK, "load", "%s: %d %s", n.c_str(), int(rc), show(S(rs)).c_str()); VH_CHECK(ran == std::to_string(mark), "load", "%s did not run", n.c_str()); }
    } else if (w < 66 || cbs.empty()) {
      if (crippled) continue;
      CB c; c.fails = false; size_t n = r.chance(50) ? 0 : r.below(3); for (size_t k = 0; k < n; ++k) c.pre.push_back(rtxt(r, 6)); std::string cmd = (r.chance(30) ? "::vh_cb" : "vh_cb"); if (r.chance(20)) { c.fails = true; cmd = "vh_fail"; c.pre.clear(); } else if (n) cmd += " " + list(c.pre);
      op("store callback %s", show(cmd).c_str()); ev(si, "vh_keep " + word(cmd)); VH_CHECK(stored.size() == cbs.size() + 1 && S(stored.back()->cmd) == cmd, "stored", "callback stored as %s", stored.empty() ? "nothing" : show(S(stored.back()->cmd)).c_str()); cbs.push_back(c);
    } else {
      if (crippled) continue;
      size_t k = r.below(cbs.size()); CB& c = cbs[k]; SV v(r.chance(1) ? 5 + r.below(400) : r.below(5)); for (auto& e : v) e = v.size() > 4 ? rtxt(r, 4).substr(0, 30) : rtxt(r, 10); std::string reply = rtxt(r); ev(si, "set vh_reply " + word(reply) + "; set vh_got NOTHING; set vh_hits 0; set vh_calls 0");
      bool via = !v.empty() && r.chance(20); op("call %zu with {%s}%s", k, show(list(v)).c_str(), via ? " from a script" : "");
      if (c.fails) { if (v.size() > 2) v.resize(2); std::string got = S(v.empty() && r.chance(50) ? stored[k]->call() : stored[k]->call(arr(r, v))); VH_CHECK(error_text(got, "boom"), "callback-error", "a failing callback returned %s", show(got).c_str()); vh::count("callback: error"); continue; }
      std::string got = via ? ev(si, "vh_run " + std::to_string(k) + " [list " + list(v) + "]") : S(v.empty() && r.chance(50) ? stored[k]->call() : stored[k]->call(arr(r, v)));
      SV want = c.pre; want.insert(want.end(), v.begin(), v.end()); vh::count("callback: " + (v.size() > 4 ? std::string("many") : std::to_string(v.size())) + " arguments"); std::string all = list(want); vh::distinct(vh::mix(3, vh::hstr(all.data(), all.size())));
      VH_CHECK(ev(si, "set vh_calls") == "1" && got == reply, "callback-result", "called %s times, returned %s expected %s", ev(si, "set vh_calls").c_str(), show(got).c_str(), show(reply).c_str());
      VH_CHECK(ev(si, "set vh_hits") == "0", "callback-executed", "an argument was executed"); VH_CHECK(ev(si, "llength $vh_got") == std::to_string(want.size()), "callback-words", "%s words expected %zu for {%s}: %s", ev(si, "llength $vh_got").c_str(), want.size(), show(all).c_str(), show(ev(si, "set vh_got")).c_str());
      for (size_t q = 0; q < want.size(); ++q) { std::string e = ev(si, "lindex $vh_got " + std::to_string(q)); VH_CHECK(e == want[q], "callback-argument", "argument %zu arrived as %s expected %s", q, show(e).c_str(), show(want[q]).c_str()); }
    }
  }
  stored.clear(); cur = nullptr;
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
