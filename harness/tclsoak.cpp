/* C23, C03: an operation of the script binding repeated thousands of times does not keep taking memory.  Tcl's own
 * allocator hides its objects from a leak checker, so the heap in use is measured over rounds of equal work. */
#include "tclval.hpp"
#include <functional>
#include <malloc.h>
#include <stdexcept>
typedef std::vector<std::string> SV;
static size_t used() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static void hook(const void*, const void*) {}
template <class T> static T echo(T a) { return a; }
static String thrower(String a) { throw a; }
static String unknown(String) { throw std::runtime_error("x"); }
static ScriptCallbackerPtr held;
static void keep(ScriptCallbackerPtr p) { held = p; }
template <class T> static void lk(ScriptInterpTCL& si, const char* n, T& v, bool h) { if (h) si.linkVar(n, v, hook); else si.linkVar(n, v); }
struct Vars { int8_t a = 1; uint8_t b = 2; int16_t c = 3; uint16_t d = 4; int32_t e = 5; uint32_t f = 6; int64_t g = 7; uint64_t h = UINT64_MAX; double i = 1.5; bool j = true; String k = "text"; Array<String> l; Array<Array<String>> m; char n[40] = "buf"; };
static const char* const CT[] = { "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "double", "bool", "String", "list", "lists", "buffer", "const int", "const String", "const text" };
static void link_one(ScriptInterpTCL& si, Vars& v, size_t t, const char* n, bool h) {
  switch (t) {
    case 0: lk(si, n, v.a, h); break; case 1: lk(si, n, v.b, h); break; case 2: lk(si, n, v.c, h); break; case 3: lk(si, n, v.d, h); break; case 4: lk(si, n, v.e, h); break; case 5: lk(si, n, v.f, h); break; case 6: lk(si, n, v.g, h); break; case 7: lk(si, n, v.h, h); break;
    case 8: lk(si, n, v.i, h); break; case 9: lk(si, n, v.j, h); break; case 10: lk(si, n, v.k, h); break; case 11: lk(si, n, v.l, h); break; case 12: lk(si, n, v.m, h); break; case 13: if (h) si.linkVar(n, v.n, sizeof v.n, hook); else si.linkVar(n, v.n, sizeof v.n); break;
    case 14: { const int32_t& x = v.e; si.linkVar(n, x); break; } case 15: { const String& x = v.k; si.linkVar(n, x); break; } default: { const char* x = v.n; si.linkVar(n, x); }
  }
}
template <class T> static void cmd(ScriptInterpTCL& si, const char* n) { si.createCommand(n, echo<T>); }
static void make(ScriptInterpTCL& si, size_t t, const char* n) {
  switch (t) {
    case 0: cmd<int8_t>(si, n); break; case 1: cmd<uint8_t>(si, n); break; case 2: cmd<int16_t>(si, n); break; case 3: cmd<uint16_t>(si, n); break; case 4: cmd<int32_t>(si, n); break; case 5: cmd<uint32_t>(si, n); break; case 6: cmd<int64_t>(si, n); break; case 7: cmd<uint64_t>(si, n); break;
    case 8: cmd<double>(si, n); break; case 9: cmd<bool>(si, n); break; case 10: cmd<String>(si, n); break; case 11: cmd<Array<String>>(si, n); break; default: cmd<Array<Array<String>>>(si, n);
  }
}
static std::string value(Rng& r, size_t t) {
  switch (t) { case 9: return r.chance(50) ? "1" : "0"; case 10: case 13: return r.chance(50) ? "some words here" : std::string(30, 'q'); case 11: return "{a b {c d} e}"; case 12: return "{{a b} {c {d e}} {}}"; case 8: return "2.25"; case 7: return r.chance(50) ? "18446744073709551615" : "5"; default: return r.chance(20) ? "junk" : r.chance(20) ? "99999999999999" : "17"; }
}
static void spit(const char* n, const char* t) { FILE* f = fopen(n, "w"); if (!f) { perror(n); _exit(3); } fputs(t, f); fclose(f); }
static void run_case(Rng& r, uint64_t no) {
  Vars v; v.l << "x" << "y z"; v.m << v.l << v.l; size_t rounds = 3000; std::string what; std::function<void()> f; std::unique_ptr<ScriptInterpTCL> si(new ScriptInterpTCL); String script;
  auto quiet = [&](const String& s) { String x(si->eval(s)); (void)x; }; size_t t = r.below(17), ct = r.below(13); bool h = r.chance(50); String q; Array<String> args;
  switch (no % 19) {
    case 0: case 1: what = std::string("read a linked ") + CT[t]; link_one(*si, v, t, "v", h); script = r.chance(50) ? "set v" : "proc p {} {upvar #0 v z; set z}; p"; f = [&] { quiet(script); }; break;
    case 2: case 3: what = std::string("write a linked ") + CT[t]; link_one(*si, v, t, "v", h); script = B("catch {set v " + (t > 13 ? std::string("1") : word(value(r, t))) + "}"); if (t > 9 && t < 14) { std::string x = value(r, t); script = B("catch {set v " + (t > 10 && t < 13 ? x : word(x)) + "}"); } f = [&] { quiet(script); }; break;
    case 4: case 5: case 6: what = std::string("call a command with ") + CT[ct]; make(*si, ct, "c"); script = B("c " + (ct == 11 || ct == 12 ? value(r, ct) : word(value(r, ct)))); f = [&] { quiet(script); }; break;
    case 7: what = "call with a wrong number of arguments"; make(*si, ct, "c"); script = r.chance(50) ? "catch c" : "c 1 2 3"; f = [&] { quiet(script); }; break;
    case 8: what = "call a command that throws"; si->createCommand("c", r.chance(50) ? thrower : unknown); script = "c {an error text}"; f = [&] { quiet(script); }; break;
    case 9: what = "evaluate"; script = r.chance(50) ? "expr {6 * 7}" : "string repeat xy 100"; f = [&] { quiet(script); }; break;
    case 10: what = "evaluate a failing script"; script = r.chance(50) ? "error boom" : "no_such_command"; f = [&] { quiet(script); }; break;
    case 11: case 12: { what = "call a stored callback"; si->createCommand("keep", keep); quiet(r.chance(60) ? "proc cb args {return $args}; keep cb" : "proc cb args {error bad}; keep {cb one}"); size_t n = r.below(5); for (size_t i = 0; i < n; ++i) args << B(i ? "a {b} $c" : std::string(50, 'z')); f = [&] { String x(args.length() ? held->call(args) : held->call()); (void)x; }; break; }
    case 13: what = std::string("link and unlink ") + CT[t]; f = [&, t, h] { link_one(*si, v, t, "v", h); quiet("set v"); si->unlinkVar("v"); }; break;
    case 14: what = std::string("link again and again ") + CT[t]; f = [&, t, h] { link_one(*si, v, t, "v", h); quiet("set v"); }; break;
    case 15: what = "create and delete a command"; f = [&, ct] { make(*si, ct, "c"); quiet("c 1"); si->deleteCommand("c"); }; break;
    case 16: what = "create a command again and again, the script deleting it at times"; f = [&, ct] { make(*si, ct, "c"); quiet("c 1"); static int k; if (++k % 3 == 0) quiet("rename c {}"); link_one(*si, v, 4, "v", false); quiet("unset v"); }; break;
    case 17: what = "load a script file"; spit("ok.tcl", "set x 5\n"); spit("bad.tcl", "set x 5\nerror nope\n"); rounds = 300; f = [&] { String m; si->loadScript("ok.tcl", m); si->loadScript("bad.tcl", m); si->loadScript("none.tcl", m); }; break;
    default: what = "create and destroy an interpreter"; rounds = 30; f = [&, t, ct] { ScriptInterpTCL x; make(x, ct, "c"); make(x, 10, "ns::d"); link_one(x, v, t, "v", true); x.createCommand("keep", keep); x.eval("keep {list a}; c 1; set v; namespace eval q {variable z 1}; proc p {} {}"); held.reset(); }; break;
  }
  op("%s, %zu times a round", what.c_str(), rounds); vh::distinct(vh::mix(vh::hstr(what.data(), what.size()), vh::hstr(script.data(), script.length()))); vh::count(what);
  for (size_t i = 0; i < rounds; ++i) f();
  size_t leak = 0; long grew[2];
  for (int k = 0; k < 2; ++k) { size_t a = used(); for (size_t i = 0; i < rounds; ++i) f(); grew[k] = long(used()) - long(a); if (grew[k] >= long(rounds * 16)) ++leak; }
  held.reset(); VH_CHECK(leak < 2, "memory-grows", "%s: %zu rounds take %ld and %ld more bytes", what.c_str(), rounds, grew[0], grew[1]); vh::count("operations", 3 * rounds);
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
