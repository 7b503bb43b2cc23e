/* C20: commands, their arguments and results, and the ways to reach them. */
#include "tclval.hpp"
#include <stdexcept>
struct Call { std::string id; std::vector<std::string> args; };
static std::vector<Call> calls;
typedef std::vector<std::string> SV;
static std::string rep(const Array<String>& a) { std::string s = "L"; for (size_t i = 0; i < a.length(); ++i) s += std::to_string(a[i].length()) + ":" + S(a[i]); return s; }
static std::string rep(const Array<Array<String>>& a) { std::string s = "M"; for (size_t i = 0; i < a.length(); ++i) s += "(" + rep(a[i]) + ")"; return s; }
static std::string rep(const ScriptCallbackerPtr& p) { return p ? "cb:" + S(p->cmd) : "null"; }
static std::string rep(const char* const& p) { return p ? std::string("c:") + p : "cnull"; }
template <class T> static auto rep(const T& v) -> decltype(Val<T>::repr(v)) { return Val<T>::repr(v); }
static std::string mrep(const SV& v) { std::string s = "L"; for (auto& e : v) s += std::to_string(e.size()) + ":" + e; return s; }
static SV collect() { return SV(); }
template <class T, class... R> static SV collect(const T& a, const R&... b) { SV v{ rep(a) }; SV w = collect(b...); v.insert(v.end(), w.begin(), w.end()); return v; }
static std::string next_text; static int thrower;
static void maybe_throw() { switch (thrower) { case 1: throw B(next_text); case 2: throw std::runtime_error("rt"); case 3: throw 42; case 4: throw "cstr"; case 5: { std::string s; s.at(3); break; } } }
/* echo: result is the argument */
template <class T, int N> static T echo(T a) { calls.push_back({ std::string("echo") + std::to_string(N), collect(a) }); maybe_throw(); return a; }
/* produce: result is a chosen value */
template <class T> struct Prod { static T value; static T fn() { calls.push_back({ "prod", {} }); maybe_throw(); return value; } };
template <class T> T Prod<T>::value;
#define H(NAME, RET, PAR, ARGS) static RET NAME PAR { calls.push_back({ #NAME, collect ARGS }); maybe_throw(); return RET(B(next_text)); }
H(h0, String, (), ())
H(h2, String, (String a, int32_t b), (a, b))
H(h3, String, (int8_t a, String b, Array<String> c), (a, b, c))
H(h4, String, (bool a, double b, uint64_t c, String d), (a, b, c, d))
H(h6, String, (String a, String b, uint16_t c, int64_t d, Array<Array<String>> e, ScriptCallbackerPtr f), (a, b, c, d, e, f))
H(h1c, String, (const char* a), (a))
static void hv(String a, int16_t b) { calls.push_back({ "hv", collect(a, b) }); maybe_throw(); }
struct Arg { std::string text, want, code; };   // code: how the script makes the word, if not written out
static bool number(const std::string& t) { return !t.empty() && (isdigit((unsigned char)t[0]) || (t.size() > 1 && t[0] == '-' && isdigit((unsigned char)t[1]))) && t.find_first_not_of("0123456789abcdefx-+.o") == std::string::npos; }
template <class T> static Arg arg(Rng& r) { T w; std::string t = Val<T>::text(r, w); Arg a{ t, Val<T>::repr(w), "" }; if (std::is_integral<T>::value && sizeof(T) > 1 && number(t) && a.want != "0" && r.chance(30)) a.code = "[expr {" + t + "}]"; return a; }
static SV rlist(Rng& r) { if (r.chance(1)) { SV v(5 + r.below(r.chance(10) ? 3000 : 300)); for (auto& e : v) e = r.chance(90) ? std::to_string(r.below(1000)) : rtxt(r, 3).substr(0, 40); return v; } SV v(r.below(5)); for (auto& e : v) e = rtxt(r, 8); return v; }
static Arg argl(Rng& r) { SV v = rlist(r); return { list(v), mrep(v), r.chance(40) ? "[list " + list(v) + "]" : "" }; }
static Arg argm(Rng& r) { size_t n = r.chance(2) ? 4 + r.below(60) : r.below(4); SV outer; std::string w = "M", c = "[list"; for (size_t i = 0; i < n; ++i) { SV v = rlist(r); outer.push_back(list(v)); w += "(" + mrep(v) + ")"; c += " [list " + list(v) + "]"; } return { list(outer), w, r.chance(40) ? c + "]" : "" }; }
static Arg argcb(Rng& r) { std::string t = rtxt(r); return { t, "cb:" + t, "" }; }
static Arg argc_(Rng& r) { std::string t = rtxt(r); return { t, "c:" + t, "" }; }
struct Cmd { std::string name, id; std::vector<Arg (*)(Rng&)> par; SV def; size_t mn; const char* usage; int kind; int type; };   // kind 0 text result, 1 echo, 2 prod, 3 void
/* the ways to reach a command; the script leaves the error as an error */
static std::string invoke(Rng& r, const std::string& name, const std::string& args, int& way) {
  std::string c = name + (args.empty() ? "" : " " + args); size_t q = name.rfind("::"); std::string ns = q == std::string::npos ? "" : name.substr(0, q), tail = q == std::string::npos ? name : name.substr(q + 2);
  way = int(r.below(14)); if (way == 9 && !r.chance(15)) way = 0;
  switch (way) {
    case 0: case 1: case 2: return c;
    case 3: return "::" + c;
    case 4: return ns.empty() ? "namespace eval vh_zz {" + c + "}" : "namespace eval " + ns + " {" + tail + (args.empty() ? "" : " " + args) + "}";
    case 5: return "eval {" + c + "}";
    case 6: return "apply {{} {" + c + "}}";
    case 7: return "rename " + name + " vh_t; set vh_c [catch {vh_t " + args + "} vh_r]; rename vh_t " + name + "; if {$vh_c} {error $vh_r} else {set vh_r}";
    case 8: return "interp alias {} vh_al {} " + name + "; vh_al " + args;
    case 9: return "interp create vh_child; interp alias vh_child vh_al {} " + name + "; set vh_c [catch {vh_child eval {vh_al " + args + "}} vh_r]; interp delete vh_child; if {$vh_c} {error $vh_r} else {set vh_r}";
    case 10: return "namespace ensemble create -command vh_ens -map {sub ::" + name + "}; vh_ens sub " + args;
    case 11: return "proc vh_w {args} {uplevel 1 [list " + name + " {*}$args]}; vh_w " + args;
    case 12: if (!ns.empty()) return "namespace eval " + ns + " {namespace export *}; namespace import -force " + name + "; set vh_c [catch {" + tail + " " + args + "} vh_r]; namespace forget " + name + "; if {$vh_c} {error $vh_r} else {set vh_r}"; return "uplevel #0 {" + c + "}";
    default: return "set vh_x [" + c + "]";
  }
}
template <class T> static void add_type(ScriptInterpTCL& si, std::vector<Cmd>& cs, Rng& r, int type) {
  std::string n = std::string("e_") + Val<T>::name(); if (r.chance(20)) n = "nsq::" + n; si.createCommand(B(n), echo<T, 1>); cs.push_back({ n, "echo1", { arg<T> }, { Val<T>::repr(T()) }, 1, nullptr, 1, type });
  n = std::string("p_") + Val<T>::name(); si.createCommand(B(n), Prod<T>::fn); cs.push_back({ n, "prod", {}, {}, 0, nullptr, 2, type });
}
static void run_case(Rng& r, uint64_t) {
  calls.clear(); thrower = 0;
  ScriptInterpTCL si; std::vector<Cmd> cs;
  ev(si, "set vh_s SUBSTITUTED; proc vh_bad args {return EXECUTED}");
  add_type<int8_t>(si, cs, r, 0); add_type<uint8_t>(si, cs, r, 1); add_type<int16_t>(si, cs, r, 2); add_type<uint16_t>(si, cs, r, 3); add_type<int32_t>(si, cs, r, 4); add_type<uint32_t>(si, cs, r, 5); add_type<int64_t>(si, cs, r, 6); add_type<uint64_t>(si, cs, r, 7); add_type<double>(si, cs, r, 8); add_type<bool>(si, cs, r, 9); add_type<String>(si, cs, r, 10);
  auto reg = [&](const char* base, const char* id, std::vector<Arg (*)(Rng&)> par, SV def, int kind, std::function<void(const String&, const char*, size_t)> f) {
    std::string n = base; int q = int(r.below(5)); if (q == 0) n = "nsq::" + n; if (q == 1) n = "nsq::sub::" + n; if (q == 2) n += std::to_string(r.below(100)); size_t mn = r.chance(50) ? size_t(-1) : r.below(par.size() + 1); static const char* U[] = { nullptr, "a ?b?", "<x> [y] %s", "" }; const char* u = U[r.below(4)]; f(B(n), u, mn); cs.push_back({ n, id, par, def, mn == size_t(-1) ? par.size() : mn, u, kind, -1 });
  };
  reg("h0", "h0", {}, {}, 0, [&](const String& n, const char* u, size_t m) { si.createCommand(n, h0, u, m); });
  reg("h2", "h2", { arg<String>, arg<int32_t> }, { "", "0" }, 0, [&](const String& n, const char* u, size_t m) { si.createCommand(n, h2, u, m); });
  reg("h3", "h3", { arg<int8_t>, arg<String>, argl }, { "0", "", "L" }, 0, [&](const String& n, const char* u, size_t m) { ScriptInterp::createCommand(si, n, h3, u, m); });
  reg("h4", "h4", { arg<bool>, arg<double>, arg<uint64_t>, arg<String> }, { "0", Val<double>::repr(0), "0", "" }, 0, [&](const String& n, const char* u, size_t m) { si.createCommand(n, h4, u, m); });
  reg("h6", "h6", { arg<String>, arg<String>, arg<uint16_t>, arg<int64_t>, argm, argcb }, { "", "", "0", "0", "M", "null" }, 0, [&](const String& n, const char* u, size_t m) { si.createCommand(n, h6, u, m); });
  reg("h1c", "h1c", { argc_ }, { "cnull" }, 0, [&](const String& n, const char* u, size_t m) { si.createCommand(n, h1c, u, m); });
  reg("hv", "hv", { arg<String>, arg<int16_t> }, { "", "0" }, 3, [&](const String& n, const char* u, size_t m) { si.createCommand(n, hv, u, m); });
  reg("el", "echo2", { argl }, { "L" }, 4, [&](const String& n, const char* u, size_t m) { si.createCommand(n, echo<Array<String>, 2>, u, m); });
  reg("em", "echo3", { argm }, { "M" }, 5, [&](const String& n, const char* u, size_t m) { si.createCommand(n, echo<Array<Array<String>>, 3>, u, m); });
  size_t steps = 40 + r.below(100);
  for (size_t i = 0; i < steps; ++i) {
    const Cmd& c = r.pick(cs); size_t n = r.chance(80) ? size_t(r.range(long(c.mn), long(c.par.size()))) : r.below(c.par.size() + 3); bool wrong = n < c.mn || n > c.par.size();
    SV want; std::string args; for (size_t k = 0; k < std::max(n, c.par.size()); ++k) { if (k < n) { Arg a = k < c.par.size() ? c.par[k](r) : Arg{ rtxt(r), "", "" }; args += (k ? " " : "") + (a.code.empty() ? word(a.text) : a.code); want.push_back(a.want); } else want.push_back(c.def[k]); }
    thrower = !wrong && r.chance(10) ? int(1 + r.below(5)) : 0; next_text = rtxt(r);
    Prod<int8_t>::value = Val<int8_t>::rnd(r); Prod<uint8_t>::value = Val<uint8_t>::rnd(r); Prod<int16_t>::value = Val<int16_t>::rnd(r); Prod<uint16_t>::value = Val<uint16_t>::rnd(r); Prod<int32_t>::value = Val<int32_t>::rnd(r); Prod<uint32_t>::value = Val<uint32_t>::rnd(r); Prod<int64_t>::value = Val<int64_t>::rnd(r); Prod<uint64_t>::value = Val<uint64_t>::rnd(r); Prod<double>::value = Val<double>::rnd(r); Prod<bool>::value = Val<bool>::rnd(r); Prod<String>::value = Val<String>::rnd(r);
    int way; std::string script = invoke(r, c.name, args, way); op("way %d: %s  (throw %d, reply %s)", way, show(script).c_str(), thrower, show(next_text).c_str());
    calls.clear(); std::string code = ev(si, "catch {" + script + "} vh_m"), res = ev(si, "set vh_m");
    vh::distinct(vh::mix(vh::hstr(script.data(), script.size()), vh::hstr(c.name.data(), c.name.size()))); vh::count("way:" + std::to_string(way)); vh::count("cmd:" + c.id);
    if (wrong) {
      VH_CHECK(code == "1" && calls.empty(), "arity", "%s with %zu arguments: code %s, %zu calls", c.name.c_str(), n, code.c_str(), calls.size()); vh::count("wrong number of arguments");
      std::string pre = "Wrong # args. Expected " + std::to_string(c.mn) + ", got " + std::to_string(n) + "."; bool ok = c.usage ? res.compare(0, pre.size(), pre) == 0 && res.size() >= pre.size() + 15 && res.compare(pre.size(), 12, " Should be \"") == 0 && res.substr(res.size() - strlen(c.usage) - 2) == std::string(" ") + c.usage + "\"" : res == pre;
      if (c.usage && way < 3) ok = res == pre + " Should be \"" + c.name + " " + c.usage + "\"";
      VH_CHECK(ok, "arity-text", "error text %s", show(res).c_str()); continue;
    }
    VH_CHECK(calls.size() == 1, "handler", "%s called %zu handlers (code %s, %s)", show(script).c_str(), calls.size(), code.c_str(), show(res).c_str());
    VH_CHECK(calls[0].id == c.id, "handler", "%s called %s instead of %s", c.name.c_str(), calls[0].id.c_str(), c.id.c_str());
    VH_CHECK(calls[0].args.size() == want.size(), "argument", "arguments");
    for (size_t k = 0; k < want.size(); ++k) VH_CHECK(calls[0].args[k] == want[k], "argument", "%s argument %zu of %s: got %s expected %s", c.name.c_str(), k, show(args).c_str(), show(calls[0].args[k]).c_str(), show(want[k]).c_str());
    if (thrower) { std::string e = thrower == 1 ? next_text : "Unhandled exception."; VH_CHECK(code == "1" && res == e, "exception", "an exception became code %s text %s expected %s", code.c_str(), show(res).c_str(), show(e).c_str()); vh::count("handler threw"); continue; }
    VH_CHECK(code == "0", "failed", "%s failed: %s", show(script).c_str(), show(res).c_str());
    bool ok = true;
    switch (c.kind) {
      case 0: ok = res == next_text; break;
      case 3: ok = res.empty(); break;
      case 4: case 5: {   /* the list read back element by element */
        std::string len = ev(si, "llength $vh_m"), again = "L"; size_t cnt = strtoul(len.c_str(), nullptr, 10);
        if (c.kind == 4) { for (size_t k = 0; k < cnt; ++k) { std::string e = ev(si, "lindex $vh_m " + std::to_string(k)); again += std::to_string(e.size()) + ":" + e; } }
        else { again = "M"; for (size_t k = 0; k < cnt; ++k) { again += "(L"; size_t m = strtoul(ev(si, "llength [lindex $vh_m " + std::to_string(k) + "]").c_str(), nullptr, 10); for (size_t x = 0; x < m; ++x) { std::string e = ev(si, "lindex $vh_m " + std::to_string(k) + " " + std::to_string(x)); again += std::to_string(e.size()) + ":" + e; } again += ")"; } }
        ok = again == want[0]; res = again; break; }
      default: {   /* typed */
        bool p = c.kind == 2; const std::string& w = p ? std::string() : want[0];
        #define T_(N, T) case N: ok = p ? Val<T>::shown(res, Prod<T>::value) : true; if (!p) { if (N == 8) { char* e; double d = strtod(res.c_str(), &e); ok = !*e && Val<double>::same(d, strtod(w.c_str(), nullptr)); } else ok = res == w; } break;
        switch (c.type) { T_(0, int8_t) T_(1, uint8_t) T_(2, int16_t) T_(3, uint16_t) T_(4, int32_t) T_(5, uint32_t) T_(6, int64_t) T_(7, uint64_t) T_(8, double) T_(9, bool) T_(10, String) }
      }
    }
    VH_CHECK(ok, "result", "%s returned %s to the script (argument %s, reply %s)", c.name.c_str(), show(res).c_str(), want.empty() ? "-" : show(want[0]).c_str(), show(next_text).c_str());
  }
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
