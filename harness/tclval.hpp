/* Shared by the script binding drivers: script texts with known values. */
#ifndef TCLVAL_HPP
#define TCLVAL_HPP
#include "heap.hpp"
#include "ScriptInterpTCL.h"
#include <cmath>
#include <limits>
#include <memory>
using bd::String; using bd::Array; using bd::ScriptInterpTCL; using bd::ScriptInterp; using bd::ScriptCallbackerPtr;
using vh::Rng; using vh::op; using vh::show;
typedef __int128 big;
inline std::string S(const String& s) { return std::string(s.data(), s.length()); }
inline String B(const std::string& s) { return String(s.data(), s.size()); }
inline std::string ev(ScriptInterpTCL& si, const std::string& script) { return S(si.eval(B(script))); }
/* one word of a script, or one element of a list: exactly this text */
inline std::string word(const std::string& t) {
  if (t.empty()) return "{}";
  std::string r;
  for (unsigned char c : t) {
    if (isalnum(c) || c >= 0x80) r += char(c);
    else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else if (c == '\v') r += "\\v"; else if (c == '\f') r += "\\f";
    else if (c < 32 || c == 127) { char b[8]; snprintf(b, sizeof b, "\\%03o", c); r += b; }
    else { r += '\\'; r += char(c); }
  }
  return r;
}
inline std::string list(const std::vector<std::string>& v) { std::string r; for (auto& e : v) r += (r.empty() ? "" : " ") + word(e); return r; }
inline std::string rtxt(Rng& r, size_t max = 12) {
  static const char* SPECIAL[] = { "{", "}", "[", "]", "$", "\\", ";", "#", "\"", " ", "\n", "\t", "$vh_s", "[vh_bad]", "\\n", "{*}", "::", "%s", "(", ")", "a", "bc", "1", "-", "\r", "\x01", "\x7f", "~", "$::env(HOME)", "\xc3\xa9", "\xe6\x97\xa5" };
  size_t n = r.chance(12) ? 0 : r.chance(4) ? 200 + r.below(6000) : 1 + r.below(max); std::string s; int style = int(r.below(3));
  while (s.size() < n) { if (style == 0) s += char('a' + r.below(26)); else if (style == 1) s += char(33 + r.below(94)); else s += SPECIAL[r.below(sizeof SPECIAL / sizeof *SPECIAL)]; }
  return s;
}
inline std::string itoa(big v, unsigned base = 10) { bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; std::string s; do { s += "0123456789abcdef"[int(u % base)]; u /= base; } while (u); if (base == 16) s += "x0"; if (base == 8) s += "o0"; if (base == 2) s += "b0"; if (neg) s += '-'; std::reverse(s.begin(), s.end()); return s; }
inline big rint(Rng& r) {
  switch (r.below(4)) {
    case 0: return big(r.range(-20, 20));
    case 1: { static const int K[] = { 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 70 }; big v = (big(1) << K[r.below(11)]) + r.range(-3, 3); return r.chance(50) ? -v : v; }
    case 2: { big v = big(r.next() >> r.below(63)); return r.chance(50) ? -v : v; }
    default: return big(int64_t(r.next()));
  }
}
/* how a value of each type is written in a script, and what it must become */
template <class T> struct Val {   /* integers */
  static const char* name() { return std::is_signed<T>::value ? sizeof(T) == 1 ? "int8" : sizeof(T) == 2 ? "int16" : sizeof(T) == 4 ? "int32" : "int64" : sizeof(T) == 1 ? "uint8" : sizeof(T) == 2 ? "uint16" : sizeof(T) == 4 ? "uint32" : "uint64"; }
  static T conv(big v) { return v < big(std::numeric_limits<T>::min()) || v > big(std::numeric_limits<T>::max()) ? T(0) : T(v); }
  static std::string text(Rng& r, T& want) {
    if (r.chance(12)) { static const char* G[] = { "abc", "", "1e3", "1.5", "12abc", "0x", "--5", "true", "1 2", "no", "9 ", "$", "5-" , "1_0", "nan" }; const char* g = G[r.below(15)]; want = !strcmp(g, "9 ") ? T(9) : T(0); return g; }
    big v = rint(r); static const unsigned BS[] = { 10, 10, 10, 16, 8, 2 }; std::string t = itoa(v, BS[r.below(6)]); if (v >= 0 && r.chance(8)) t = "+" + t; if (r.chance(8)) t = " " + t; if (r.chance(8)) t += " "; want = conv(v); return t;
  }
  static T rnd(Rng& r) { for (;;) { big v = rint(r); if (conv(v) == v) return T(v); } }
  static std::string repr(const T& v) { return itoa(big(v)); }
  static bool shown(const std::string& t, const T& v) { return t == itoa(big(v)); }
};
template <> struct Val<double> {
  static const char* name() { return "double"; }
  static double rnd(Rng& r) { if (r.chance(5)) return r.chance(50) ? INFINITY : -INFINITY; if (r.chance(20)) return double(r.range(-5, 5)); double d; do { uint64_t b = r.next(); memcpy(&d, &b, 8); } while (d != d || std::isinf(d)); return r.chance(50) ? d : double(int64_t(r.next())) / 1000; }
  static std::string text(Rng& r, double& want) {
    if (r.chance(12)) { static const char* G[] = { "abc", "", "1e", "1.5.5", "12abc", "true", "1 2", "--1" }; want = 0; return G[r.below(8)]; }
    if (r.chance(15)) { big v = rint(r); want = double(v); return itoa(v); }
    want = rnd(r); if (std::isinf(want)) return want > 0 ? "Inf" : "-Inf"; char b[64]; snprintf(b, sizeof b, r.chance(50) ? "%.17g" : "%.17e", want); return b;
  }
  static std::string repr(const double& v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
  static bool shown(const std::string& t, const double& v) { char* e; double d = strtod(t.c_str(), &e); return !t.empty() && !*e && same(d, v); }
  /* Tcl's own printing of a power of two can be one unit off */
  static bool same(double a, double b) { return a == b || std::fabs(a - b) <= std::fabs(b) * 4e-16; }
};
template <> struct Val<bool> {
  static const char* name() { return "bool"; }
  static bool rnd(Rng& r) { return r.chance(50); }
  static std::string text(Rng& r, bool& want) {
    static const struct { const char* t; bool v; } T[] = { { "1", 1 }, { "0", 0 }, { "true", 1 }, { "false", 0 }, { "yes", 1 }, { "no", 0 }, { "on", 1 }, { "off", 0 }, { "TRUE", 1 }, { "Off", 0 }, { "t", 1 }, { "f", 0 }, { "2", 1 }, { "-1", 1 }, { "0.0", 0 }, { "2.5", 1 }, { "0x10", 1 }, { "maybe", 0 }, { "", 0 }, { "o", 0 }, { "truee", 0 }, { "4294967296", 1 }, { "256", 1 } };
    auto& t = T[r.below(sizeof T / sizeof *T)]; want = t.v; return t.t;
  }
  static std::string repr(const bool& v) { return v ? "1" : "0"; }
  static bool shown(const std::string& t, const bool& v) { return t == (v ? "1" : "0"); }
};
template <> struct Val<String> {
  static const char* name() { return "String"; }
  static String rnd(Rng& r) { return B(rtxt(r)); }
  static std::string text(Rng& r, String& want) { std::string t = rtxt(r); want = B(t); return t; }
  static std::string repr(const String& v) { return S(v); }
  static bool shown(const std::string& t, const String& v) { return t == S(v); }
};
#endif
