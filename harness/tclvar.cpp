/* C21: variables linked between the program and scripts. */
#include "tclval.hpp"
#include <functional>
struct HookCall { int which; std::string old_, new_; };
static std::vector<HookCall> hooked;
/* lists: another interpreter takes the script form apart */
typedef std::vector<std::string> SV;
static ScriptInterpTCL* probe;
static SV parts(const std::string& t) { SV v; size_t n = strtoul(ev(*probe, "llength " + word(t)).c_str(), nullptr, 10); for (size_t i = 0; i < n; ++i) v.push_back(ev(*probe, "lindex " + word(t) + " " + std::to_string(i))); return v; }
static SV relems(Rng& r) { SV v(r.chance(2) ? 5 + r.below(300) : r.below(5)); for (auto& e : v) e = rtxt(r, 8).substr(0, v.size() > 5 ? 20 : 7000); return v; }
static const char* bad_list(Rng& r) { static const char* G[] = { "{a", "\"b", "{a}b", "x {" }; return G[r.below(4)]; }
template <> struct Val<Array<String>> {
  static const char* name() { return "list"; }
  static Array<String> of(const SV& v) { Array<String> a; for (auto& e : v) a << B(e); return a; }
  static Array<String> rnd(Rng& r) { return of(relems(r)); }
  static std::string text(Rng& r, Array<String>& want) { if (r.chance(5)) { want = Array<String>(); return bad_list(r); } SV v = relems(r); want = of(v); return list(v); }
  static std::string repr(const Array<String>& a) { std::string s = "L"; for (size_t i = 0; i < a.length(); ++i) s += std::to_string(a[i].length()) + ":" + S(a[i]); return s; }
  static bool shown(const std::string& t, const Array<String>& a) { return repr(of(parts(t))) == repr(a); }
};
template <> struct Val<Array<Array<String>>> {
  typedef Val<Array<String>> I;
  static const char* name() { return "list of lists"; }
  static Array<Array<String>> rnd(Rng& r) { Array<Array<String>> a; for (size_t n = r.below(4); n > 0; --n) a << I::rnd(r); return a; }
  static std::string text(Rng& r, Array<Array<String>>& want) { Array<Array<String>> a; SV o; if (r.chance(5)) { want = a; return bad_list(r); } for (size_t n = r.below(4); n > 0; --n) { Array<String> e; o.push_back(I::text(r, e)); a << e; } want = a; return list(o); }
  static std::string repr(const Array<Array<String>>& a) { std::string s = "M"; for (size_t i = 0; i < a.length(); ++i) s += "(" + I::repr(a[i]) + ")"; return s; }
  static bool shown(const std::string& t, const Array<Array<String>>& a) { Array<Array<String>> b; for (auto& e : parts(t)) b << I::of(parts(e)); return repr(b) == repr(a); }
};
template <class T> struct Rep { static std::string of(const void* p) { return Val<T>::repr(*static_cast<const T*>(p)); } };
template <> struct Rep<char> { static std::string of(const void* p) { return static_cast<const char*>(p); } };
static std::function<void()> in_hook;   /* what the hook does besides */
template <class T, int N> static void hook(const void* o, const void* n) { hooked.push_back({ N, Rep<T>::of(o), Rep<T>::of(n) }); if (in_hook) { auto f = std::move(in_hook); in_hook = nullptr; f(); } }
struct Var {
  virtual ~Var() {}
  bool ro = false; bool ascii = false; bool isint = false; bool istext = false;
  virtual void link(ScriptInterpTCL& si, const std::string& name, int hk) = 0;
  virtual void program(Rng& r) = 0;                                  // the program assigns
  virtual std::string now() const = 0;                               // what the variable holds
  virtual std::string expect() const = 0;                            // what it must hold
  virtual bool shown(const std::string& t) const = 0;                // is t its script form
  virtual std::string text(Rng& r) = 0;                              // a text to write; stored() follows
  virtual void stored() = 0;                                         // that text was written
  virtual void settext(const std::string&) {}                        // this text was written (text types)
  virtual void add(int) {}
  virtual const char* type() const = 0;
};
template <class T> struct V : Var {
  std::unique_ptr<T> v{ new T() }; T m = T(), pend = T();
  V(Rng& r) { isint = std::is_integral<T>::value && !std::is_same<T, bool>::value; istext = std::is_same<T, String>::value; *v = m = Val<T>::rnd(r); }
  void link(ScriptInterpTCL& si, const std::string& n, int hk) override { if (hk == 3) ScriptInterp::linkVar(si, B(n), *v); else if (hk == 0) si.linkVar(B(n), *v); else si.linkVar(B(n), *v, hk == 1 ? hook<T, 1> : hook<T, 2>); }
  void program(Rng& r) override { m = Val<T>::rnd(r); *v = m; }
  std::string now() const override { return Val<T>::repr(*v); }
  std::string expect() const override { return Val<T>::repr(m); }
  bool shown(const std::string& t) const override { return Val<T>::shown(t, m); }
  std::string text(Rng& r) override { return Val<T>::text(r, pend); }
  void stored() override { m = pend; }
  void settext(const std::string& t) override { set_(t, std::is_same<T, String>()); }
  void set_(const std::string& t, std::true_type) { m = B(t); } void set_(const std::string&, std::false_type) {}
  void add(int d) override { add_(d, std::integral_constant<bool, std::is_integral<T>::value && !std::is_same<T, bool>::value>()); }
  void add_(int d, std::true_type) { m = Val<T>::conv(big(m) + d); } void add_(int, std::false_type) {}
  const char* type() const override { return Val<T>::name(); }
};
template <class T> struct RO : Var {
  std::unique_ptr<T> v; T m;
  RO(Rng& r) : v(new T(Val<T>::rnd(r))), m(*v) { ro = true; }
  void link(ScriptInterpTCL& si, const std::string& n, int hk) override { const T& c = *v; if (hk == 0) si.linkVar(B(n), c); else si.linkVar(B(n), c, hook<T, 1>); }
  void program(Rng& r) override { m = Val<T>::rnd(r); *v = m; }   /* read-only for the script, not for the program */
  std::string now() const override { return Val<T>::repr(*v); }
  std::string expect() const override { return Val<T>::repr(m); }
  bool shown(const std::string& t) const override { return Val<T>::shown(t, m); }
  std::string text(Rng& r) override { T x; return Val<T>::text(r, x); }
  void stored() override {}
  const char* type() const override { return "read-only"; }
};
struct Buf : Var {
  size_t n; std::unique_ptr<char[]> v; std::string m, pend;
  Buf(Rng& r) : n(r.chance(20) ? 1 : r.chance(10) ? 13 + r.below(5000) : 1 + r.below(12)), v(new char[n]()) { ascii = istext = true; program(r); }
  void link(ScriptInterpTCL& si, const std::string& s, int hk) override { if (hk % 3 == 0) si.linkVar(B(s), v.get(), n); else si.linkVar(B(s), v.get(), n, hk == 1 ? hook<char, 1> : hook<char, 2>); }
  static std::string asc(Rng& r) { std::string t = rtxt(r, 16); std::string o; for (unsigned char c : t) if (c < 0x80) o += char(c); return o; }
  void program(Rng& r) override { m = asc(r).substr(0, n - 1); memset(v.get(), 0, n); memcpy(v.get(), m.data(), m.size()); }
  std::string now() const override { size_t l = strnlen(v.get(), n); return l == n ? "(not terminated)" : std::string(v.get(), l); }
  std::string expect() const override { return m; }
  bool shown(const std::string& t) const override { return t == m; }
  std::string text(Rng& r) override { return pend = asc(r); }
  void stored() override { m = pend.substr(0, n - 1); }
  void settext(const std::string& t) override { m = t.substr(0, n - 1); }
  const char* type() const override { return "char buffer"; }
};
struct ROBuf : Var {
  std::unique_ptr<char[]> v{ new char[64]() }; std::string m;
  ROBuf(Rng& r) { ro = true; program(r); }
  void link(ScriptInterpTCL& si, const std::string& s, int) override { const char* p = v.get(); si.linkVar(B(s), p); }
  void program(Rng& r) override { m = Buf::asc(r).substr(0, 63); memset(v.get(), 0, 64); memcpy(v.get(), m.data(), m.size()); }
  std::string now() const override { return v.get(); }
  std::string expect() const override { return m; }
  bool shown(const std::string& t) const override { return t == m; }
  std::string text(Rng& r) override { return Buf::asc(r); }
  void stored() override {}
  const char* type() const override { return "read-only text"; }
};
static Var* mk(Rng& r) {
  switch (r.below(20)) {
    case 0: return new V<int8_t>(r); case 1: return new V<uint8_t>(r); case 2: return new V<int16_t>(r); case 3: return new V<uint16_t>(r); case 4: return new V<int32_t>(r); case 5: return new V<uint32_t>(r); case 6: return new V<int64_t>(r); case 7: return new V<uint64_t>(r);
    case 8: return new V<double>(r); case 9: return new V<bool>(r); case 10: return new V<String>(r); case 11: case 12: return new Buf(r); case 13: return new RO<int32_t>(r); case 14: return new RO<String>(r); case 15: return new V<Array<String>>(r); case 16: return new V<Array<Array<String>>>(r); case 17: return new RO<Array<String>>(r);
    case 18: switch (r.below(5)) { case 0: return new RO<int8_t>(r); case 1: return new RO<uint16_t>(r); case 2: return new RO<uint64_t>(r); case 3: return new RO<double>(r); default: return new RO<bool>(r); }
    default: return new ROBuf(r);
  }
}
static const char* const NAMES[] = { "v1", "v2", "arr(k)", "arr(j)", "vns::w", "vns::x" };
static const size_t NN = 6;
struct Link { Var* v = nullptr; int hk = 0; bool plain = false; std::string val; };
struct In { std::unique_ptr<ScriptInterpTCL> si; Link l[NN]; };
static std::string access(Rng& r, const std::string& n, const std::string* w, int& way) {   /* w: the word to write, else read */
  std::string tail = n; size_t q = n.find("::"); bool ns = q != std::string::npos, el = n.find('(') != std::string::npos; if (ns) tail = n.substr(q + 2);
  std::string a = w ? " " + *w : ""; way = int(r.below(w ? 16 : 12));
  switch (way) {
    case 0: case 1: return "set " + n + a;
    case 2: return "set ::" + n + a;
    case 3: return "proc vh_p {} {upvar #0 " + n + " z; set z" + a + "}; vh_p";
    case 4: return "proc vh_p {name} {upvar 1 $name z; set z" + a + "}; vh_p " + n;
    case 5: return "uplevel #0 {set " + n + a + "}";
    case 6: return ns ? "namespace eval vns {set " + tail + a + "}" : "namespace eval vh_zz {set ::" + n + a + "}";
    case 7: return ns ? "proc ::vns::pp {} {variable " + tail + "; set " + tail + a + "}; vns::pp" : el ? "proc vh_p {} {global arr; set " + n + a + "}; vh_p" : "proc vh_p {} {global " + n + "; set " + n + a + "}; vh_p";
    case 8: return "apply {{} {set ::" + n + a + "}}";
    case 9: return "namespace eval vh_zz {namespace upvar ::" + std::string(ns ? "vns " : " ") + tail + " q; set q" + a + "; }";
    case 10: return w ? "set " + n + a : "subst {$::" + n + "}";
    case 11: return w ? "set " + n + a : "return $::" + n;
    case 12: return "foreach " + n + " [list" + a + "] {}";
    case 13: return "lassign [list" + a + "] " + n;
    case 14: return el ? "array set arr [list " + n.substr(4, 1) + a + "]" : "set " + n + a;
    default: return "catch {return" + (a == " " ? std::string(" {}") : a) + "} " + n;
  }
}
static std::function<void()> todo;
static void vh_do() { todo(); }
/* runs the action directly or from a command that a procedure with locals of the same names calls */
static void from(Rng& r, ScriptInterpTCL& si, std::function<void()> f) {
  if (r.chance(60)) { f(); return; }
  todo = f; std::string got = ev(si, r.chance(50) ? "vh_locals" : "apply {{} {set v1 local; set v2 local; namespace eval vh_zz2 {vh_do}; list $v1 $v2}}"); vh::count("link or unlink inside a procedure"); VH_CHECK(got == "local local", "locals", "a local variable of the calling procedure was changed: %s", show(got).c_str());
}
static void run_case(Rng& r, uint64_t) {
  ScriptInterpTCL pr; probe = &pr; hooked.clear(); std::vector<std::unique_ptr<Var>> vars; size_t nv = 3 + r.below(6); for (size_t i = 0; i < nv; ++i) vars.emplace_back(mk(r));
  std::vector<In> ins(1 + r.below(2)); auto fresh = [&](In& x) { x.si.reset(new ScriptInterpTCL); for (auto& l : x.l) l = Link(); ev(*x.si, "namespace eval vns {}; set vh_s SUBSTITUTED; proc vh_bad args {return EXECUTED}; proc vh_locals {} {set v1 local; set v2 local; set arr(q) local; vh_do; list $v1 $v2}"); x.si->createCommand("vh_do", vh_do); }; for (auto& x : ins) fresh(x);
  auto all = [&](const char* what) { for (size_t i = 0; i < vars.size(); ++i) VH_CHECK(vars[i]->now() == vars[i]->expect(), "variable", "program variable %zu (%s) after %s: %s expected %s", i, vars[i]->type(), what, show(vars[i]->now()).c_str(), show(vars[i]->expect()).c_str()); };
  size_t steps = 30 + r.below(90);
  for (size_t i = 0; i < steps; ++i) {
    size_t ii = r.below(ins.size()); In& x = ins[ii]; size_t k = r.below(NN); std::string n = NAMES[k]; Link& l = x.l[k]; hooked.clear(); int way = 0; size_t wanthooks = 0; const char* what = ""; Link next; bool moved = false; in_hook = nullptr; unsigned w = unsigned(r.below(100)); std::string old;
    if (l.v && l.hk && !l.v->ro && r.chance(15)) switch (r.below(4)) {   /* used if this step writes */
      case 0: in_hook = [&] { op("  its hook unlinks %s", n.c_str()); x.si->unlinkVar(B(n)); moved = true; vh::count("hook unlinked"); }; break;
      case 1: { size_t vi = r.below(vars.size()); int hk = int(r.below(3)); in_hook = [&, vi, hk] { op("  its hook links %s to variable %zu", n.c_str(), vi); vars[vi]->link(*x.si, n, hk); next.v = vars[vi].get(); next.hk = hk; moved = true; vh::count("hook linked again"); }; break; }
      case 2: { size_t q = r.below(NN); in_hook = [&, q] { if (q == k || !x.l[q].v || x.l[q].v == l.v) return; std::string res = ev(*x.si, std::string("set ::") + NAMES[q]); VH_CHECK(x.l[q].v->shown(res), "coherence", "inside a hook %s shows %s, the program variable is %s", NAMES[q], show(res).c_str(), show(x.l[q].v->expect()).c_str()); vh::count("hook read another variable"); }; break; }
      default: { size_t q = r.below(NN); in_hook = [&, q] { if (q == k || !x.l[q].v) return; op("  its hook unlinks %s", NAMES[q]); x.si->unlinkVar(B(NAMES[q])); x.l[q] = Link(); vh::count("hook unlinked another"); }; }
    }
    if (w < 14 || (!l.v && !l.plain && w < 60)) {
      what = "link"; size_t vi = r.below(vars.size()); int hk = int(r.below(4)); std::string ln = r.chance(20) ? "::" + n : n; op("i%zu link %s to variable %zu (%s) hook %d", ii, ln.c_str(), vi, vars[vi]->type(), hk); from(r, *x.si, [&] { vars[vi]->link(*x.si, ln, hk); }); l = Link(); l.v = vars[vi].get(); l.hk = hk % 3;
      VH_CHECK(ev(*x.si, "info exists ::" + n) == "1", "exists", "%s does not exist after linking", n.c_str());
    } else if (w < 18) { what = "unlink"; std::string ln = r.chance(20) ? "::" + n : n; op("i%zu unlink %s", ii, ln.c_str()); from(r, *x.si, [&] { x.si->unlinkVar(B(ln)); }); l = Link(); VH_CHECK(ev(*x.si, "info exists ::" + n) == "0", "exists", "%s exists after unlinking", n.c_str());
    } else if (w == 18) { what = "unset array"; op("i%zu unset arr", ii); ev(*x.si, "unset -nocomplain ::arr"); for (size_t q = 0; q < NN; ++q) if (!strncmp(NAMES[q], "arr(", 4)) { x.l[q] = Link(); VH_CHECK(ev(*x.si, std::string("info exists ::") + NAMES[q]) == "0", "exists", "%s exists after its array was unset", NAMES[q]); }
    } else if (w < 22) { what = "unset"; op("i%zu unset %s", ii, n.c_str()); ev(*x.si, "unset -nocomplain ::" + n); l = Link(); VH_CHECK(ev(*x.si, "info exists ::" + n) == "0", "exists", "%s exists after unset", n.c_str());
    } else if (w < 23) { what = "new interpreter"; op("i%zu replaced", ii); fresh(x);
    } else if (w < 40) { what = "program write"; size_t vi = r.below(vars.size()); vars[vi]->program(r); op("program sets variable %zu to %s", vi, show(vars[vi]->expect()).c_str());
    } else if (w < 65) {
      what = "script read"; std::string s = access(r, n, nullptr, way); op("i%zu read: %s", ii, s.c_str()); std::string code = ev(*x.si, "catch {" + s + "} vh_m"), res = ev(*x.si, "set vh_m"); if (way == 11 && code == "2") code = "0";
      if (l.v) { VH_CHECK(code == "0", "read", "reading %s failed: %s", n.c_str(), show(res).c_str()); VH_CHECK(l.v->shown(res), "read", "the script reads %s from %s, the program variable (%s) is %s", show(res).c_str(), n.c_str(), l.v->type(), show(l.v->expect()).c_str()); vh::count("read way " + std::to_string(way)); }
      else if (l.plain) VH_CHECK(code == "0" && res == l.val, "plain", "an unlinked variable reads %s expected %s", show(res).c_str(), show(l.val).c_str());
      else VH_CHECK(code == "1", "gone", "%s can be read although it does not exist: %s", n.c_str(), show(res).c_str());
    } else if (l.v && l.v->isint && w < 70) {
      what = "incr"; int d = int(r.range(-3, 300)); std::string s = "incr ::" + n + " " + std::to_string(d); op("i%zu %s", ii, s.c_str()); old = l.v->expect(); std::string code = ev(*x.si, "catch {" + s + "} vh_m"); VH_CHECK(code == "0" || moved, "write", "incr failed: %s", ev(*x.si, "set vh_m").c_str()); l.v->add(d); wanthooks = l.hk ? 1 : 0;
    } else if (l.v && l.v->istext && !l.v->ro && w < 70) {
      what = "append"; std::string t = Buf::asc(r); std::string s = "set ::" + n + "; append ::" + n + " " + word(t); op("i%zu append %s", ii, show(t).c_str()); old = l.v->expect(); std::string code = ev(*x.si, "catch {" + s + "} vh_m"); VH_CHECK(code == "0" || moved, "write", "append failed"); l.v->settext(old + t); wanthooks = l.hk ? 1 : 0;
    } else {
      what = "script write"; std::string t = l.v ? l.v->text(r) : rtxt(r), q = word(t); std::string s = access(r, n, &q, way); if (!l.v && !l.plain) { s = "set ::" + n + " " + q; way = 2; }
      op("i%zu write: %s", ii, show(s).c_str()); if (l.v) old = l.v->expect(); std::string code = ev(*x.si, "catch {" + s + "} vh_m"), res = ev(*x.si, "set vh_m"); vh::count("write way " + std::to_string(way));
      if (l.v && l.v->ro) { if (way != 15) VH_CHECK(code == "1" && res.find("read-only") != std::string::npos, "read-only", "writing a read-only variable: code %s %s", code.c_str(), show(res).c_str()); vh::count("rejected writes"); }
      else { if (way != 15 && !moved) VH_CHECK(code == "0", "write", "writing %s failed: %s", n.c_str(), show(res).c_str()); if (l.v) { l.v->stored(); wanthooks = l.hk ? 1 : 0; } else { l.plain = true; l.val = t; } }
    }
    all(what); vh::count(std::string("op:") + what + (l.v ? std::string(" ") + l.v->type() : std::string()));
    VH_CHECK(hooked.size() == wanthooks, "hook", "%s called the hook %zu times, expected %zu", what, hooked.size(), wanthooks);
    if (wanthooks) { vh::count("hook calls"); VH_CHECK(hooked[0].which == l.hk, "hook", "hook %d called instead of %d", hooked[0].which, l.hk); VH_CHECK(hooked[0].old_ == old && hooked[0].new_ == l.v->expect(), "hook-values", "hook saw %s -> %s expected %s -> %s", show(hooked[0].old_).c_str(), show(hooked[0].new_).c_str(), show(old).c_str(), show(l.v->expect()).c_str()); }
    if (moved) { l = next; VH_CHECK(ev(*x.si, "info exists ::" + n) == (l.v ? "1" : "0"), "exists", "%s after its hook %s it", n.c_str(), l.v ? "linked" : "unlinked"); }
    vh::distinct(vh::mix(vh::mix(vh::hstr(what, strlen(what)), k * 32 + uint64_t(way)), l.v ? vh::hstr(l.v->expect().data(), l.v->expect().size()) : 0));
    if (r.chance(20)) {   /* every link of every interpreter still shows its variable */
      for (auto& y : ins) for (size_t q = 0; q < NN; ++q) if (y.l[q].v) { std::string res = ev(*y.si, std::string("set ::") + NAMES[q]); VH_CHECK(y.l[q].v->shown(res), "coherence", "%s shows %s, the program variable (%s) is %s", NAMES[q], show(res).c_str(), y.l[q].v->type(), show(y.l[q].v->expect()).c_str()); }
    }
  }
  /* the program keeps using its variables after the interpreters are gone, or the other way round */
  for (auto& x : ins) x.si.reset(); hooked.clear();
  for (auto& v : vars) v->program(r); all("destruction of the interpreters");
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
