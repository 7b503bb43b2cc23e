/* Base64: encode/decode against an independent bit-level reference, exact
 * buffers, hostile input. */
#include "vh.hpp"
#include "base64.h"
#include <memory>
using vh::Rng; using vh::op; using vh::show; using bd::String;
static const char STD[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_enc(const std::string& d, const char* cs) {
  std::string o; uint32_t acc = 0; int nb = 0;
  for (unsigned char c : d) { acc = (acc << 8 | c) & 0xffffff; nb += 8; while (nb >= 6) { nb -= 6; o += cs[(acc >> nb) & 63]; } }
  if (nb) o += cs[(acc << (6 - nb)) & 63];
  while (o.size() % 4) o += '=';
  return o;
}
/* exact copy on the heap so that reads past the end are seen */
static std::unique_ptr<unsigned char[]> exact(const std::string& s) { std::unique_ptr<unsigned char[]> p(new unsigned char[s.size() ? s.size() : 1]); memcpy(p.get(), s.data(), s.size()); return p; }
struct Cs { bool custom; char set[65]; char idx[256]; };
static void both(const std::string& d, const Cs& c, Rng& r) {
  const char* cs = c.custom ? c.set : nullptr;
  std::string want = ref_enc(d, c.custom ? c.set : STD);
  auto in = exact(d); size_t n = d.size();
  char* e = bd::b64enc(in.get(), &n, cs);
  VH_CHECK(n == want.size() && !memcmp(e, want.data(), n), "encode", "encoding %s gave %s expected %s", show(d).c_str(), show(e, n).c_str(), show(want).c_str());
  VH_CHECK(e[n] == 0, "encode", "encoded text of %s not terminated", show(d).c_str());
  free(e);
  { size_t m = want.size(); std::unique_ptr<char[]> buf(new char[m + 8]); memset(buf.get(), '#', m + 8); std::unique_ptr<char[]> tight(new char[m ? m : 1]); size_t k = d.size(); bd::b64enc_buf(in.get(), &k, tight.get(), cs); VH_CHECK(k == m && !memcmp(tight.get(), want.data(), m), "encode", "b64enc_buf of %s", show(d).c_str()); k = d.size(); bd::b64enc_buf(in.get(), &k, buf.get(), cs); for (size_t i = m; i < m + 8; ++i) VH_CHECK(buf[i] == '#', "bounds", "b64enc_buf wrote past %zu bytes", m); }
  VH_CHECK(!memcmp(in.get(), d.data(), d.size()), "encode", "input changed");
  auto ein = exact(want); n = want.size();
  char* p = bd::b64dec(ein.get(), &n, cs);
  VH_CHECK(n == d.size() && !memcmp(p, d.data(), n), "decode", "decoding %s gave %s expected %s", show(want).c_str(), show(p, n).c_str(), show(d).c_str());
  VH_CHECK(p[n] == 0, "decode", "decoded text not terminated");
  free(p);
  { size_t m = want.size() / 4 * 3; std::unique_ptr<char[]> tight(new char[m ? m : 1]); size_t k = want.size(); bd::b64dec_buf(ein.get(), &k, tight.get(), c.custom ? c.idx : nullptr); VH_CHECK(k == d.size() && !memcmp(tight.get(), d.data(), k), "decode", "b64dec_buf of %s", show(want).c_str()); }
  if (r.chance(30)) {
    String s(d.data(), d.size()); String hold(s); if (r.chance(50)) { std::string l = "xy" + d + "zzz"; String big(l.data(), l.size()); hold = big; s = big(2, ssize_t(d.size())); if (d.empty()) s = String(); }
    String x(bd::base64Encode(s, cs)); VH_CHECK(std::string(x) == want, "encode", "base64Encode of %s gave %s", show(d).c_str(), show(std::string(x)).c_str());
    String y(bd::base64Decode(x, cs)); VH_CHECK(std::string(y) == d, "decode", "base64Decode of %s gave %s", show(want).c_str(), show(std::string(y)).c_str());
    VH_CHECK(std::string(s) == d, "encode", "argument changed");
  }
  vh::count(c.custom ? "roundtrip:custom" : "roundtrip:standard");
}
static void hostile(const std::string& t, const Cs& c) {
  const char* cs = c.custom ? c.set : nullptr;
  size_t cap = (t.size() + 3) / 4 * 3;
  auto in = exact(t); size_t n = t.size();
  char* p = bd::b64dec(in.get(), &n, cs); std::string a(p, std::min(n, cap)); 
  VH_CHECK(n <= cap, "decode-length", "decoding %zu bytes of hostile text reported %zu bytes", t.size(), n);
  VH_CHECK(p[n] == 0, "decode", "decoded hostile text not terminated");
  free(p);
  /* what lies behind the text must not matter */
  std::string g1 = t + "AAAA", g2 = t + std::string(4, '='), g3 = t + std::string(4, '\xff');
  for (const std::string* g : { &g1, &g2, &g3 }) {
    size_t k = t.size(); std::unique_ptr<char[]> out(new char[cap + 8]); memset(out.get(), '#', cap + 8);
    bd::b64dec_buf(reinterpret_cast<const unsigned char*>(g->data()), &k, out.get(), c.custom ? c.idx : nullptr);
    VH_CHECK(k == n && !memcmp(out.get(), a.data(), n), "decode-reads-past", "decoding %s depends on the bytes behind it", show(t).c_str());
    for (size_t i = cap; i < cap + 8; ++i) VH_CHECK(out[i] == '#', "bounds", "b64dec_buf wrote past %zu bytes", cap);
  }
  { std::unique_ptr<char[]> tight(new char[cap ? cap : 1]); size_t k = t.size(); bd::b64dec_buf(in.get(), &k, tight.get(), c.custom ? c.idx : nullptr); VH_CHECK(k == n, "decode", "b64dec_buf and b64dec differ"); }
  String y(bd::base64Decode(String(t.data(), t.size()), cs)); VH_CHECK(std::string(y) == a, "decode", "base64Decode and b64dec differ on %s", show(t).c_str());
  vh::count("hostile");
}
static void run_case(Rng& r, uint64_t no) {
  Cs c; c.custom = r.chance(50);
  { std::vector<int> all; for (int i = 0; i < 256; ++i) if (i != '=' && (i || r.chance(10))) all.push_back(i); bool low = r.chance(50); if (low) { all.clear(); for (int i = 33; i < 127; ++i) if (i != '=') all.push_back(i); } memset(c.idx, -1, 256); for (int i = 0; i < 64; ++i) { size_t k = size_t(i) + r.below(all.size() - size_t(i)); std::swap(all[size_t(i)], all[k]); c.set[i] = char(all[size_t(i)]); c.idx[all[size_t(i)]] = char(i); } c.set[64] = 0; }
  op("charset %s", c.custom ? show(c.set, 64).c_str() : "standard");
  /* a slice of the complete space of 1-, 2- and 3-byte groups */
  for (int k = 0; k < 40; ++k) { uint32_t v = uint32_t(no * 40 + uint64_t(k)); std::string d; if (v < 256) d = std::string(1, char(v)); else if (v < 256 + 65536) { v -= 256; d = { char(v >> 8), char(v) }; } else { v = uint32_t(r.next()); d = { char(v >> 16), char(v >> 8), char(v) }; } op("group %s", show(d).c_str()); both(d, c, r); vh::distinct(vh::hstr(d.data(), d.size())); }
  for (int k = 0; k < 6; ++k) {
    size_t n = r.chance(70) ? r.below(20) : r.chance(80) ? r.below(300) : r.below(40) ? r.below(20000) : 65530 + r.below(70000); std::string d(n, 0); for (auto& x : d) x = char(r.chance(10) ? (r.chance(50) ? 0 : 0xff) : r.below(256));
    op("bytes %s", show(d).c_str()); both(d, c, r); vh::distinct(vh::hstr(d.data(), d.size()));
    std::string t; size_t m = r.chance(3) ? r.below(5000) : r.below(30); const char* cs = c.custom ? c.set : STD;
    switch (r.below(4)) {
      case 0: for (size_t i = 0; i < m; ++i) t += char(r.below(256)); break;
      case 1: t = ref_enc(d.substr(0, 60), cs); if (t.size()) t.resize(r.below(t.size() + 1)); break;
      case 2: t = ref_enc(d.substr(0, 60), cs); for (size_t i = 0; i < t.size(); ++i) if (r.chance(20)) t[i] = r.chance(50) ? '=' : char(r.below(256)); break;
      default: for (size_t i = 0; i < m; ++i) t += r.chance(30) ? '=' : cs[r.below(64)];
    }
    op("hostile %s", show(t).c_str()); hostile(t, c); vh::distinct(vh::hstr(t.data(), t.size()));
  }
}
int main(int argc, char** argv) { return vh::drive(argc, argv, run_case); }
