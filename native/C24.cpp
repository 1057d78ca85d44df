// C24: hexadecimal conversions against plain implementations; exact-size buffers
#include "vnative.h"
#include "common/hex_conversion.h"
#include <memory>
using namespace lightstep;
static std::string plain(uint64_t x, int digits) { std::string r(digits, '0'); for (int i = digits; i-- > 0; x >>= 4) r[i] = "0123456789abcdef"[x & 15]; return r; }
static int dig(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string show(const std::string& s) { std::string r; char b[6]; for (unsigned char c : s) { snprintf(b, 6, c > 32 && c < 127 ? "%c" : "\\x%02x", c); r += b; } return "'" + r + "'"; }
static bool ref(std::string s, size_t most, unsigned __int128& v) {
  auto blank = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (!s.empty() && blank(s.front())) s.erase(0, 1);
  while (!s.empty() && blank(s.back())) s.pop_back();
  if (s.empty()) return false;
  size_t z = 0; while (z < s.size() && s[z] == '0') ++z;
  v = 0;
  for (char c : s) if (dig(c) < 0) return false; else v = v << 4 | dig(c);
  return s.size() - z <= most;
}
struct Buf { std::unique_ptr<char[]> p; size_t n; explicit Buf(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); } opentracing::string_view view() const { return {p.get(), n}; } };
static void parse(const std::string& s) {
  vn::begin("parse " + show(s));
  unsigned __int128 v = 0; Buf b(s);
  bool ok = ref(s, 16, v);
  auto r = HexToUint64(b.view());
  VN_CHECK(static_cast<bool>(r) == ok, "HexToUint64 " << (r ? "accepts" : "refuses") << " it");
  if (r && ok) VN_CHECK(*r == static_cast<uint64_t>(v), "HexToUint64 yields " << plain(*r, 16));
  ok = ref(s, 32, v);
  uint64_t h = 1, l = 2;
  auto q = HexToUint128(b.view(), h, l);
  VN_CHECK(static_cast<bool>(q) == ok, "HexToUint128 " << (q ? "accepts" : "refuses") << " it");
  if (q && ok) VN_CHECK(h == static_cast<uint64_t>(v >> 64) && l == static_cast<uint64_t>(v), "HexToUint128 yields " << plain(h, 16) << plain(l, 16));
}
static void fixed(const std::string& s) {
  vn::begin("parse at fixed width " + show(s));
  bool ok = true; unsigned __int128 v = 0; for (char c : s) { if (dig(c) < 0) ok = false; v = v << 4 | (dig(c) & 15); }
  Buf b(s);
  uint64_t h = 0, l = 0; bool got = false;
  if (s.size() == 2) { auto r = NormalizedHexToUint8(b.view()); got = static_cast<bool>(r); if (r) l = *r; }
  else if (s.size() == 16) { auto r = NormalizedHexToUint64(b.view()); got = static_cast<bool>(r); if (r) l = *r; }
  else got = static_cast<bool>(NormalizedHexToUint128(b.view(), h, l));
  VN_CHECK(got == ok, (got ? "accepted" : "refused"));
  if (got && ok) VN_CHECK(h == static_cast<uint64_t>(v >> 64) && l == static_cast<uint64_t>(v), "yields " << plain(h, 16) << plain(l, 16));
}
static void render(uint64_t x, uint64_t y) {
  vn::begin("render " + plain(x, 16) + " " + plain(y, 16));
  std::unique_ptr<char[]> b(new char[16]), c(new char[8]), d(new char[2]); HexSerializer h;
  VN_CHECK(std::string(Uint64ToHex(x, b.get())) == plain(x, 16), "Uint64ToHex yields " << show(std::string(b.get(), 16)));
  VN_CHECK(std::string(Uint32ToHex(static_cast<uint32_t>(x), c.get())) == plain(static_cast<uint32_t>(x), 8), "Uint32ToHex yields " << show(std::string(c.get(), 8)));
  VN_CHECK(std::string(Uint8ToHex(static_cast<uint8_t>(x), d.get())) == plain(static_cast<uint8_t>(x), 2), "Uint8ToHex yields " << show(std::string(d.get(), 2)));
  VN_CHECK(std::string(h.Uint64ToHex(x)) == plain(x, 16), "the serializer's 64-bit form is wrong");
  std::string w = h.Uint128ToHex(x, y);
  VN_CHECK(w == (x ? plain(x, 16) + plain(y, 16) : plain(y, 16)), "the serializer's 128-bit form is " << show(w));
  auto r = HexToUint64(plain(x, 16)); VN_CHECK(r && *r == x, "does not come back");
  uint64_t p = 0, q = 0; auto e = HexToUint128({w.data(), w.size()}, p, q); VN_CHECK(e && p == x && q == y, "the 128-bit form does not come back");
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "hexadecimal rendering and parsing of random values and near-valid texts against plain implementations");
  for (int c = 0; c < 256; ++c) {
    std::string k(1, static_cast<char>(c));
    for (auto& s : {k, k + "1", "1" + k, "1" + k + "2", " " + k + " ", std::string("0") + k}) parse(s);
    fixed("0" + k); fixed(k + "0"); fixed("012345678" + k + "abcdef"); fixed("0123456789abcdef0123456789abcde" + k); fixed(k + "0123456789abcdef0123456789abcde");
    render(static_cast<uint64_t>(c), 0); render(static_cast<uint64_t>(c) << 56, static_cast<uint64_t>(c) << 56);
  }
  for (const char* s : {"", " ", "  ", "0", "00", "0000000000000000000000000000000000000000", "ffffffffffffffff", "10000000000000000", "00ffffffffffffffff", "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000", "0x1", "-1", "+1", "1 2", "\t1\n", "1 0"}) parse(s);
  vn::Rng r(vn::seed);
  while (vn::time_left()) {
    std::string s; static const char* C = "0123456789abcdefABCDEF0000";
    for (size_t n = r.below(4); n > 0; --n) s += " \t\n"[r.below(3)];
    for (size_t n = r.below(10); n > 0 && r.chance(50); --n) s += '0';
    for (size_t n = r.chance(40) ? 14 + r.below(5) : r.chance(40) ? 30 + r.below(5) : r.below(40); n > 0; --n) s += C[r.below(26)];
    for (size_t n = r.below(3); n > 0; --n) s += " \r\v"[r.below(3)];
    if (r.chance(30) && !s.empty()) s[r.below(s.size())] = static_cast<char>(r.below(256));
    parse(s);
    std::string f; for (int n = r.chance(30) ? 2 : r.chance(50) ? 16 : 32; n > 0; --n) f += C[r.below(26)];
    if (r.chance(30)) f[r.below(f.size())] = static_cast<char>(r.below(256));
    fixed(f);
    render(r.chance(20) ? 0 : r.next() >> r.below(64), r.next() >> r.below(64));
  }
  return vn::done();
}
