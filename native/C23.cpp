// C23: base64 against a plain implementation, every byte value in every position, exact-size buffers
#include "vnative.h"
#include <lightstep/base64/base64.h>
#include <memory>
using lightstep::Base64;
static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_enc(const std::string& x) {
  std::string r;
  for (size_t i = 0; i < x.size(); i += 3) {
    uint32_t v = 0; size_t k = std::min<size_t>(3, x.size() - i);
    for (size_t j = 0; j < 3; ++j) v = v << 8 | (j < k ? static_cast<uint8_t>(x[i + j]) : 0);
    for (size_t j = 0; j < 4; ++j) r += j <= k ? A[(v >> (18 - 6 * j)) & 63] : '=';
  }
  return r;
}
static bool ref_dec(const std::string& t, std::string& out) {
  out.clear();
  if (t.size() % 4) return false;
  size_t pad = 0;
  if (!t.empty() && t.back() == '=') pad = t[t.size() - 2] == '=' ? 2 : 1;
  uint32_t bits = 0; int n = 0;
  for (size_t i = 0; i < t.size() - pad; ++i) {
    const char* p = t[i] ? strchr(A, t[i]) : nullptr;
    if (!p) return false;
    bits = bits << 6 | static_cast<uint32_t>(p - A); n += 6;
    if (n >= 8) { n -= 8; out += static_cast<char>(bits >> n & 255); }
    bits &= (1u << n) - 1;
  }
  return bits == 0;
}
static std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r; }
static std::string dec(const std::string& t) { std::unique_ptr<char[]> p(new char[t.size()]); memcpy(p.get(), t.data(), t.size()); return Base64::decode(p.get(), t.size()); }
static void decode(const std::string& t) {
  vn::begin("decode the bytes " + hex(t));
  std::string want, got = dec(t);
  if (ref_dec(t, want)) VN_CHECK(got == want, "decodes to " << hex(got) << " instead of " << hex(want));
  else VN_CHECK(got.empty(), "malformed text is decoded to " << hex(got));
}
static void encode(const std::string& x) {
  vn::begin("encode the bytes " + hex(x));
  std::unique_ptr<char[]> p(new char[x.size()]); memcpy(p.get(), x.data(), x.size());
  std::string t = Base64::encode(p.get(), x.size());
  VN_CHECK(t == ref_enc(x), "encodes to " << t << " instead of " << ref_enc(x));
  VN_CHECK(dec(t) == x, "does not come back from " << t);
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "base64 encoding and decoding against a plain implementation");
  encode(""); decode("");
  for (int a = 0; a < 256; ++a) { encode(std::string(1, a)); encode(std::string("x") + std::string(1, a)); encode(std::string("xy") + std::string(1, a)); }
  for (const char* base : {"QUJD", "QUI=", "QQ==", "QUJDREVG", "QUJDREU=", "QUJDRA=="})
    for (size_t i = 0; i < strlen(base); ++i)
      for (int c = 0; c < 256; ++c) { std::string t = base; t[i] = static_cast<char>(c); decode(t); }
  for (const char* t : {"Q", "QU", "QUI", "====", "=", "Q===", "QUI=QUI=", "QQ==QQ==", "Q=Q=", "QU=I"}) decode(t);
  vn::Rng r(vn::seed);
  while (vn::time_left()) {
    std::string x; for (size_t n = r.below(r.chance(5) ? 2000 : 20); n > 0; --n) x += static_cast<char>(r.below(256));
    encode(x);
    std::string t = ref_enc(x);
    for (size_t k = r.below(4); k > 0 && !t.empty(); --k) {
      size_t i = r.chance(50) ? t.size() - 1 - r.below(std::min<size_t>(4, t.size())) : r.below(t.size());
      t[i] = r.chance(30) ? '=' : r.chance(50) ? A[r.below(64)] : static_cast<char>(r.below(256));
    }
    if (r.chance(10) && !t.empty()) t.pop_back();
    decode(t);
  }
  return vn::done();
}
