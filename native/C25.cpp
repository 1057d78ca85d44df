// C25: trace-context headers against a plain implementation; exact-size buffers
#include "vnative.h"
#include "tracer/propagation/trace_context.h"
#include <memory>
using namespace lightstep;
static std::string hex(uint64_t x, int n) { std::string r(n, '0'); for (int i = n; i-- > 0; x >>= 4) r[i] = "0123456789abcdef"[x & 15]; return r; }
static int dig(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool num(const std::string& s, size_t at, size_t n, uint64_t& v) { v = 0; for (size_t i = at; i < at + n; ++i) { if (dig(s[i]) < 0) return false; v = v << 4 | static_cast<uint64_t>(dig(s[i])); } return true; }
static std::string show(const std::string& s) { std::string r; char b[6]; for (unsigned char c : s) { snprintf(b, 6, c > 32 && c < 127 ? "%c" : "\\x%02x", c); r += b; } return "'" + r + "'"; }
static void parse(const std::string& s) {
  vn::begin("parse " + show(s));
  uint64_t v, h, l, p, f;
  bool ok = s.size() >= 55 && num(s, 0, 2, v) && s[2] == '-' && num(s, 3, 16, h) && num(s, 19, 16, l) && s[35] == '-' && num(s, 36, 16, p) && s[52] == '-' && num(s, 53, 2, f);
  std::unique_ptr<char[]> b(new char[s.size()]); memcpy(b.get(), s.data(), s.size());
  TraceContext c; auto r = ParseTraceContext({b.get(), s.size()}, c);
  VN_CHECK(static_cast<bool>(r) == ok, (r ? "accepted" : "refused"));
  if (r && ok) VN_CHECK(c.version == v && c.trace_id_high == h && c.trace_id_low == l && c.parent_id == p && c.trace_flags == f, "parsed to other values");
}
static void round(uint64_t h, uint64_t l, uint64_t p, uint8_t f, uint8_t v) {
  TraceContext c; c.trace_id_high = h; c.trace_id_low = l; c.parent_id = p; c.trace_flags = f; c.version = v;
  std::string want = hex(v, 2) + "-" + hex(h, 16) + hex(l, 16) + "-" + hex(p, 16) + "-" + hex(f, 2);
  vn::begin("serialize " + want);
  std::unique_ptr<char[]> b(new char[TraceContextLength]);
  SerializeTraceContext(c, b.get());
  std::string got(b.get(), TraceContextLength);
  VN_CHECK(got == want, "serialized to " << show(got));
  TraceContext d; d.version = 0xee; d.trace_flags = 0xee; auto r = ParseTraceContext(got, d);
  VN_CHECK(r && d.version == v && d.trace_id_high == h && d.trace_id_low == l && d.parent_id == p && d.trace_flags == f, "does not come back");
  VN_CHECK(SetTraceFlag<SampledFlagMask>(f, true) == (f | 1) && SetTraceFlag<SampledFlagMask>(f, false) == (f & 0xfe) && IsTraceFlagSet<SampledFlagMask>(f) == ((f & 1) != 0), "the sampled flag of " << hex(f, 2));
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "trace contexts and near-valid headers against a plain implementation");
  const std::string base = "00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01";
  for (size_t i = 0; i < base.size(); ++i) for (int c = 0; c < 256; ++c) { std::string s = base; s[i] = static_cast<char>(c); parse(s); }
  for (size_t n = 0; n <= base.size(); ++n) parse(base.substr(0, n));
  parse(base + "-extra"); parse(base + "\xff"); parse(" " + base);
  for (int f = 0; f < 256; ++f) round(1, 2, 3, static_cast<uint8_t>(f), static_cast<uint8_t>(255 - f));
  vn::Rng r(vn::seed);
  while (vn::time_left()) {
    round(r.next() >> r.below(64), r.next() >> r.below(64), r.next() >> r.below(64), static_cast<uint8_t>(r.next()), static_cast<uint8_t>(r.next()));
    std::string s = base;
    for (size_t k = r.below(3); k > 0; --k) s[r.below(s.size())] = r.chance(60) ? "0123456789abcdefABCDEF-gG/:@`"[r.below(29)] : static_cast<char>(r.below(256));
    if (r.chance(20)) s.resize(r.below(70), '0');
    parse(s);
  }
  return vn::done();
}
