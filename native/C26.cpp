// C26: chunk headers and report-request prefixes read back by independent readers; ReadChunkHeader over any split
#include "vnative.h"
#include "common/chunked_http_framing.h"
#include "common/report_request_framing.h"
#include <memory>
using namespace lightstep;
struct Pieces : google::protobuf::io::ZeroCopyInputStream {
  std::string s; std::vector<size_t> cuts; size_t at = 0, k = 0, last = 0; std::unique_ptr<char[]> piece;
  bool Next(const void** d, int* n) override {
    if (at == s.size()) return false;
    while (k < cuts.size() && cuts[k] <= at && !(cuts[k] == at && cuts.size() > k + 1 && cuts[k + 1] == at)) ++k;
    size_t e = k < cuts.size() && cuts[k] <= s.size() ? cuts[k] : s.size();
    if (e < at) e = s.size();
    piece.reset(new char[e - at]); memcpy(piece.get(), s.data() + at, e - at);
    *d = piece.get(); *n = static_cast<int>(e - at); last = e - at; at = e; ++k;
    return true;
  }
  void BackUp(int n) override { VN_CHECK(n >= 0 && static_cast<size_t>(n) <= last, "BackUp(" << n << ") beyond the piece of " << last); at -= n; last = 0; }
  bool Skip(int n) override { VN_CHECK(n >= 0, "Skip(" << n << ")"); last = 0; if (at + n > s.size()) { at = s.size(); return false; } at += n; return true; }
  int64_t ByteCount() const override { return static_cast<int64_t>(at); }
};
static std::string show(const std::string& s) { std::string r; char b[6]; for (unsigned char c : s) { snprintf(b, 6, c > 32 && c < 127 ? "%c" : "\\x%02x", c); r += b; } return "'" + r + "'"; }
static std::string chunk(uint32_t x, size_t size) {
  vn::begin("chunk header for " + std::to_string(x) + " in " + std::to_string(size) + " bytes");
  std::unique_ptr<char[]> b(new char[size]); memset(b.get(), 0x5a, size);
  size_t n = WriteHttpChunkHeader(b.get(), size, x);
  char want[16]; snprintf(want, 16, "%08x\r\n", x);
  std::string got(b.get() + size - 10, 10);
  VN_CHECK(n == 10, "length " << n);
  VN_CHECK(got == want, "writes " << show(got));
  for (size_t i = 0; i + 10 < size; ++i) VN_CHECK(b[i] == 0x5a, "byte " << i << " before the header written");
  return got;
}
static void prefix(uint32_t x, size_t size) {
  vn::begin("report-request prefix for " + std::to_string(x) + " in " + std::to_string(size) + " bytes");
  std::unique_ptr<char[]> b(new char[size]); memset(b.get(), 0x5a, size);
  size_t n = WriteReportRequestSpansHeader(b.get(), size, x);
  std::string want(1, 0x1a); uint32_t v = x; for (; v >= 128; v >>= 7) want += static_cast<char>(v | 128); want += static_cast<char>(v);
  VN_CHECK(n == want.size(), "length " << n);
  if (n > size) return;
  std::string got(b.get() + size - n, n);
  VN_CHECK(got == want, "writes " << show(got));
  for (size_t i = 0; i + n < size; ++i) VN_CHECK(b[i] == 0x5a, "byte " << i << " before the prefix written");
}
static void read(const std::string& s, std::vector<size_t> cuts) {
  std::string t = "read " + show(s) + " cut at"; for (auto c : cuts) t += " " + std::to_string(c);
  vn::begin(t);
  Pieces p; p.s = s; p.cuts = cuts;
  size_t c = s.find('\r'), x = 77; bool want = c != std::string::npos && c <= 16 && c >= 1 && c + 2 <= s.size();
  uint64_t v = 0; if (want) for (size_t i = 0; i < c; ++i) if (!isxdigit(static_cast<unsigned char>(s[i]))) want = false; else v = v << 4 | strtoul(std::string(1, s[i]).c_str(), nullptr, 16);
  bool got = ReadChunkHeader(p, x);
  bool blanks = false; if (c != std::string::npos) for (size_t i = 0; i < c; ++i) blanks |= isspace(static_cast<unsigned char>(s[i])) != 0;
  if (!blanks) VN_CHECK(got == want, (got ? "accepted" : "refused"));
  if (got && want) { VN_CHECK(x == v, "yields " << x << " for " << v); VN_CHECK(p.at == c + 2, "continues at " << p.at); }
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "every header is the fixed-width hexadecimal size and a line break; every prefix the key and the varint length; readers obtain the size");
  vn::Rng r(vn::seed);
  vn::begin("sizes");
  VN_CHECK(ChunkedHttpMaxHeaderSize == 10, "room " << ChunkedHttpMaxHeaderSize);
  VN_CHECK(ReportRequestSpansMaxHeaderSize == 6, "room " << ReportRequestSpansMaxHeaderSize);
  VN_CHECK(std::string(ChunkedHttpFooter) == "\r\n", "footer");
  std::vector<uint32_t> xs{0, 1, 9, 10, 15, 16};
  for (int k = 0; k < 32; ++k) for (int d = -1; d <= 1; ++d) xs.push_back((1u << k) + d);
  for (int k = 0; k < 5; ++k) for (int d = -1; d <= 1; ++d) xs.push_back((1u << (7 * k)) + d);
  for (uint32_t b = 0; b < 256; ++b) for (int k = 0; k < 4; ++k) xs.push_back(b << (8 * k));
  size_t i = 0;
  while (!vn::fails && vn::time_left()) {
    uint32_t x = i < xs.size() ? xs[i] : static_cast<uint32_t>(r.next() >> r.below(64));
    ++i;
    std::string h = chunk(x, 10 + (r.chance(50) ? 0 : r.below(20)));
    prefix(x, 6 + (r.chance(50) ? 0 : r.below(20)));
    std::string s = h + std::string(r.below(4), 'x');
    if (r.chance(33)) { s.clear(); const char* a = "0123456789abcdefABCDEF\r\nz"; for (int k = r.below(20); k-- > 0;) s += a[r.below(25)]; if (r.chance(50)) s += "\r\n"; }
    std::vector<size_t> cuts; for (size_t k = 0; k <= s.size(); ++k) for (int j = 0; j < 2; ++j) if (r.chance(25)) cuts.push_back(k);
    read(s, cuts);
  }
  return vn::done();
}
