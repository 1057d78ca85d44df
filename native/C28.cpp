// C28: status lines in pieces of all sizes against a plain reading of the whole text
#include "vnative.h"
#include "recorder/stream_recorder/status_line_parser.h"
#include <memory>
using namespace lightstep;
static std::string show(const std::string& s) { std::string r; char b[6]; for (unsigned char c : s) { snprintf(b, 6, c >= 32 && c < 127 ? "%c" : "\\x%02x", c); r += b; } return "'" + r + "'"; }
static void feed(StatusLineParser& p, const std::string& s, const std::vector<size_t>& cuts) {
  size_t at = 0; std::string sofar; bool failed = false;
  for (size_t k = 0; k <= cuts.size() && !failed; ++k) {
    size_t e = k < cuts.size() ? cuts[k] : s.size();
    std::unique_ptr<char[]> piece(new char[e - at]); memcpy(piece.get(), s.data() + at, e - at);
    bool threw = false;
    try { p.Parse({piece.get(), e - at}); } catch (const std::exception&) { threw = true; }
    piece.reset();
    sofar += s.substr(at, e - at); at = e;
    size_t c = sofar.find('\r'), a = std::string::npos, b = a;
    std::string line = sofar.substr(0, c);
    a = line.find(' '); if (a != std::string::npos) b = line.find(' ', a + 1);
    bool full = c != std::string::npos, good = full && b != std::string::npos;
    VN_CHECK(threw == (full && !good), (threw ? "fails after " : "does not fail after ") << show(sofar));
    VN_CHECK(p.completed() == good, (p.completed() ? "complete after " : "not complete after ") << show(sofar));
    if (good && p.completed()) {
      long want = strtol(line.c_str() + a, nullptr, 10);
      if (want >= -2147483647 && want <= 2147483647) VN_CHECK(p.status_code() == want, "code " << p.status_code() << " for " << show(line));
      VN_CHECK(std::string(p.reason()) == line.substr(b + 1), "reason " << show(std::string(p.reason())) << " for " << show(line));
    }
    if (threw) failed = true;
  }
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "the parser completes exactly when the first line is complete and yields its code and reason, however the bytes arrive");
  vn::Rng r(vn::seed);
  const char* fixed[] = {"HTTP/1.1 200 OK\r\n", "HTTP/1.1 404 Not Found\r\nServer: x\r\n\r\n", "HTTP/1.1 500 \r\n", "HTTP/1.1 200\r\n", "\r\n", "HTTP/1.1\r\n", " \r\n", "  \r\n", "HTTP/1.0 503 A\xff b\r\nHTTP/1.1 200 OK\r\n", "a 12345678901234567890123456789012345 b\r\n"};
  while (!vn::fails && vn::time_left()) {
    StatusLineParser p;
    for (int round = 0; round < 3; ++round) {
      std::string s;
      if (r.chance(60)) s = fixed[r.below(10)]; else { const char* al = "HTP/.1 2034  \r\r\n\t-+"; for (int k = r.below(40); k-- > 0;) s += al[r.below(19)]; }
      if (r.chance(20)) s += std::string(r.below(300), 'x');
      std::vector<size_t> cuts; int pct = static_cast<int>(r.below(101)); for (size_t k = 0; k <= s.size(); ++k) if (r.chance(pct)) { cuts.push_back(k); if (r.chance(20)) cuts.push_back(k); }
      std::string t = "round " + std::to_string(round) + " " + show(s) + " cut at"; for (auto c : cuts) t += " " + std::to_string(c);
      vn::begin(t);
      feed(p, s, cuts);
      size_t c = s.find('\r'); bool bad = c != std::string::npos && std::count(s.begin(), s.begin() + c, ' ') < 2;
      if (bad && r.chance(50)) continue;       // as new without a reset
      p.Reset();
      VN_CHECK(!p.completed(), "complete after a reset");
    }
  }
  return vn::done();
}
