#include "common/direct_coded_output_stream.h"
#include "vnative.h"
static std::string canon(uint64_t x) {
  std::string r;
  while (x >= 128) { r.push_back(static_cast<char>((x & 127) | 128)); x >>= 7; }
  r.push_back(static_cast<char>(x));
  return r;
}
static void one(uint64_t x) {
  std::ostringstream o; o << "WriteBigVarint64(" << x << ")";
  vn::begin(o.str());
  auto want = canon(x);
  uint8_t* b = new uint8_t[want.size()];  // exact size: ASAN sees a byte too many
  lightstep::DirectCodedOutputStream s{b};
  s.WriteBigVarint64(x);
  VN_CHECK(s.data() == b + want.size(), "advanced by " << (s.data() - b) << " instead of " << want.size());
  VN_CHECK(memcmp(b, want.data(), want.size()) == 0, "bytes differ from the canonical varint");
  uint8_t* c = new uint8_t[want.size()];
  lightstep::DirectCodedOutputStream t{c};
  lightstep::WriteBigVarint64(t, x);
  VN_CHECK(t.data() == c + want.size() && memcmp(c, want.data(), want.size()) == 0, "free function differs");
  delete[] b; delete[] c;
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "powers of two and of 128 plus/minus 3, bit patterns, random values of every bit length; distinct values");
  for (int k = 0; k < 64; ++k) for (int d = -3; d <= 3; ++d) { one((1ull << k) + d); one(~((1ull << k) + d)); }
  for (int k = 0; k < 64; ++k) for (int j = 0; j < 64; ++j) one((1ull << k) | (1ull << j));
  vn::Rng r(vn::seed);
  for (int i = 0; i < 200000 && vn::time_left(); ++i) one(r.next() >> r.below(64));
  return vn::done();
}
