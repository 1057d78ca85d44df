#include "common/timestamp.h"
#include "vnative.h"
using namespace lightstep;
using namespace std::chrono;
static int64_t ns(steady_clock::time_point t) { return duration_cast<nanoseconds>(t.time_since_epoch()).count(); }
static int64_t ns(system_clock::time_point t) { return duration_cast<nanoseconds>(t.time_since_epoch()).count(); }
static void one(int64_t d, int64_t t) {
  std::ostringstream o; o << "delta " << d << " timestamp " << t; vn::begin(o.str());
  steady_clock::time_point st{nanoseconds{t}}; system_clock::time_point sy{nanoseconds{t}};
  auto a = ToSystemTimestamp(d, st); VN_CHECK(ns(a) == t + d, "ToSystemTimestamp gave " << ns(a));
  auto b = ToSteadyTimestamp(d, sy); VN_CHECK(ns(b) == t - d, "ToSteadyTimestamp gave " << ns(b));
  VN_CHECK(ToSteadyTimestamp(d, a) == st, "steady round trip"); VN_CHECK(ToSystemTimestamp(d, b) == sy, "system round trip");
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "timestamps and deltas of every magnitude and sign; the computed delta bracketed by clock readings");
  vn::Rng r(vn::seed);
  int64_t sp[] = {0, 1, -1, 999, 1000, 1001, -999, -1000, -1001, 999999, 1000000, 1000001, 999999999, 1000000000, 1000000001, 1ll << 31, 1ll << 32, (1ll << 53) + 1, (1ll << 61) + 7, -(1ll << 61) - 3};
  for (auto d : sp) for (auto t : sp) one(d, t);
  for (int i = 0; i < 100000 && vn::time_left(); ++i) one((int64_t)(r.next() >> (2 + r.below(60))) * (r.chance(50) ? 1 : -1), (int64_t)(r.next() >> (2 + r.below(60))) * (r.chance(50) ? 1 : -1));
  for (int i = 0; i < 2000; ++i) {
    vn::begin("ComputeSystemSteadyTimestampDelta");
    auto s0 = ns(steady_clock::now()), y0 = ns(system_clock::now());
    auto d = ComputeSystemSteadyTimestampDelta();
    auto y1 = ns(system_clock::now()), s1 = ns(steady_clock::now());
    VN_CHECK(d >= y0 - s1 - 1000 && d <= y1 - s0 + 1000, "delta " << d << " outside [" << y0 - s1 << "," << y1 - s0 << "]");
  }
  return vn::done();
}
