#include "vsched.h"
#include <lightstep/metrics_observer.h>
#include "recorder/metrics_tracker.cpp"
using namespace lightstep;
struct Obs : MetricsObserver { long sent = 0, dropped = 0, nd = 0; void OnSpansSent(int n) noexcept override { sent += n; } void OnSpansDropped(int n) noexcept override { dropped += n; ++nd; } void OnFlush() noexcept override {} };
int main(int argc, char** argv) {
  vn::init(argc, argv, "random schedules of 2-4 threads recording, taking and giving back over the real tracker with simulated atomics: conservation of drops");
  vn::Rng r(vn::seed);
  for (uint64_t c = 0; c < 3000000 && vn::time_left(); ++c) {
    int n = r.range(2, 4), each = r.range(1, 6); vs::p_switch = r.range(10, 80); vs::p_stale = r.range(0, 60); vs::p_spurious = r.range(0, 30);
    std::ostringstream o; o << n << " threads, " << each << " operations, schedule " << c; vn::begin(o.str());
    Obs ob; MetricsTracker t{ob}; long rec = 0, took = 0, gave = 0, calls = 0;
    std::vector<std::function<void()>> f; uint64_t s = r.next();
    for (int k = 0; k < n; ++k) f.push_back([&, k] { vn::Rng q(s + k); for (int i = 0; i < each; ++i) { int a = q.range(0, 3), x = q.range(1, 9);
      if (a <= 1) { t.OnSpansDropped(x); rec += x; ++calls; }
      else { int y = t.ConsumeDroppedSpans(); took += y; if (y < 0) vn::fail("took a negative count"); vs::point(); if (a == 3 && y) { t.UnconsumeDroppedSpans(y); gave += y; } } vs::point(); } });
    vs::run(r, f);
    int rest = t.num_dropped_spans();
    VN_CHECK(rest == rec + gave - took, "counter " << rest << ", but recorded " << rec << ", given back " << gave << ", taken " << took);
    VN_CHECK(ob.dropped == rec && ob.nd == calls, "observer saw " << ob.dropped << " dropped in " << ob.nd << " calls, recorded " << rec << " in " << calls);
  }
  return vn::done();
}
