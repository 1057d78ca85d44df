#include <atomic>
#include <thread>
#include "recorder/metrics_tracker.h"
#include "vnative.h"
using namespace lightstep;
struct Obs : MetricsObserver {
  std::atomic<long> sent{0}, dropped{0}, flush{0}, nsent{0}, ndropped{0};
  void OnSpansSent(int n) noexcept override { sent += n; ++nsent; }
  void OnSpansDropped(int n) noexcept override { dropped += n; ++ndropped; }
  void OnFlush() noexcept override { ++flush; }
};
int main(int argc, char** argv) {
  vn::init(argc, argv, "random operation sequences against a counter model; concurrent drops, takes and give-backs with conservation check");
  vn::Rng r(vn::seed);
  for (int c = 0; c < 3000; ++c) {
    std::ostringstream o;
    Obs ob; MetricsTracker t{ob};
    long cnt = 0, sent = 0, drop = 0, fl = 0, ns = 0, nd = 0, taken = 0; std::vector<std::string> bad;
    int len = r.range(1, 25); vn::Rng q(r.next());
    std::vector<std::pair<int, int>> ops;
    for (int i = 0; i < len; ++i) { int k = q.range(0, 5), n = q.chance(20) ? 0 : q.chance(20) ? q.range(1, 1000000) : q.range(1, 5); ops.emplace_back(k, n); o << "DSFCUN"[k] << n << " "; }
    vn::begin(o.str());
    for (auto& p : ops) {
      int n = p.second;
      switch (p.first) {
        case 0: t.OnSpansDropped(n); cnt += n; drop += n; ++nd; break;
        case 1: t.OnSpansSent(n); sent += n; ++ns; break;
        case 2: t.OnFlush(); ++fl; break;
        case 3: { int x = t.ConsumeDroppedSpans(); VN_CHECK(x == cnt, "took " << x << " of " << cnt); taken = cnt; cnt = 0; break; }
        case 4: t.UnconsumeDroppedSpans(n); cnt += n; break;
        case 5: break;
      }
      VN_CHECK(t.num_dropped_spans() == cnt, "counter " << t.num_dropped_spans() << " should be " << cnt);
      VN_CHECK(ob.dropped == drop && ob.sent == sent && ob.flush == fl && ob.ndropped == nd && ob.nsent == ns, "observer totals differ");
    }
  }
  for (int round = 0; round < 40 && vn::time_left(); ++round) {
    std::ostringstream o; o << "concurrent round " << round; vn::begin(o.str());
    Obs ob; MetricsTracker t{ob}; std::atomic<long> taken{0}, given{0}; std::atomic<bool> stop{false};
    std::vector<std::thread> ts; const int N = 4000;
    for (int i = 0; i < 3; ++i) ts.emplace_back([&] { for (int k = 0; k < N; ++k) t.OnSpansDropped(1 + (k & 3)); });
    for (int i = 0; i < 2; ++i) ts.emplace_back([&] { for (int k = 0; k < N; ++k) { int x = t.ConsumeDroppedSpans(); taken += x; if ((k & 3) == 0) { t.UnconsumeDroppedSpans(x); given += x; } } });
    for (auto& x : ts) x.join();
    long total = 3l * N / 4 * (1 + 2 + 3 + 4);
    VN_CHECK(t.num_dropped_spans() == total + given - taken, "drops lost or duplicated: counter " << t.num_dropped_spans() << ", recorded " << total << ", given back " << given << ", taken " << taken);
    VN_CHECK(ob.dropped == total && ob.ndropped == 3l * N, "observer saw " << ob.dropped);
  }
  return vn::done();
}
