// C38: the real stream recorder, its thread and event loop, with producers, flushers and shutdowns on threads of their
// own; the streamer is a stand-in that takes spans, or does not, and becomes inactive, or does not, as the test says.
#include <atomic>
#include <functional>
#include <memory>
#include <thread>
#include "recorder/stream_recorder/stream_recorder.h"
#include "vnative.h"
using namespace lightstep;
using ms = std::chrono::milliseconds; using clk = std::chrono::steady_clock;
static std::atomic<bool> takes{true}, active_always{false}; static std::atomic<int> alive{0}, flushes{0}, shutdowns{0}, linger{0}; static std::atomic<long> taken{0};
static std::atomic<bool> stopping{false}; static std::atomic<int> ticks{0};
namespace lightstep {
SatelliteStreamer::SatelliteStreamer(Logger& l, EventBase& e, const LightStepTracerOptions& t, const StreamRecorderOptions& r, MetricsTracker& m, CircularBuffer<ChainedStream>& b)
    : logger_{l}, event_base_{e}, tracer_options_{t}, recorder_options_{r}, endpoint_manager_{l, e, t, r, [] {}}, span_buffer_{b}, span_stream_{b, m}, connection_traverser_{1} { ++alive; stopping = false; ticks = 0; }
bool SatelliteStreamer::is_active() const noexcept { if (!stopping || active_always) return true; return ticks++ < linger; }
void SatelliteStreamer::Flush() noexcept { ++flushes; if (takes) { taken += span_buffer_.size(); span_buffer_.Clear(); } }
void SatelliteStreamer::InitiateShutdown() noexcept { ++shutdowns; stopping = true; }
void SatelliteStreamer::OnEndpointManagerReady() noexcept {}
struct NoResolver : DnsResolver { void Resolve(const char*, int, DnsResolutionCallback&) noexcept override {} };
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new NoResolver}; }
}
struct Obs : MetricsObserver { std::atomic<int> n{0}; void OnFlush() noexcept override { ++n; } };
static void begin(const std::string& s) { vn::begin(s); alarm(150); }
static bool eventually(const std::function<bool()>& f, int s = 25) { auto t = clk::now() + std::chrono::seconds(s); while (clk::now() < t) { if (f()) return true; std::this_thread::sleep_for(ms(1)); } return f(); }
static std::unique_ptr<ChainedStream> span() { std::unique_ptr<ChainedStream> s(new ChainedStream); void* d; int k; s->Next(&d, &k); s->BackUp(k - 1); *static_cast<char*>(d) = 'x'; s->CloseOutput(); return s; }
int main(int argc, char** argv) {
  vn::init(argc, argv, "random recorder, producers, flushes, shutdowns and forks");
  vn::Rng r(vn::seed); Logger logger{[](LogLevel, opentracing::string_view) {}};
  while (vn::time_left()) {
    LightStepTracerOptions to; size_t cap = 10 + r.below(60); to.max_buffered_spans = std::function<size_t()>{[cap] { return cap; }}; bool often = r.chance(25); to.reporting_period = often ? ms(20) : ms(3600 * 1000); auto* obs = new Obs; to.metrics_observer.reset(obs);
    StreamRecorderOptions ro; ro.polling_period = std::chrono::microseconds(200 + r.below(1500)); ro.timestamp_delta_period = ms(5); ro.early_flush_threshold = r.chance(50) ? 0.5 : 0.9; ro.throw_away_spans = r.chance(30); size_t marker = size_t(cap * ro.early_flush_threshold);
    takes = r.chance(70); active_always = r.chance(40); linger = r.below(4); flushes = shutdowns = 0; taken = 0; bool works = takes || ro.throw_away_spans;
    std::ostringstream d; d << "buffer of " << cap << ", polled every " << ro.polling_period.count() << " us, " << (ro.throw_away_spans ? "spans thrown away" : takes ? "spans taken" : "spans not taken") << (often ? ", reporting often" : "");
    { StreamRecorder rec{logger, std::move(to), std::move(ro)}; VN_CHECK(alive > 0, "no streamer");
      if (!often) VN_CHECK(rec.FlushWithTimeout(ms(0)), "a flush of nothing fails");
      bool down = false;
      for (int step = 0; step < 6 && vn::fails == 0; ++step) {
        int what = r.below(7); d << "; "; 
        if (what <= 2) {         // flush, from several threads
          int threads = 1 + r.below(4), produce = r.below(3); int timeout = works ? 30000 : 5 + r.below(20); d << threads << " threads flush for " << timeout << " ms"; begin(d.str()); std::vector<std::thread> ts;
          for (int i = 0; i < threads; ++i) ts.emplace_back([&, i] {
            for (int k = 0; k < produce; ++k) { auto s = span(); rec.span_buffer().Add(s); }
            int64_t before = rec.span_buffer().production_count(), had = rec.span_buffer().consumption_count(); auto t = clk::now(); bool ok = rec.FlushWithTimeout(ms(timeout)); auto took = clk::now() - t; int64_t after = rec.span_buffer().consumption_count(); (void)had;
            if (ok) VN_CHECK(after >= before, "a flush is reported complete with " << before - after << " spans not consumed"); else VN_CHECK(took >= ms(timeout), "a flush gives up after " << took.count() / 1000000 << " ms instead of " << timeout);
            if (works) VN_CHECK(ok, "a flush does not complete"); });
          for (auto& t : ts) t.join();
        } else if (what == 3) {   // shut down
          int threads = 1 + r.below(3); int timeout = active_always ? 5 + r.below(20) : 30000; d << threads << " threads shut down for " << timeout << " ms"; begin(d.str()); std::vector<std::thread> ts; down = true;
          for (int i = 0; i < threads; ++i) ts.emplace_back([&] { auto t = clk::now(); bool ok = rec.ShutdownWithTimeout(ms(timeout)); auto took = clk::now() - t;
            if (ok) VN_CHECK(stopping && !active_always, "a shutdown is reported complete while connections are active"); else VN_CHECK(took >= ms(timeout), "a shutdown gives up after " << took.count() / 1000000 << " ms instead of " << timeout);
            if (!active_always) VN_CHECK(ok, "a shutdown does not complete"); });
          for (auto& t : ts) t.join();
          VN_CHECK(eventually([] { return stopping.load(); }), "connections are not told to shut down");
        } else if (what == 4) {   // fork
          bool child = r.chance(50); d << (child ? "fork, child" : "fork, parent"); begin(d.str()); size_t left = rec.span_buffer().size(); (void)left; rec.PrepareForFork(); int s0 = shutdowns; size_t held = rec.span_buffer().size();
          if (child) rec.OnForkedChild(); else rec.OnForkedParent();
          if (child) { VN_CHECK(rec.FlushWithTimeout(ms(0)), "the child has to flush what its parent has"); VN_CHECK(rec.empty(), "the child keeps what its parent has"); } else VN_CHECK(held <= cap, "?");
          if (down) VN_CHECK(eventually([&] { return shutdowns > s0; }), "connections made after a fork are not told to shut down"); else { std::this_thread::sleep_for(ms(5)); VN_CHECK(shutdowns == s0, "connections are told to shut down unasked"); }
        } else if (what == 5) {   // fill the buffer
          d << "fill"; begin(d.str()); int f0 = flushes, n0 = obs->n; for (size_t i = 0; i <= marker + 1; ++i) { auto s = span(); rec.span_buffer().Add(s); }
          VN_CHECK(eventually([&] { return obs->n > n0 || (!works && flushes > f0); }), "a buffer that fills is not flushed");
        } else {                  // nothing is flushed before its time; or is, often
          d << "wait"; begin(d.str()); if (often) { int n0 = obs->n; VN_CHECK(eventually([&] { return obs->n >= n0 + 2; }), "spans are not reported every period"); } else if (rec.span_buffer().size() <= marker && rec.FlushWithTimeout(ms(works ? 30000 : 1))) { std::this_thread::sleep_for(ms(2)); eventually([&] { int n = obs->n; std::this_thread::sleep_for(ms(4)); return n == obs->n; }); int n0 = obs->n; std::this_thread::sleep_for(ms(8)); VN_CHECK(obs->n == n0, "spans are flushed all the time"); }
        }
      }
      if (!rec.empty() && works && r.chance(50)) { }
    }
    alive = 0;
  }
  return vn::done();
}
