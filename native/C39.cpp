// C39: the real automatic recorder and its thread; recorders, flushers and an end that may come at any time.
#include "recorder/auto_recorder.h"
#include "vnative.h"
#include <atomic>
#include <functional>
#include <mutex>
#include <set>
#include <thread>
using namespace lightstep;
namespace {
using ms = std::chrono::milliseconds; using clk = std::chrono::steady_clock;
thread_local int dropped_here = 0;
struct Obs : MetricsObserver { std::atomic<long> flushes{0}; void OnFlush() noexcept override { ++flushes; } void OnSpansDropped(int n) noexcept override { dropped_here += n; } };
struct Sync : SyncTransporter {
  std::mutex m; std::set<uint64_t> done; std::atomic<int> ok{100}, disable{0}, slow{0}; std::atomic<long> sends{0}; vn::Rng r; explicit Sync(uint64_t s) : r(s) {}
  opentracing::expected<void> Send(const google::protobuf::Message& q, google::protobuf::Message& a) override {
    ++sends; if (slow) std::this_thread::sleep_for(std::chrono::microseconds(r.below(slow)));
    { std::lock_guard<std::mutex> l{m}; for (auto& s : static_cast<const collector::ReportRequest&>(q).spans()) done.insert(s.span_context().span_id()); }
    if ((int)r.below(100) >= ok) return opentracing::make_unexpected(std::make_error_code(std::errc::network_down));
    if (disable) static_cast<collector::ReportResponse&>(a).add_commands()->set_disable(true);
    return {};
  }
  bool has(uint64_t id) { std::lock_guard<std::mutex> l{m}; return done.count(id) != 0; }
};
void begin(const std::string& s) { vn::begin(s); alarm(150); }
bool eventually(const std::function<bool()>& f) { auto t = clk::now() + std::chrono::seconds(25); while (clk::now() < t) { if (f()) return true; std::this_thread::sleep_for(std::chrono::microseconds(200)); } return f(); }
collector::Span span(uint64_t id) { collector::Span s; s.mutable_span_context()->set_span_id(id); return s; }
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random automatic recorder with threads that record, flush and end it"); vn::Rng r(vn::seed); Logger logger{[](LogLevel, opentracing::string_view) {}};
  while (vn::time_left() && !vn::fails) {
    LightStepTracerOptions o; o.access_token = "tok"; size_t cap = r.range(1, 40); o.max_buffered_spans = cap; bool seldom = r.chance(30); int period = seldom ? 3600 * 1000 : r.range(1, 25); o.reporting_period = ms(period); Obs* obs = nullptr; if (!r.chance(20)) { obs = new Obs; o.metrics_observer.reset(obs); }
    auto tp = new Sync(r.next()); tp->ok = r.chance(50) ? 100 : r.range(0, 100); tp->slow = r.chance(50) ? 0 : r.range(1, 3000); std::atomic<uint64_t> id{0}; std::ostringstream d; d << "auto, " << cap << " spans, " << (seldom ? "hourly" : "every " + std::to_string(period) + " ms"); begin(d.str()); auto made = clk::now();
    { AutoRecorder rec(logger, std::move(o), std::unique_ptr<SyncTransporter>(tp)); Recorder& R = rec; VN_CHECK(R.FlushWithTimeout(ms(0)), "a flush of nothing fails"); bool ended = false;
      for (int step = 0; step < 5 && !vn::fails; ++step) {
        int what = r.below(6);
        if (what <= 2) {              // record and flush, from several threads
          int threads = r.range(1, 4), per = r.below(6); bool now = seldom || ended; int timeout = now ? r.range(0, 15) : 30000; d << "; " << threads << " threads record " << per << " and flush for " << timeout << " ms"; begin(d.str()); std::vector<std::thread> th;
          for (int k = 0; k < threads; ++k) th.emplace_back([&, per, timeout] {
            std::set<uint64_t> mine; for (int i = 0; i < per; ++i) { uint64_t x = ++id; dropped_here = 0; R.RecordSpan(span(x)); if (!dropped_here && obs) mine.insert(x); }
            auto t = clk::now(); bool ok = R.FlushWithTimeout(ms(timeout)); auto took = clk::now() - t;
            if (ok) for (auto x : mine) VN_CHECK(tp->has(x), "a flush is reported complete before span " << x << " was reported");
            if (!ok) VN_CHECK(took >= ms(timeout) || !rec.is_writer_running(), "a flush gives up after " << took.count() / 1000 << " us instead of " << timeout << " ms");
            if (!ok && timeout == 30000) VN_CHECK(!rec.is_writer_running(), "a flush does not complete");
            if (ended) VN_CHECK(took < ms(20000), "a recorder that ended keeps its callers waiting"); });
          for (auto& x : th) x.join();
        } else if (what == 3 && rec.is_writer_running()) {       // fill it
          d << "; fill"; begin(d.str()); long n = tp->sends; for (size_t i = 0; i < cap + 2; ++i) R.RecordSpan(span(++id)); VN_CHECK(eventually([&] { return tp->sends > n || !rec.is_writer_running(); }), "a recorder that is full does not report");
        } else if (what == 4 && rec.is_writer_running() && r.chance(30)) {   // told to stop, while someone flushes
          d << "; stopped"; begin(d.str()); ended = true; std::thread t([&] { R.RecordSpan(span(++id)); auto t = clk::now(); R.FlushWithTimeout(std::chrono::seconds(60)); VN_CHECK(clk::now() - t < std::chrono::seconds(50), "the end of the recorder does not wake its callers"); }); std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500))); tp->ok = 100; tp->disable = 1;
          for (size_t i = 0; i < cap + 1; ++i) R.RecordSpan(span(++id)); bool e = eventually([&] { for (size_t i = 0; i < cap + 1 && rec.is_writer_running(); ++i) R.RecordSpan(span(++id)); return !rec.is_writer_running(); }); VN_CHECK(e, "a recorder told to stop goes on"); t.join();
        } else if (obs && !ended) {   // in time, and not before
          d << "; wait"; begin(d.str()); long n = obs->flushes; if (seldom) { R.FlushWithTimeout(ms(5)); n = obs->flushes; std::this_thread::sleep_for(ms(3)); VN_CHECK(obs->flushes <= n + 1, "a recorder reports all the time"); } else if (rec.is_writer_running()) VN_CHECK(eventually([&] { return obs->flushes >= n + 2; }), "a recorder does not report every period");
        }
      }
      if (obs && !seldom && rec.is_writer_running() && !vn::fails) { long n = obs->flushes; auto t = std::chrono::duration_cast<ms>(clk::now() - made).count(); VN_CHECK(n <= t / period + (long)(uint64_t)id + 2, n << " reports within " << t << " ms, every " << period << " ms"); }
    }
  }
  return vn::done();
}
