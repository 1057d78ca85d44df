// C30: recorders with failing, throwing, immediate and delayed transporters: every finished span is delivered in one report or counted dropped once; every drop is announced by one delivered report
#include "recorder/auto_recorder.h"
#include "recorder/legacy_manual_recorder.h"
#include "recorder/manual_recorder.h"
#include "recorder/stream_recorder/stream_recorder.h"
#include "vnative.h"
#include <atomic>
#include <map>
#include <set>
#include <thread>
using namespace lightstep;
namespace {
struct Obs : MetricsObserver {
  std::atomic<long>& sent; std::atomic<long>& dropped;
  Obs(std::atomic<long>& s, std::atomic<long>& d) : sent(s), dropped(d) {}
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
};
struct Tally {
  std::atomic<long> sent{0}, dropped{0};          // what the observer was told
  std::map<uint64_t, int> delivered, failed; long announced = 0; long reports = 0;
  static long drops(const collector::ReportRequest& r) {
    long d = 0; for (auto& c : r.internal_metrics().counts()) if (c.name() == "spans.dropped") d += c.int_value(); return d;
  }
  void outcome(const collector::ReportRequest& r, bool ok) {
    ++reports;
    for (auto& s : r.spans()) {
      uint64_t id = s.span_context().span_id();
      VN_CHECK(!delivered.count(id) && !failed.count(id), "span " << id << " in two reports");
      (ok ? delivered : failed)[id]++;
    }
    if (ok) announced += drops(r);
  }
  void settle(long recorded, const char* who) {
    long lost = recorded - (long)delivered.size();
    VN_CHECK(lost == announced, who << ": " << recorded << " spans finished, " << delivered.size() << " delivered, " << announced << " drops announced");
    VN_CHECK(lost == dropped, who << ": " << recorded << " spans finished, " << delivered.size() << " delivered, observer told of " << dropped << " drops");
  }
};
collector::Span span(uint64_t id, size_t pad) { collector::Span s; s.mutable_span_context()->set_span_id(id); s.set_operation_name(std::string(pad, 'x')); return s; }
LightStepTracerOptions options(size_t cap, Tally& t) {
  LightStepTracerOptions o; o.access_token = "tok"; o.component_name = "c"; o.max_buffered_spans = cap;
  o.metrics_observer.reset(new Obs(t.sent, t.dropped)); return o;
}
enum Mode { Hold, Ok, Fail, Throw };
struct LegacyT : LegacyAsyncTransporter {
  Tally& t; Mode mode = Hold; Callback* cb = nullptr; collector::ReportRequest req;
  explicit LegacyT(Tally& t_) : t(t_) {}
  void Send(const google::protobuf::Message& r, google::protobuf::Message&, Callback& c) override {
    VN_CHECK(!cb, "a report while another is in flight");
    req = static_cast<const collector::ReportRequest&>(r);
    VN_CHECK(req.spans_size() > 0, "a report without spans");
    VN_CHECK(req.auth().access_token() == "tok" && req.has_reporter(), "a report without its preamble");
    if (mode == Throw) { t.outcome(req, false); throw std::runtime_error("no"); }
    cb = &c;
    if (mode == Ok) finish(true);
    else if (mode == Fail) finish(false);
  }
  void finish(bool ok) { auto c = cb; cb = nullptr; t.outcome(req, ok); if (ok) c->OnSuccess(); else c->OnFailure(std::make_error_code(std::errc::network_down)); }
};
void legacy(vn::Rng& r, Logger& log) {
  Tally t; size_t cap = r.range(1, 6);
  auto tp = new LegacyT(t);
  LegacyManualRecorder rec(log, options(cap, t), std::unique_ptr<LegacyAsyncTransporter>(tp));
  Recorder& R = rec; uint64_t id = 0; int n = r.range(1, 60); bool throws = r.chance(50);
  std::ostringstream say; say << "legacy cap=" << cap << ":";
  for (int i = 0; i < n; ++i) {
    tp->mode = (Mode)r.below(throws ? 4 : 3);
    switch (r.below(4)) {
      case 0: case 1: say << " record/" << tp->mode; vn::begin(say.str()); R.RecordSpan(span(++id, 0)); break;
      case 2: say << " flush/" << tp->mode; vn::begin(say.str()); R.FlushWithTimeout(std::chrono::seconds(0)); break;
      default: if (tp->cb) { bool ok = r.chance(50); say << (ok ? " ok" : " fail"); vn::begin(say.str()); tp->finish(ok); }
    }
    if (vn::fails) return;
  }
  say << " drain"; vn::begin(say.str());
  if (tp->cb) tp->finish(r.chance(50));
  tp->mode = Ok; R.FlushWithTimeout(std::chrono::seconds(0)); R.RecordSpan(span(++id, 0)); VN_CHECK(R.FlushWithTimeout(std::chrono::seconds(0)), "the flush of an idle recorder failed");
  t.settle((long)id, "legacy");
}
struct SyncT : SyncTransporter {
  Tally& t; std::atomic<int> ok{50}; vn::Rng r;
  SyncT(Tally& t_, uint64_t s) : t(t_), r(s) {}
  opentracing::expected<void> Send(const google::protobuf::Message& m, google::protobuf::Message&) override {
    auto& q = static_cast<const collector::ReportRequest&>(m); bool good = (int)r.below(100) < ok;
    VN_CHECK(q.spans_size() > 0, "a report without spans");
    VN_CHECK(q.auth().access_token() == "tok" && q.has_reporter(), "a report without its preamble");
    if (r.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
    t.outcome(q, good);
    if (good) return {};
    return opentracing::make_unexpected(std::make_error_code(std::errc::network_down));
  }
};
void automatic(vn::Rng& r, Logger& log) {
  Tally t; size_t cap = r.range(1, 30); auto o = options(cap, t);
  o.reporting_period = std::chrono::microseconds(r.range(50, 2000));
  auto tp = new SyncT(t, r.next()); std::atomic<uint64_t> id{0};
  vn::begin("auto cap=" + std::to_string(cap));
  AutoRecorder rec(log, std::move(o), std::unique_ptr<SyncTransporter>(tp));
  std::vector<std::thread> th; int threads = r.range(1, 4), per = r.range(1, 200);
  for (int k = 0; k < threads; ++k) th.emplace_back([&, per] { for (int i = 0; i < per; ++i) { rec.RecordSpan(span(++id, 0)); if (i % 16 == 5) std::this_thread::sleep_for(std::chrono::microseconds(60)); } });
  for (auto& x : th) x.join();
  VN_CHECK(rec.FlushWithTimeout(std::chrono::seconds(20)), "flush timed out");
  tp->ok = 100;
  // a first report may still fail having chosen before; the next delivers
  for (int i = 0; i < 2; ++i) { rec.RecordSpan(span(++id, 0)); VN_CHECK(rec.FlushWithTimeout(std::chrono::seconds(20)), "flush timed out"); }
  t.settle((long)id, "auto");
}
struct AsyncT : AsyncTransporter {
  Tally& t; Mode mode = Hold; bool early = false; ManualRecorder** rec; Callback* cb = nullptr; std::vector<std::unique_ptr<BufferChain>> held;
  AsyncT(Tally& t_, ManualRecorder** r) : t(t_), rec(r) {}
  void OnSpanBufferFull() noexcept override { if (early) (*rec)->FlushWithTimeout(std::chrono::seconds(0)); }
  void Send(std::unique_ptr<BufferChain>&& m, Callback& c) noexcept override {
    cb = &c; held.push_back(std::move(m));
    if (mode == Ok) finish(held.size() - 1, true);
    else if (mode == Fail) finish(held.size() - 1, false);
  }
  void finish(size_t i, bool ok) {
    auto m = std::move(held[i]); held.erase(held.begin() + i);
    std::string bytes; size_t frags = 0;
    auto add = [](void* ctx, const void* d, size_t n) { auto p = static_cast<std::pair<std::string*, size_t*>*>(ctx); p->first->append((const char*)d, n); ++*p->second; return true; };
    std::pair<std::string*, size_t*> p{&bytes, &frags};
    m->ForEachFragment(add, &p);
    VN_CHECK(bytes.size() == m->num_bytes() && frags == m->num_fragments(), "the report is not the size it says");
    collector::ReportRequest q;
    VN_CHECK(q.ParseFromString(bytes), "the report does not parse");
    VN_CHECK(q.auth().access_token() == "tok" && q.has_reporter(), "a report without its header");
    t.outcome(q, ok);
    if (ok) cb->OnSuccess(*m); else cb->OnFailure(*m);
  }
};
void finish_span(Recorder& R, uint64_t id, size_t pad) {
  std::unique_ptr<ChainedStream> s(new ChainedStream); Fragment h = R.ReserveHeaderSpace(*s);
  { google::protobuf::io::CodedOutputStream c(s.get()); span(id, pad).SerializeToCodedStream(&c); R.WriteFooter(c); }
  R.RecordSpan(h, std::move(s));
}
void manual(vn::Rng& r, Logger& log) {
  Tally t; size_t cap = r.range(1, 6); ManualRecorder* self = nullptr; auto tp = new AsyncT(t, &self);
  ManualRecorder rec(log, options(cap, t), std::unique_ptr<AsyncTransporter>(tp)); self = &rec;
  Recorder& R = rec; std::atomic<uint64_t> id{0}; tp->early = r.chance(50); int n = r.range(1, 60);
  std::ostringstream say; say << "manual cap=" << cap << (tp->early ? " flushes when full:" : ":");
  for (int i = 0; i < n; ++i) {
    tp->mode = (Mode)r.below(3); size_t pad = r.chance(10) ? r.below(3000) : r.below(300);
    switch (r.below(4)) {
      case 0: case 1: say << " record(" << pad << ")/" << tp->mode; vn::begin(say.str()); finish_span(R, ++id, pad); break;
      case 2: say << " flush/" << tp->mode; vn::begin(say.str()); VN_CHECK(R.FlushWithTimeout(std::chrono::seconds(0)), "flush failed"); break;
      default: if (!tp->held.empty()) { bool ok = r.chance(50); size_t k = r.below(tp->held.size()); say << (ok ? " ok" : " fail"); vn::begin(say.str()); tp->finish(k, ok); }
    }
    if (vn::fails) return;
  }
  if (r.chance(20)) {   // producers against a flusher
    say << " threads"; vn::begin(say.str()); tp->early = false;
    std::vector<std::thread> th; std::atomic<int> live{3};
    for (int k = 0; k < 3; ++k) th.emplace_back([&] { for (int i = 0; i < 40; ++i) finish_span(R, ++id, i); --live; });
    while (live) { tp->mode = (Mode)r.below(3); R.FlushWithTimeout(std::chrono::seconds(0)); }
    for (auto& x : th) x.join();
  }
  say << " drain"; vn::begin(say.str());
  while (!tp->held.empty()) tp->finish(0, r.chance(50));
  tp->mode = Ok; R.FlushWithTimeout(std::chrono::seconds(0)); finish_span(R, ++id, 1); R.FlushWithTimeout(std::chrono::seconds(0));
  t.settle((long)id, "manual");
}
}  // namespace
int main(int argc, char** argv) {
  vn::init(argc, argv, "every finished span is delivered once or counted dropped once, every drop announced once");
  vn::Rng r(vn::seed);
  Logger log{[](LogLevel, opentracing::string_view) {}};
  log.set_level(LogLevel::off);
  for (int k = 0; vn::time_left() && !vn::fails; ++k) { legacy(r, log); if (vn::fails) break; manual(r, log); if (vn::fails) break; if (k % 8 == 0) automatic(r, log); }
  return vn::done();
}
