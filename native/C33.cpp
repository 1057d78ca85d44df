// C33/C34: whole lives of real spans of both kinds (start with references and tags, setters, logs, finish by several
// calls and the destructor) against a small model; with VN_THREADS, lives shared by several threads.
#include <cstring>
#include <map>
#include <mutex>
#include <thread>
#include "common/utility.h"
#include "tracer/immutable_span_context.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/span.h"
#include "tracer/tracer_impl.h"
#include "vnative.h"
namespace c = lightstep::collector; namespace ot = opentracing;
using namespace lightstep;
using ns = std::chrono::nanoseconds;
static std::mutex lock_; static std::vector<c::Span> got; static bool bad_order; static std::vector<std::string> errors;
struct Rec : Recorder {      // records what it is handed, framed by a header and a footer field of its own
  Fragment ReserveHeaderSpace(ChainedStream& s) override { void* p; int n; if (!s.Next(&p, &n)) return {}; s.BackUp(n - 3); return {p, 3}; }
  void WriteFooter(google::protobuf::io::CodedOutputStream& cs) override { cs.WriteRaw("\xba\x3e\x01Z", 4); }  // field 999, 1 byte
  void RecordSpan(Fragment h, std::unique_ptr<ChainedStream>&& s) noexcept override {
    std::memcpy(h.first, "\xb8\x3e\x01", 3);  // field 999 varint 1
    s->CloseOutput(); std::string t;
    s->ForEachFragment([&](void* p, int n) { t.append(static_cast<char*>(p), n); return true; });
    c::Span span; bool ok = span.ParseFromString(t);
    std::lock_guard<std::mutex> g(lock_);
    if (!ok) errors.push_back("a recorded span does not parse");
    else if (h.second != 3 || t.size() < 7 || t.compare(0, 3, "\xb8\x3e\x01", 3) || t.compare(t.size() - 4, 4, "\xba\x3e\x01Z", 4)) errors.push_back("the header is not first or the footer not last");
    got.push_back(span);
  }
  void RecordSpan(const c::Span& s) noexcept override { std::lock_guard<std::mutex> g(lock_); got.push_back(s); }
  int64_t ComputeSystemSteadyTimestampDelta() const noexcept override { return 1000000000ll * 77777; }
  ot::SystemTime ComputeCurrentSystemTimestamp(ot::SteadyTime t) const noexcept override { return ToSystemTimestamp(1000000000ll * 88888, t); }
};
struct Foreign : ot::SpanContext { void ForeachBaggageItem(std::function<bool(const std::string&, const std::string&)>) const override {} };
static std::string text(vn::Rng& r, size_t top) { std::string s; for (size_t n = r.below(top); n > 0; --n) { if (r.chance(4)) s += "\xc3\xa9"; else s.push_back(char(32 + r.below(95))); } return s; }
static std::string key(vn::Rng& r) { std::string s; do s.push_back(char((r.chance(40) ? 'A' : 'a') + r.below(4))); while (r.chance(40)); return s; }
static std::string low(std::string s) { for (auto& x : s) if (x >= 'A' && x <= 'Z') x = char(x + 32); return s; }
struct V { ot::Value v; std::string want; int sampled; };
static std::vector<std::string> keep;
static V value(vn::Rng& r) {
  switch (r.below(8)) {
    case 0: { bool b = r.chance(50); return {ot::Value(b), b ? "b1" : "b0", -1}; }
    case 1: { double d = double(int(r.below(2000)) - 1000) / 8; return {ot::Value(d), "d" + std::to_string(d), -1}; }
    case 2: { int64_t n = r.chance(30) ? int64_t(r.below(3)) : int64_t(r.next()); return {ot::Value(n), "i" + std::to_string(n), n != 0}; }
    case 3: { uint64_t n = r.chance(30) ? r.below(3) : r.next(); return {ot::Value(n), "i" + std::to_string(int64_t(n)), n != 0}; }
    case 4: { std::string s = text(r, 30); return {ot::Value(s), "s" + s, -1}; }
    case 5: return {ot::Value(nullptr), "b0", -1};
    case 6: { ot::Values x; x.emplace_back(int(r.below(9))); x.emplace_back(true); std::string w = ToJson(x); return {ot::Value(x), "j" + w, -1}; }
    default: { keep.push_back(text(r, 300)); return {ot::Value(keep.back().c_str()), "s" + keep.back(), -1}; }
  }
}
static std::string show(const c::KeyValue& k) {
  switch (k.value_case()) {
    case c::KeyValue::kBoolValue: return k.bool_value() ? "b1" : "b0";
    case c::KeyValue::kDoubleValue: return "d" + std::to_string(k.double_value());
    case c::KeyValue::kIntValue: return "i" + std::to_string(k.int_value());
    case c::KeyValue::kStringValue: return "s" + k.string_value();
    case c::KeyValue::kJsonValue: return "j" + k.json_value();
    default: return "nothing";
  }
}
static int64_t nanos(const google::protobuf::Timestamp& t) { return t.seconds() * 1000000000 + t.nanos(); }
static int64_t sysnow() { return std::chrono::duration_cast<ns>(ot::SystemClock::now().time_since_epoch()).count(); }
static int64_t stdnow() { return std::chrono::duration_cast<ns>(ot::SteadyClock::now().time_since_epoch()).count(); }
static ot::SystemTime sys(int64_t n) { return ot::SystemTime{std::chrono::duration_cast<ot::SystemClock::duration>(ns{n})}; }
static ot::SteadyTime stdy(int64_t n) { return ot::SteadyTime{std::chrono::duration_cast<ot::SteadyClock::duration>(ns{n})}; }
using Fields = std::vector<std::pair<std::string, std::string>>;
struct LogM { int64_t lo, hi; Fields f; };
struct Model {
  std::string name; Fields tags; std::vector<LogM> logs; std::map<std::string, std::string> bag; std::map<std::string, std::vector<std::string>> opts;
  int sampled = 1; bool finished = false; int64_t start_lo = 0, start_hi = 0, steady_lo = 0, steady_hi = 0, dur_lo = 0, dur_hi = 0;
  std::vector<std::array<uint64_t, 3>> refs; uint64_t high = 0, low = 0, span = 0; unsigned flags = 0; std::string state;
};
static const LightStepSpanContext& ctx(const ot::Span& s) { return dynamic_cast<const LightStepSpanContext&>(s.context()); }
static std::map<std::string, std::string> items(const ot::SpanContext& s) { std::map<std::string, std::string> m; s.ForeachBaggageItem([&](const std::string& k, const std::string& v) { if (!m.emplace(k, v).second) errors.push_back("baggage item " + k + " is visited twice"); return true; }); return m; }
static void checkbag(const std::map<std::string, std::string>& b, const Model& m, const char* who) {
  VN_CHECK(b.size() == m.opts.size(), who << " has " << b.size() << " baggage items instead of " << m.opts.size());
  for (auto& x : m.opts) { auto i = b.find(x.first); bool ok = false; if (i != b.end()) for (auto& v : x.second) ok = ok || v == i->second; VN_CHECK(ok, who << ": baggage item " << x.first << (i == b.end() ? " is missing" : " has value " + i->second)); }
}
static void checkrec(const c::Span& s, const Model& m) {
  VN_CHECK(s.operation_name() == m.name, "operation name " << s.operation_name() << " instead of " << m.name);
  VN_CHECK(s.span_context().trace_id() == m.low && s.span_context().span_id() == m.span, "recorded ids differ from the context's");
  VN_CHECK(s.references_size() == (int)m.refs.size(), "references " << s.references_size() << " instead of " << m.refs.size());
  for (size_t j = 0; j < m.refs.size() && (int)j < s.references_size(); ++j) { auto& q = s.references(j); VN_CHECK((q.relationship() == c::Reference::CHILD_OF ? 1u : 2u) == m.refs[j][0] && q.span_context().trace_id() == m.refs[j][1] && q.span_context().span_id() == m.refs[j][2], "reference " << j << " is " << q.ShortDebugString()); }
  VN_CHECK(s.tags_size() == (int)m.tags.size(), "tags " << s.tags_size() << " instead of " << m.tags.size());
  for (size_t j = 0; j < m.tags.size() && (int)j < s.tags_size(); ++j) VN_CHECK(s.tags(j).key() == m.tags[j].first && show(s.tags(j)) == m.tags[j].second, "tag " << j << " is " << s.tags(j).ShortDebugString() << " instead of " << m.tags[j].first << " " << m.tags[j].second);
  VN_CHECK(s.logs_size() == (int)m.logs.size(), "logs " << s.logs_size() << " instead of " << m.logs.size());
  for (size_t j = 0; j < m.logs.size() && (int)j < s.logs_size(); ++j) {
    auto& l = s.logs(j); auto& w = m.logs[j]; VN_CHECK(nanos(l.timestamp()) >= w.lo && nanos(l.timestamp()) <= w.hi, "log " << j << " has time " << nanos(l.timestamp()) << " outside of " << w.lo << ".." << w.hi);
    VN_CHECK(l.fields_size() == (int)w.f.size(), "log " << j << " has " << l.fields_size() << " fields instead of " << w.f.size());
    for (size_t q = 0; q < w.f.size() && (int)q < l.fields_size(); ++q) VN_CHECK(l.fields(q).key() == w.f[q].first && show(l.fields(q)) == w.f[q].second, "log field " << q << " is " << l.fields(q).ShortDebugString());
  }
  std::map<std::string, std::string> b(s.span_context().baggage().begin(), s.span_context().baggage().end()); checkbag(b, m, "the recorded span");
  VN_CHECK(nanos(s.start_timestamp()) >= m.start_lo && nanos(s.start_timestamp()) <= m.start_hi, "start " << nanos(s.start_timestamp()) << " outside of " << m.start_lo << ".." << m.start_hi);
  int64_t d = int64_t(s.duration_micros()); VN_CHECK(d >= m.dur_lo / 1000 && d <= m.dur_hi / 1000, "duration " << d << " outside of " << m.dur_lo / 1000 << ".." << m.dur_hi / 1000);
}
static std::shared_ptr<ot::Tracer> tracer(bool stream) {
  auto log = std::make_shared<Logger>([](LogLevel, ot::string_view) {});
  std::unique_ptr<Recorder> rec{new Rec};
  if (stream) return std::make_shared<TracerImpl>(log, PropagationOptions{}, std::move(rec));
  return std::make_shared<LegacyTracerImpl>(log, PropagationOptions{}, std::move(rec));
}
static void report() { for (auto& e : errors) vn::fail(e); errors.clear(); }
#ifndef VN_THREADS
static std::string clean(const std::string& ts) {  // empty list members are allowed and mean nothing
  std::string c; for (char x : ts) if (x != ',' || (!c.empty() && c.back() != ',')) c += x;
  while (!c.empty() && c.back() == ',') c.pop_back(); return c;
}
static void life(vn::Rng& r, bool stream, std::vector<std::unique_ptr<ot::Span>>& older) {
  auto t = tracer(stream); Model m; ot::StartSpanOptions o; Foreign foreign; std::vector<std::unique_ptr<ImmutableSpanContext>> ctxs; bool any = false; unsigned flags = 0;
  static const char* const states[] = {"", "a=1", "b=22,c=3"};
  for (int n = r.below(5); n > 0; --n) {
    auto kind = r.chance(50) ? ot::SpanReferenceType::ChildOfRef : ot::SpanReferenceType::FollowsFromRef; const ot::SpanContext* p = nullptr;
    if (r.chance(15)) p = &foreign;
    else if (!older.empty() && r.chance(20)) p = &older[r.below(older.size())]->context();
    else if (r.chance(85)) {
      TraceContext tc; tc.trace_id_high = r.next() & (r.chance(30) ? 0 : ~0ull); tc.trace_id_low = r.next(); tc.parent_id = r.next(); tc.trace_flags = uint8_t(r.chance(50) ? r.below(2) : r.next());
      BaggageProtobufMap b; for (int k = r.below(4); k > 0; --k) b[low(key(r))] = text(r, 10);
      ctxs.emplace_back(new ImmutableSpanContext{tc, std::string{states[r.below(3)]}, std::move(b)}); p = ctxs.back().get();
    }
    o.references.emplace_back(kind, p); auto lc = dynamic_cast<const LightStepSpanContext*>(p); if (!lc) continue;
    if (!any) { m.high = lc->trace_id_high(); m.low = lc->trace_id_low(); } any = true; flags |= lc->trace_flags();
    m.refs.push_back({{static_cast<uint64_t>(kind), lc->trace_id_low(), lc->span_id()}}); std::string ts(lc->trace_state().data(), lc->trace_state().size()); if (!ts.empty()) m.state += (m.state.empty() ? "" : ",") + ts;
    for (auto& x : items(*p)) m.opts[x.first].push_back(x.second);
  }
  if (!any) flags = 1;
  m.sampled = flags & 1;
  auto tag = [&](const std::string& k, const V& v) { m.tags.emplace_back(k, v.want); if (k == "sampling.priority") m.sampled = v.sampled != 0; };
  auto tagkey = [&] { return r.chance(15) ? std::string("sampling.priority") : text(r, 12); };
  for (int n = r.below(4); n > 0; --n) { auto k = tagkey(); V v = value(r); o.tags.emplace_back(k, v.v); tag(k, v); }
  int64_t base = 1600000000000000000ll; bool hassys = r.chance(50), hasstd = r.chance(50); int64_t a = base + int64_t(r.below(1ull << 50)), b = 1 + int64_t(r.below(1ull << 40));
  if (hassys) o.start_system_timestamp = sys(a);
  if (hasstd) o.start_steady_timestamp = stdy(b);
  m.name = text(r, 30); int64_t t0 = stdnow(); auto s = t->StartSpanWithOptions(m.name, o); int64_t t1 = stdnow();
  if (!s) { vn::fail("no span was started"); return; }
  if (hassys && hasstd) { m.start_lo = m.start_hi = a; m.steady_lo = m.steady_hi = b; }
  else if (hassys) { m.start_lo = m.start_hi = a; m.steady_lo = m.steady_hi = a - 1000000000ll * 77777; }
  else if (hasstd) { m.steady_lo = m.steady_hi = b; m.start_lo = m.start_hi = b + 1000000000ll * 77777; }
  else { m.steady_lo = t0; m.steady_hi = t1; m.start_lo = t0 + 1000000000ll * 88888; m.start_hi = t1 + 1000000000ll * 88888; }
  auto& sc = ctx(*s); if (!any) { m.high = 0; m.low = sc.trace_id_low(); } m.span = sc.span_id();
  m.flags = (flags & ~1u);
  auto getters = [&] {
    VN_CHECK(sc.trace_id_high() == m.high && sc.trace_id_low() == m.low && sc.span_id() == m.span, "the context's ids " << sc.trace_id_high() << "," << sc.trace_id_low() << "," << sc.span_id() << " instead of " << m.high << "," << m.low << "," << m.span);
    VN_CHECK(sc.trace_flags() == (m.flags | unsigned(m.sampled)), "trace flags " << int(sc.trace_flags()) << " instead of " << (m.flags | m.sampled)); VN_CHECK(sc.sampled() == (m.sampled == 1), "sampled()");
    std::string ts(sc.trace_state().data(), sc.trace_state().size());
    VN_CHECK(clean(ts) == clean(m.state), "trace state " << ts << " instead of " << m.state); checkbag(items(sc), m, "the context"); VN_CHECK(&s->tracer() == t.get(), "tracer()");
  };
  getters();
  static uint64_t last_span, last_trace; VN_CHECK(m.span != last_span && (any || (m.low != last_trace && m.low != m.span)), "an id was used before"); last_span = m.span; last_trace = m.low;
  for (int steps = r.below(12); steps > 0; --steps) switch (r.below(6)) {
    case 0: m.name = text(r, 40); s->SetOperationName(m.name); break;
    case 1: { auto k = tagkey(); V v = value(r); s->SetTag(k, v.v); tag(k, v); break; }
    case 2: case 3: { std::string k = key(r), v = text(r, 20); s->SetBaggageItem(k, v); m.opts[low(k)] = {v}; VN_CHECK(s->BaggageItem(k) == v, "BaggageItem returns " << s->BaggageItem(k) << " after setting " << v); break; }
    case 4: { V v1 = value(r), v2 = value(r); std::string k1 = text(r, 9), k2 = text(r, 9); LogM l; l.lo = sysnow(); if (r.chance(50)) { s->Log({{k1, v1.v}, {k2, v2.v}}); l.f = {{k1, v1.want}, {k2, v2.want}}; } else if (r.chance(70)) { s->Log({{k1, v1.v}}); l.f = {{k1, v1.want}}; } else s->Log({}); l.hi = sysnow(); m.logs.push_back(l); break; }
    default: { std::string k = key(r); auto i = m.opts.find(low(k)); std::string v = s->BaggageItem(k); bool ok = i == m.opts.end() && v.empty(); if (i != m.opts.end()) for (auto& x : i->second) ok = ok || x == v; VN_CHECK(ok, "BaggageItem of " << k << " is " << v); getters(); }
  }
  getters(); got.clear(); bool want = m.sampled == 1; int how = r.below(4); ot::FinishSpanOptions f; int64_t fin = m.steady_hi + int64_t(r.below(1ull << 45));
  int64_t lo = stdnow();
  if (how == 0) s.reset();
  else {
    if (how == 1) fin = 0; else f.finish_steady_timestamp = stdy(fin);
    for (int n = r.below(3); n > 0; --n) { ot::LogRecord l; int64_t when = base + int64_t(r.below(1ull << 50)); l.timestamp = sys(when); LogM lm; lm.lo = lm.hi = when; for (int q = r.below(4); q > 0; --q) { std::string k = text(r, 9); V v = value(r); l.fields.emplace_back(k, v.v); lm.f.emplace_back(k, v.want); } f.log_records.push_back(l); m.logs.push_back(lm); }
    s->FinishWithOptions(f);
  }
  int64_t hi = stdnow(); if (how >= 2) lo = hi = fin;
  m.dur_lo = lo - m.steady_hi; m.dur_hi = hi - m.steady_lo; if (m.dur_lo < 0) m.dur_lo = 0;
  VN_CHECK(got.size() == (want ? 1u : 0u), "recorded " << got.size() << " times when finished" << (want ? "" : " though not sampled") << (how ? " explicitly" : " by its destructor"));
  if (want && !got.empty() && !(m.steady_lo > stdnow() && how < 2)) checkrec(got[0], m);
  if (s) {
    s->SetTag("late", true); s->SetOperationName("late"); s->Log({{"late", true}}); if (r.chance(50)) s->SetTag("sampling.priority", 1); if (r.chance(60)) s->FinishWithOptions(f); if (r.chance(30)) s->Finish();
    if (r.chance(30) && older.size() < 6) older.push_back(std::move(s)); else s.reset();
    VN_CHECK(got.size() == (want ? 1u : 0u), "recorded " << got.size() << " times in all" << (want ? "" : " though not sampled"));
  }
  if (older.size() > 5) { got.clear(); older.clear(); VN_CHECK(got.empty(), "a span finished before was recorded again by its destructor"); }
  report();
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random lives of spans of both kinds: 0 to 4 references (valid, null, foreign, other spans; flags, trace states, baggage), start tags with and without sampling.priority, all combinations of given start times, up to 12 random setters, finish with and without time and log records, by call or destructor, finished again and set after the finish");
  vn::Rng r(vn::seed); std::vector<std::unique_ptr<ot::Span>> older;
  for (long round = 0; vn::time_left(); ++round) {
    keep.clear(); keep.reserve(400); bool stream = r.chance(60); std::ostringstream o; o << "seed " << vn::seed << " round " << round << (stream ? " stream span" : " legacy span"); vn::begin(o.str());
    life(r, stream, older); if (vn::fails) return vn::done();
  }
  older.clear(); return vn::done();
}
#else
int main(int argc, char** argv) {
  vn::init(argc, argv, "random lives of spans of both kinds shared by 2 to 4 threads that set tags, baggage, names and logs, read, inject and finish it at the same time, under the thread sanitizer: recorded exactly once, every item of a recorded span one of those set, none twice");
  vn::Rng r(vn::seed);
  for (long round = 0; vn::time_left(); ++round) {
    keep.clear(); bool stream = r.chance(60); std::ostringstream o; o << "seed " << vn::seed << " round " << round << (stream ? " stream span" : " legacy span"); vn::begin(o.str());
    auto t = tracer(stream); ot::StartSpanOptions so; std::shared_ptr<ot::Span> s = t->StartSpanWithOptions("name", so); got.clear(); int n = 2 + r.below(3); std::vector<std::thread> th; bool finishes = r.chance(70);
    for (int k = 0; k < n; ++k) { uint64_t q = r.next(); th.emplace_back([s, k, q, finishes] {
      vn::Rng g(q); std::string me = "t" + std::to_string(k);
      for (int j = 0; j < 6; ++j) switch (g.below(7)) {
        case 0: s->SetTag(me + "." + std::to_string(j), j); break;
        case 1: { s->SetBaggageItem(me, std::to_string(j)); break; }
        case 2: s->SetOperationName(me); break;
        case 3: s->Log({{me + "." + std::to_string(j), j}}); break;
        case 4: s->BaggageItem(me); ctx(*s).trace_flags(); break;
        case 5: { std::ostringstream w; ctx(*s).Inject(PropagationOptions{}, w); items(s->context()); break; }
        default: if (finishes) s->Finish();
      }
    }); }
    for (auto& x : th) x.join();
    s.reset(); VN_CHECK(got.size() == 1, "recorded " << got.size() << " times"); report();
    if (got.size() == 1) {
      std::set<std::string> seen; for (auto& x : got[0].tags()) VN_CHECK(seen.insert(x.key()).second && x.key()[0] == 't' && show(x) == "i" + x.key().substr(3), "tag " << x.ShortDebugString());
      for (auto& l : got[0].logs()) VN_CHECK(l.fields_size() == 1 && seen.insert("l" + l.fields(0).key()).second, "log " << l.ShortDebugString());
      VN_CHECK(got[0].operation_name() == "name" || got[0].operation_name()[0] == 't', "name " << got[0].operation_name());
    }
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
#endif
