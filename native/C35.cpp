// C35: tracers of both kinds: what they inject, extract, start, flush and close, and the contexts they make, against
// direct calls and small models; every allocation can be made to fail once.
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <sstream>
#include <algorithm>
#include <thread>
#include <stdexcept>
static long live_ = 0, fail_in = -1; static bool failed_ = false;
void* operator new(size_t n) { if (fail_in > 0 && --fail_in == 0) { failed_ = true; throw std::bad_alloc{}; } void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc{}; ++live_; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --live_; std::free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#include "tracer/immutable_span_context.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/tracer_impl.h"
#include "vnative.h"
namespace c = lightstep::collector; namespace ot = opentracing;
using namespace lightstep;
using Sys = std::chrono::system_clock;
static std::vector<std::pair<char, int64_t>> calls; static bool flush_ok = true, shut_ok = true; static int flush_ms = 0;
struct Rec : Recorder {
  void RecordSpan(Fragment, std::unique_ptr<ChainedStream>&&) noexcept override {}
  void RecordSpan(const c::Span&) noexcept override {}
  static int64_t us(Sys::duration d) { return std::chrono::duration_cast<std::chrono::microseconds>(d).count(); }
  bool FlushWithTimeout(Sys::duration d) noexcept override { calls.push_back({'f', us(d)}); if (flush_ms) std::this_thread::sleep_for(std::chrono::milliseconds(flush_ms)); return flush_ok; }
  bool ShutdownWithTimeout(Sys::duration d) noexcept override { calls.push_back({'s', us(d)}); return shut_ok; }
};
struct Foreign : ot::SpanContext { void ForeachBaggageItem(std::function<bool(const std::string&, const std::string&)>) const override {} };
using KV = std::vector<std::pair<std::string, std::string>>; using Map = std::map<std::string, std::string>;
static const std::error_code Refused = std::make_error_code(std::errc::no_buffer_space);
template <class B> struct Writer : B {
  mutable KV kv; int fail_at = -1; bool throws = false;
  ot::expected<void> Set(ot::string_view k, ot::string_view v) const override {
    if (int(kv.size()) == fail_at) { if (throws) throw std::runtime_error("writer"); return ot::make_unexpected(Refused); }
    kv.emplace_back(k, v); return {};
  }
};
template <class B> struct Reader : B {
  KV kv; bool lookup = false; int fail_at = -1; bool throws = false;
  ot::expected<ot::string_view> LookupKey(ot::string_view k) const override {
    if (!lookup) return ot::make_unexpected(ot::lookup_key_not_supported_error);
    for (auto& x : kv) if (x.first == std::string(k)) return ot::string_view{x.second};
    return ot::make_unexpected(ot::key_not_found_error);
  }
  ot::expected<void> ForeachKey(std::function<ot::expected<void>(ot::string_view, ot::string_view)> f) const override {
    int i = 0;
    for (auto& x : kv) { if (i++ == fail_at) { if (throws) throw std::runtime_error("reader"); return ot::make_unexpected(Refused); } auto r = f(x.first, x.second); if (!r) return r; }
    return {};
  }
};
static const PropagationMode Modes[] = {PropagationMode::lightstep, PropagationMode::b3, PropagationMode::envoy, PropagationMode::trace_context, PropagationMode::cloud_trace};
static std::string word(vn::Rng& r) { std::string s; do s.push_back(char('a' + r.below(26))); while (r.chance(60)); return s; }
struct Held { TraceContext t; std::string state; Map bag; };
static Held held(vn::Rng& r) {
  Held h; h.t.trace_id_high = r.chance(40) ? 0 : r.next(); h.t.trace_id_low = r.chance(10) ? 0 : r.next(); h.t.parent_id = r.next(); h.t.trace_flags = uint8_t(r.chance(50) ? r.below(2) : r.next());
  if (r.chance(40)) h.state = word(r) + "=" + word(r);
  for (int n = r.below(4); n > 0; --n) h.bag[word(r)] = word(r);
  return h;
}
static BaggageProtobufMap pm(const Map& m) { BaggageProtobufMap b; for (auto& x : m) b[x.first] = x.second; return b; }
static Map items(const ot::SpanContext& s) { Map m; int n = 0; s.ForeachBaggageItem([&](const std::string& k, const std::string& v) { m.emplace(k, v); ++n; return true; }); VN_CHECK(n == int(m.size()), "an item is visited twice"); return m; }
static const LightStepSpanContext& ls(const ot::SpanContext& s) { return dynamic_cast<const LightStepSpanContext&>(s); }
static void same(const ot::SpanContext& s, const Held& h, const char* who) {
  auto* l = dynamic_cast<const LightStepSpanContext*>(&s); VN_CHECK(l, who << ": not a context of this tracer"); if (!l) return;
  std::ostringstream o; o << std::hex << who << ": holds " << l->trace_id_high() << ' ' << l->trace_id_low() << ' ' << l->span_id() << " flags " << int(l->trace_flags()) << " state '" << std::string(l->trace_state()) << "' instead of " << h.t.trace_id_high << ' ' << h.t.trace_id_low << ' ' << h.t.parent_id << " flags " << int(h.t.trace_flags) << " state '" << h.state << "'";
  VN_CHECK(l->trace_id_high() == h.t.trace_id_high && l->trace_id_low() == h.t.trace_id_low && l->span_id() == h.t.parent_id && l->trace_flags() == h.t.trace_flags && std::string(l->trace_state()) == h.state, o.str());
  VN_CHECK(l->sampled() == ((h.t.trace_flags & 1) != 0), who << ": sampled is wrong"); VN_CHECK(items(s) == h.bag, who << ": other baggage");
}
static PropagationOptions options(const std::vector<int>& modes) { LightStepTracerOptions o; for (int m : modes) o.propagation_modes.push_back(Modes[m]); return MakePropagationOptions(o); }
static std::shared_ptr<LightStepTracer> tracer(bool stream, PropagationOptions&& o) {
  auto log = std::make_shared<Logger>([](LogLevel, ot::string_view) {}); std::unique_ptr<Recorder> rec{new Rec};
  if (stream) return std::make_shared<TracerImpl>(log, std::move(o), std::move(rec));
  return std::make_shared<LegacyTracerImpl>(log, std::move(o), std::move(rec));
}
template <class WB, class RB> static void maps(vn::Rng& r, const LightStepTracer& t, const PropagationOptions& p, const Held& h, const ot::SpanContext& s, const std::string& what) {
  const ot::Tracer& tr = t; Writer<WB> a, b; Foreign foreign; bool threw = false;
  auto x = tr.Inject(foreign, static_cast<const WB&>(a)); VN_CHECK(!x && x.error() == ot::invalid_span_context_error && a.kv.empty(), what << ": a foreign context is injected");
  if (r.chance(30)) a.fail_at = b.fail_at = int(r.below(5));
  if (r.chance(30)) a.throws = b.throws = true;
  ot::expected<void> d; try { d = InjectSpanContext(p, static_cast<const WB&>(b), h.t, h.state, pm(h.bag)); } catch (const std::exception&) { threw = true; }
  bool threw2 = false; try { x = tr.Inject(s, static_cast<const WB&>(a)); } catch (const std::exception&) { threw2 = true; }
  VN_CHECK(threw == threw2 && (threw || (bool(x) == bool(d) && (x || x.error() == d.error()))), what << ": injection " << (threw2 ? "throws" : x ? "succeeds" : "fails") << " unlike the formats'");
  std::sort(a.kv.begin(), a.kv.end()); std::sort(b.kv.begin(), b.kv.end()); bool whole = h.bag.size() < 2; KV ka = a.kv, kb = b.kv; if (!whole) for (auto* k : {&ka, &kb}) for (auto& y : *k) y.second = y.first.find("ot-tracer-spancontext") == 0 || y.first.find("x-ot-span-context") == 0 ? "" : y.second;   // a map has no order
  if (whole || a.fail_at < 0) VN_CHECK(ka == kb, what << ": " << a.kv.size() << " entries are injected that differ from the " << b.kv.size() << " of the formats");
  Reader<RB> in; Writer<WB> full; (void)InjectSpanContext(p, static_cast<const WB&>(full), h.t, h.state, pm(h.bag)); in.kv = full.kv;
  in.lookup = r.chance(50); if (r.chance(20) && in.kv.size()) in.kv.erase(in.kv.begin() + r.below(in.kv.size())); if (r.chance(15)) in.kv.clear();
  if (r.chance(20) && in.kv.size()) in.kv[r.below(in.kv.size())].second += "!"; if (r.chance(20)) in.fail_at = int(r.below(4)); in.throws = r.chance(30);
  TraceContext tc; std::string state; BaggageProtobufMap bag; ot::expected<bool> e{false}; threw = threw2 = false; try { e = ExtractSpanContext(p, static_cast<const RB&>(in), tc, state, bag); } catch (const std::exception&) { threw = true; }
  { ot::expected<std::unique_ptr<ot::SpanContext>> g{std::unique_ptr<ot::SpanContext>{}}; try { g = tr.Extract(static_cast<const RB&>(in)); } catch (const std::exception&) { threw2 = true; }
    VN_CHECK(threw == threw2, what << ": extraction " << (threw2 ? "throws" : "does not throw") << " unlike the formats'"); if (threw) return;
    VN_CHECK(bool(g) == bool(e) && (g || g.error() == e.error()), what << ": extraction " << (g ? "succeeds" : "fails") << " unlike the formats'"); if (!g || !e) return;
    VN_CHECK((*g != nullptr) == *e, what << ": a context is " << (*g ? "made up" : "lost"));
    if (*g) { Held w; w.t = tc; w.state = state; for (auto& y : bag) w.bag[y.first] = y.second; same(**g, w, "extracted context"); } }
}
static void streams(vn::Rng& r, const LightStepTracer& t, const Held& h, const ot::SpanContext& s) {
  const ot::Tracer& tr = t; std::ostringstream o; Foreign foreign; auto x = tr.Inject(foreign, o); VN_CHECK(!x && x.error() == ot::invalid_span_context_error && o.str().empty(), "a foreign context is injected in binary");
  x = tr.Inject(s, o); VN_CHECK(bool(x), "binary injection fails"); Held w = h; w.t.trace_id_high = 0; w.t.trace_flags &= 1; w.state.clear();
  std::istringstream in{o.str()}; auto g = tr.Extract(in); VN_CHECK(g && *g, "no context is found in what was injected in binary"); if (g && *g) same(**g, w, "binary carrier");
  std::ostringstream bad; bad.setstate(std::ios::failbit); VN_CHECK(!tr.Inject(s, bad), "a broken stream is not noticed");
  std::istringstream none{""}; auto e = tr.Extract(none); VN_CHECK(e && !*e, "a context is found in an empty stream"); std::istringstream junk{"\x01garbage"}; VN_CHECK(!tr.Extract(junk), "garbage is accepted"); (void)r;
}
static void contexts(vn::Rng& r, const LightStepTracer& t) {
  Held h = held(r); auto pick = [&](int n) { return int(r.below(n)); }; TraceContext tc = h.t; bool sampled = r.chance(50); std::unordered_map<std::string, std::string> um(h.bag.begin(), h.bag.end());
  { Held w = h; w.state.clear(); w.t.trace_flags = sampled; w.t.trace_id_high = 0; same(ImmutableSpanContext{h.t.trace_id_low, h.t.parent_id, sampled, pm(h.bag)}, w, "context of ids"); w.t.trace_id_high = h.t.trace_id_high; same(ImmutableSpanContext{h.t.trace_id_high, h.t.trace_id_low, h.t.parent_id, sampled, pm(h.bag)}, w, "context of 128 bits"); same(ImmutableSpanContext{h.t.trace_id_high, h.t.trace_id_low, h.t.parent_id, sampled, um}, w, "context of items"); }
  ImmutableSpanContext a{tc, std::string{h.state}, pm(h.bag)}; same(a, h, "context");
  int stop = pick(3), seen = 0; a.ForeachBaggageItem([&](const std::string&, const std::string&) { return ++seen <= stop; }); VN_CHECK(seen == std::min(stop + 1, int(h.bag.size())), "visited " << seen << " items when told to stop after " << stop + 1);
  Held o = h; std::string d = "nothing"; switch (pick(8)) { case 0: o.t.trace_id_high ^= 1ull << pick(64); d = "high"; break; case 1: o.t.trace_id_low ^= 1ull << pick(64); d = "low"; break; case 2: o.t.parent_id ^= 1ull << pick(64); d = "span id"; break; case 3: o.t.trace_flags ^= 1 << pick(8); d = "flags"; break; case 4: o.state += "x"; d = "state"; break; case 5: o.bag["zz9"] = "1"; d = "one more item"; break; case 6: if (!o.bag.empty()) { o.bag.begin()->second += "!"; d = "an item's value"; } break; default:; }
  ImmutableSpanContext b{o.t, std::string{o.state}, pm(o.bag)}; bool eq = d == "nothing"; VN_CHECK((ls(a) == ls(b)) == eq && (ls(b) == ls(a)) == eq && (ls(a) != ls(b)) == !eq, "contexts that differ in " << d << " compare " << (eq ? "unequal" : "equal"));
  auto q = t.GetTraceSpanIdsSampled(a); VN_CHECK(q && (*q)[0] == h.t.trace_id_low && (*q)[1] == h.t.parent_id && (*q)[2] == uint64_t(h.t.trace_flags & 1), "GetTraceSpanIdsSampled is wrong");
  Foreign foreign; auto f = t.GetTraceSpanIdsSampled(foreign); VN_CHECK(!f && f.error() == ot::invalid_span_context_error, "GetTraceSpanIdsSampled accepts a foreign context");
  { Held w = h; w.state.clear(); w.t.trace_flags = sampled; w.t.trace_id_high = 0; auto m = um; auto g = t.MakeSpanContext(h.t.trace_id_low, h.t.parent_id, sampled, std::move(m)); VN_CHECK(g && *g, "MakeSpanContext fails"); if (g && *g) same(**g, w, "made context"); }
  for (int n = 1; n < 40; ++n) { std::unordered_map<std::string, std::string> m;  // protobuf's own map does not survive running out of memory while it grows
    long before = live_; bool ok; failed_ = false; fail_in = n; { auto g = t.MakeSpanContext(1, 2, true, std::move(m)); fail_in = -1; ok = bool(g); if (!ok) VN_CHECK(g.error() == std::make_error_code(std::errc::not_enough_memory), "MakeSpanContext: another error than out of memory"); VN_CHECK(ok == !failed_, "MakeSpanContext: running out of memory is hidden"); } VN_CHECK(live_ <= before, "MakeSpanContext leaks when out of memory"); if (ok) break; }
}
static void starts(vn::Rng& r, const LightStepTracer& t, bool stream) {
  const ot::Tracer& tr = t; Held h = held(r); ImmutableSpanContext parent{h.t, std::string{h.state}, pm(h.bag)}; ot::StartSpanOptions o; if (r.chance(60)) o.references.emplace_back(ot::SpanReferenceType::ChildOfRef, &parent); if (r.chance(60)) o.tags.emplace_back("key", 123);
  tr.StartSpanWithOptions("warm up", o); if (!stream) return;  // protobuf messages do not survive running out of memory
  int top = 1 + int(r.below(30)); long before = live_; failed_ = false; fail_in = top; { auto s = tr.StartSpanWithOptions("name", o); fail_in = -1; VN_CHECK(failed_ || s, "no span is started"); if (s) VN_CHECK(o.references.empty() || ls(s->context()).trace_id_low() == h.t.trace_id_low, "a started span is of another trace"); }
  if (failed_) VN_CHECK(live_ <= before + 1, "starting a span leaks when out of memory"); fail_in = -1;
}
static void ends(vn::Rng& r, LightStepTracer& t, bool stream) {
  calls.clear(); flush_ok = r.chance(60); shut_ok = r.chance(50); flush_ms = r.chance(20) ? 2 : 0; const int64_t ten = 10000000;
  bool f = t.Flush(); VN_CHECK(f == flush_ok && calls.size() == 1 && calls[0] == std::make_pair('f', ten), "Flush: " << calls.size() << " calls" << (calls.size() ? ", time " + std::to_string(calls[0].second) : ""));
  calls.clear(); int64_t us = int64_t(r.below(5000000)); f = t.FlushWithTimeout(std::chrono::microseconds(us)); VN_CHECK(f == flush_ok && calls.size() == 1 && calls[0] == std::make_pair('f', us), "FlushWithTimeout: " << calls.size() << " calls" << (calls.size() ? ", time " + std::to_string(calls[0].second) : ""));
  calls.clear(); auto t1 = std::chrono::steady_clock::now(); t.Close(); int64_t took = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t1).count();
  VN_CHECK(!calls.empty() && calls[0] == std::make_pair('f', ten), "Close does not flush within ten seconds first"); bool shut = stream && flush_ok;
  VN_CHECK(calls.size() == (shut ? 2u : 1u), "Close: " << calls.size() << " calls" << (flush_ok ? "" : " after a failed flush"));
  if (shut && calls.size() == 2) VN_CHECK(calls[1].first == 's' && calls[1].second <= ten - flush_ms * 1000 && calls[1].second >= ten - took - 1, "Close: shuts down within " << calls[1].second << " us after " << took << " us");
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random tracers of both kinds and format lists: contexts injected into and extracted from failing, throwing and broken carriers and streams like the formats themselves do, contexts made, compared and visited, spans started with one allocation failing, flush and close with recorders that fail");
  vn::Rng r(vn::seed);
  for (long round = 0; vn::time_left(); ++round) {
    bool stream = r.chance(60); std::vector<int> modes; for (int n = 1 + r.below(3); n > 0; --n) modes.push_back(int(r.below(5))); std::ostringstream o; o << "seed " << vn::seed << " round " << round << (stream ? " stream" : " legacy") << " tracer, formats"; for (int m : modes) o << ' ' << m;
    vn::begin(o.str()); auto p = options(modes); auto t = tracer(stream, options(modes)); Held h = held(r); ImmutableSpanContext s{h.t, std::string{h.state}, pm(h.bag)};
    maps<ot::TextMapWriter, ot::TextMapReader>(r, *t, p, h, s, "text map"); maps<ot::HTTPHeadersWriter, ot::HTTPHeadersReader>(r, *t, p, h, s, "http headers"); streams(r, *t, h, s); contexts(r, *t); starts(r, *t, stream); ends(r, *t, stream);
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
