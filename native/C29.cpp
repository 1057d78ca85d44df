// C29: contexts injected into and extracted from carriers, for every list of formats
#include "vnative.h"
#include "tracer/propagation/propagation.h"
#include <algorithm>
#include <map>
#include <memory>
#include <sstream>
using namespace lightstep;
typedef std::vector<std::pair<std::string, std::string>> KV;
static const std::error_code Refused = std::make_error_code(std::errc::no_buffer_space);
template <class B> struct Writer : B {
  mutable KV kv; int fail_at = -1; mutable bool after = false, failed = false;
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override {
    if (failed) after = true;
    if (static_cast<int>(kv.size()) == fail_at) { failed = true; return opentracing::make_unexpected(Refused); }
    kv.emplace_back(k, v); return {};
  }
};
template <class B> struct Reader : B {
  KV kv; bool lookup = false, http = false; int fail_at = -1; mutable int visited = 0;
  static std::string low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
  opentracing::expected<opentracing::string_view> LookupKey(opentracing::string_view k) const override {
    if (!lookup) return opentracing::make_unexpected(opentracing::lookup_key_not_supported_error);
    for (auto& x : kv) if (http ? low(x.first) == low(std::string(k)) : x.first == std::string(k)) return opentracing::string_view{x.second};
    return opentracing::make_unexpected(opentracing::key_not_found_error);
  }
  opentracing::expected<void> ForeachKey(std::function<opentracing::expected<void>(opentracing::string_view, opentracing::string_view)> f) const override {
    int i = 0;
    for (auto& x : kv) {
      if (i++ == fail_at) return opentracing::make_unexpected(Refused);
      // exact-size copies, so that reading beyond them is seen
      std::unique_ptr<char[]> a(new char[x.first.size()]), b(new char[x.second.size()]);
      std::copy(x.first.begin(), x.first.end(), a.get()); std::copy(x.second.begin(), x.second.end(), b.get());
      auto r = f({a.get(), x.first.size()}, {http || true ? x.second.data() : b.get(), x.second.size()});
      if (!r) return r;
    }
    return {};
  }
};
static const char* const Names[] = {"lightstep", "b3", "envoy", "trace_context", "cloud_trace"};
static const PropagationMode Modes[] = {PropagationMode::lightstep, PropagationMode::b3, PropagationMode::envoy, PropagationMode::trace_context, PropagationMode::cloud_trace};
static std::string utf8(vn::Rng& r) { static const char* const U[] = {"\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xe2\x82\xac", "\xef\xbf\xbd", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"}; return U[r.below(8)]; }
// texts in the binary encoding are UTF-8; the other formats take any bytes
static std::string str(vn::Rng& r, bool key, bool text = true) {
  size_t n = r.below(r.chance(10) ? 60 : 8) + (key ? 1 : 0); std::string s;
  for (size_t i = 0; i < n; ++i) { if (!key && text && r.chance(20)) { s += utf8(r); continue; } char c = key ? "abcxyz019-_.~"[r.below(13)] : text ? static_cast<char>(r.below(128)) : r.chance(80) ? static_cast<char>(32 + r.below(95)) : static_cast<char>(r.below(256)); s += c; }
  return s;
}
static uint64_t id(vn::Rng& r) { switch (r.below(5)) { case 0: return 0; case 1: return ~0ull; case 2: return r.next() >> r.below(64); case 3: return 9999999999999999999ull + r.below(3); default: return r.next(); } }
struct Case { std::vector<int> modes; TraceContext t; std::string state; std::map<std::string, std::string> baggage; bool flat; };
static std::string show(const Case& c) {
  std::ostringstream o; o << "formats";
  for (int m : c.modes) o << ' ' << Names[m];
  o << "; ids " << std::hex << c.t.trace_id_high << ' ' << c.t.trace_id_low << ' ' << c.t.parent_id << " flags " << int(c.t.trace_flags) << " state '" << c.state << "' " << (c.flat ? "flat" : "hashed") << " baggage";
  for (auto& x : c.baggage) { o << " " << x.first << "="; for (unsigned char ch : x.second) { char b[6]; snprintf(b, 6, ch > 32 && ch < 127 ? "%c" : "\\x%02x", ch); o << b; } }
  return o.str();
}
static Case make(vn::Rng& r, bool bin = false) {
  Case c; size_t n = 1 + r.below(r.chance(50) ? 1 : 4);
  for (size_t i = 0; i < n; ++i) c.modes.push_back(static_cast<int>(r.below(5)));
  c.t.trace_id_high = id(r); c.t.trace_id_low = id(r); c.t.parent_id = id(r); c.t.trace_flags = static_cast<uint8_t>(r.chance(60) ? r.below(2) : r.below(256));
  if (r.chance(50)) c.state = str(r, true);
  for (size_t i = r.below(5); i > 0; --i) c.baggage[str(r, true)] = str(r, false, std::count(c.modes.begin(), c.modes.end(), 2) || bin);
  c.flat = r.chance(50); return c;
}
static PropagationOptions options(const Case& c) {
  LightStepTracerOptions o;
  for (int m : c.modes) o.propagation_modes.push_back(Modes[m]);
  return MakePropagationOptions(o);
}
template <class W> static opentracing::expected<void> inject(const PropagationOptions& o, const Case& c, W& w) {
  if (c.flat) { BaggageFlatMap b; for (auto& x : c.baggage) b.insert_or_assign(std::string(x.first), std::string(x.second)); return InjectSpanContext(o, w, c.t, c.state, b); }
  BaggageProtobufMap b; for (auto& x : c.baggage) b[x.first] = x.second; return InjectSpanContext(o, w, c.t, c.state, b);
}
template <class R> static void compare(const Case& c, const opentracing::expected<bool>& r, const TraceContext& t, const std::string& state, const BaggageProtobufMap& b, int m, const R& what) {
  VN_CHECK(static_cast<bool>(r), what << ": extraction fails: " << r.error().message());
  if (!r) return;
  VN_CHECK(*r, what << ": no context is found");
  bool wide = m == 1 || m == 3 || m == 4;
  std::ostringstream o; o << std::hex << what << ": got " << t.trace_id_high << ' ' << t.trace_id_low << ' ' << t.parent_id << " flags " << int(t.trace_flags);
  VN_CHECK(t.trace_id_low == c.t.trace_id_low && t.parent_id == c.t.parent_id && t.trace_id_high == (wide ? c.t.trace_id_high : 0) && (t.trace_flags & 1) == (c.t.trace_flags & 1), o.str());
  if (m == 3) { VN_CHECK(t.trace_flags == c.t.trace_flags, o.str() << " (flags)"); VN_CHECK(state == c.state, what << ": trace state '" << state << "'"); }
  std::map<std::string, std::string> got; for (auto& x : b) got[x.first] = x.second;
  std::string s; for (auto& x : got) s += " " + x.first + "=" + x.second;
  VN_CHECK(got == c.baggage, what << ": baggage" << s);
}
template <class WB, class RB> static void round(const Case& c, vn::Rng& r, bool http) {
  vn::begin(std::string(http ? "http " : "text map ") + show(c));
  auto o = options(c);
  Writer<WB> w; auto ok = inject(o, c, w);
  VN_CHECK(static_cast<bool>(ok), "injection fails");
  // what was written is what is read, among other entries, in any order, in any case for http headers
  Reader<RB> in; in.kv = w.kv; in.http = http; in.lookup = r.chance(50);
  for (size_t i = r.below(4); i > 0; --i) in.kv.emplace_back(r.chance(30) ? "ot-baggag" : r.chance(30) ? "x-b3-traceid2" : str(r, true), str(r, false, false));
  for (size_t i = in.kv.size(); i > 1; --i) std::swap(in.kv[i - 1], in.kv[r.below(i)]);
  if (http) for (auto& x : in.kv) for (auto& ch : x.first) if (r.chance(40)) ch = static_cast<char>(r.chance(50) ? toupper(ch) : tolower(ch));
  TraceContext t; std::string state; BaggageProtobufMap b;
  if (r.chance(30)) b["stale"] = "stale";
  auto res = ExtractSpanContext(o, static_cast<const RB&>(in), t, state, b);
  compare(c, res, t, state, b, c.modes[0], "extracted");
  // every single format written can be extracted by itself
  for (int m : c.modes) {
    Case d = c; d.modes = {m}; auto p = options(d);
    TraceContext t2; std::string s2; BaggageProtobufMap b2;
    auto r2 = ExtractSpanContext(p, static_cast<const RB&>(in), t2, s2, b2);
    if (std::count(c.modes.begin(), c.modes.end(), 2) != static_cast<long>(c.modes.size()) || m == 2) compare(d, r2, t2, s2, b2, m, std::string("extracted by ") + Names[m]);
  }
  // without the context there is none
  Reader<RB> none; none.http = http; none.lookup = in.lookup;
  for (auto& x : in.kv) { std::string k = Reader<RB>::low(x.first); if (k.find("ot-tracer") && k.find("x-b3") && k.find("x-ot") && k.find("x-cloud") && k != "traceparent") none.kv.push_back(x); }
  TraceContext t3; std::string s3; BaggageProtobufMap b3;
  auto r3 = ExtractSpanContext(o, static_cast<const RB&>(none), t3, s3, b3);
  VN_CHECK(r3 && !*r3, "a context is found where none was written");
  // a writer which fails
  if (w.kv.size()) {
    Writer<WB> f; f.fail_at = static_cast<int>(r.below(w.kv.size())); auto rf = inject(o, c, f);
    VN_CHECK(!rf && rf.error() == Refused && !f.after, "the writer's error at entry " << f.fail_at << " is not returned at once");
    // what a multi-header format leaves incomplete is refused
    int m = c.modes[0];
    if (m < 2 && f.fail_at == 1) {
      Reader<RB> half; half.kv = f.kv; half.http = http; TraceContext t4; std::string s4; BaggageProtobufMap b4; Case d = c; d.modes = {m};
      auto r4 = ExtractSpanContext(options(d), static_cast<const RB&>(half), t4, s4, b4);
      VN_CHECK(!r4, "half a context is accepted");
    }
  }
  Reader<RB> bad = in; bad.lookup = false; bad.fail_at = 0; TraceContext t5; std::string s5; BaggageProtobufMap b5;
  if (bad.kv.size()) { auto r5 = ExtractSpanContext(o, static_cast<const RB&>(bad), t5, s5, b5); VN_CHECK(!r5 && r5.error() == Refused, "the reader's error is not returned"); }
}
static void binary(const Case& c) {
  vn::begin("binary " + show(c));
  auto o = options(c); std::ostringstream w;
  VN_CHECK(static_cast<bool>(inject(o, c, w)), "injection fails");
  std::istringstream in(w.str()); TraceContext t; std::string state; BaggageProtobufMap b; b["stale"] = "stale";
  t.trace_id_high = 77;
  compare(c, ExtractSpanContext(o, in, t, state, b), t, state, b, 0, "extracted");
  std::istringstream none(""); TraceContext t2; auto r = ExtractSpanContext(o, none, t2, state, b);
  VN_CHECK(r && !*r, "a context is found in an empty stream");
  std::ostringstream closed; closed.setstate(std::ios::badbit);
  VN_CHECK(!inject(o, c, closed), "a broken stream is not noticed");
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "span contexts through every list of formats");
  vn::Rng r(vn::seed);
  for (int m = 0; m < 5; ++m) for (int f = 0; f < 2; ++f) { Case c; c.modes = {m}; c.t.trace_id_low = 1; c.t.parent_id = 2; c.t.trace_flags = static_cast<uint8_t>(f); c.flat = false; round<opentracing::TextMapWriter, opentracing::TextMapReader>(c, r, false); c.flat = true; round<opentracing::HTTPHeadersWriter, opentracing::HTTPHeadersReader>(c, r, true); binary(c); }
  while (vn::time_left()) {
    Case c = make(r); round<opentracing::TextMapWriter, opentracing::TextMapReader>(c, r, false);
    c = make(r); round<opentracing::HTTPHeadersWriter, opentracing::HTTPHeadersReader>(c, r, true);
    binary(make(r, true));
  }
  { Case c; c.modes = {2}; c.t.trace_id_low = 5; c.t.parent_id = 6; c.t.trace_flags = 1; c.baggage["k"] = "\x80"; c.flat = false; auto o = options(c);
    vn::begin("envoy, binary: baggage that is not UTF-8: " + show(c));
    Writer<opentracing::TextMapWriter> w; auto ok = inject(o, c, w); Reader<opentracing::TextMapReader> in; in.kv = w.kv; TraceContext t; std::string st; BaggageProtobufMap b;
    auto x = ExtractSpanContext(o, static_cast<const opentracing::TextMapReader&>(in), t, st, b);
    VN_CHECK(!ok || (x && *x && t.trace_id_low == 5 && t.parent_id == 6), "[non-utf8-baggage] injected without an error, refused as corrupted on extraction");
    std::ostringstream bw; auto ok2 = inject(o, c, bw); std::istringstream bi(bw.str()); auto y = ExtractSpanContext(o, bi, t, st, b);
    VN_CHECK(!ok2 || (y && *y), "[non-utf8-baggage] injected without an error, refused as corrupted on extraction (binary)"); }
  return vn::done();
}
