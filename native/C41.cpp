// C41: the propagators made for every list of formats (up to six), each known by what it writes
#include "vnative.h"
#include "tracer/propagation/propagation_options.h"
#include "tracer/propagation/trace_context.h"
#include "common/flat_map.h"
#include <algorithm>
#include <set>
#include <sstream>
using namespace lightstep;
struct Writer : opentracing::TextMapWriter {
  mutable std::vector<std::string> keys;
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view) const override { keys.emplace_back(k); return {}; }
};
static const char* const Names[] = {"?", "lightstep", "b3", "envoy", "trace_context", "cloud_trace"};
static const PropagationMode Modes[] = {PropagationMode::lightstep, PropagationMode::lightstep, PropagationMode::b3, PropagationMode::envoy, PropagationMode::trace_context, PropagationMode::cloud_trace};
static std::string kind(const Propagator& p) {
  Writer w; TraceContext t; t.trace_id_high = 1; t.trace_id_low = 2; t.parent_id = 3; t.trace_flags = 1; t.version = 0;
  BaggageProtobufMap b; b.insert(BaggageProtobufMap::value_type("k", "v"));
  p.InjectSpanContext(w, t, "", b);
  auto has = [&](const char* k) { return std::find(w.keys.begin(), w.keys.end(), k) != w.keys.end(); };
  std::string r;
  if (has("ot-tracer-traceid")) r += "lightstep"; if (has("X-B3-TraceId")) r += "b3"; if (has("x-ot-span-context")) r += "envoy"; if (has("traceparent")) r += "trace_context"; if (has("x-cloud-trace-context")) r += "cloud_trace"; if (has("ot-baggage-k")) r += "baggage";
  return r;
}
static std::string kinds(const std::vector<std::unique_ptr<Propagator>>& v) { std::string r; for (auto& p : v) r += (p ? kind(*p) : std::string("null")) + " "; return r; }
static std::string list(const std::vector<int>& v, bool once) { std::string r; std::set<int> s; for (int m : v) if (!once || s.insert(m).second) r += std::string(Names[m]) + " "; return r; }
static void check(const std::vector<int>& modes, bool single, const char* key = "") {
  vn::begin("formats: " + list(modes, false) + (single ? "single key" : ""));
  LightStepTracerOptions o; for (int m : modes) o.propagation_modes.push_back(Modes[m]); o.use_single_key_propagation = single;
  auto r = MakePropagationOptions(o);
  std::vector<int> in = modes, ex; if (single) in = {3}; else if (in.empty()) in = {1};
  for (int m : in) { ex.push_back(m); if (m == 3) ex.push_back(1); }
  std::string a = kinds(r.inject_propagators), b = kinds(r.extract_propagators), want = list(in, true);
  bool only = list(in, true) == "envoy ", free = only && in.size() > 1;      // envoy listed twice: with or without
  VN_CHECK(a == want + (only ? "" : "baggage ") || (free && a == want + "baggage "), key << "injects " << a << "instead of " << want << (only ? "" : "baggage"));
  VN_CHECK(b == list(ex, true), key << "extracts " << b << "instead of " << list(ex, true));
  if (!modes.empty()) {
    std::vector<PropagationMode> x(modes.size() % 3, PropagationMode::b3), y(modes.size() % 2, PropagationMode::envoy); SetInjectExtractPropagationModes(o.propagation_modes, x, y);
    auto text = [](const std::vector<PropagationMode>& v) { std::vector<int> r; for (auto m : v) r.push_back(static_cast<int>(m)); return list(r, false); };
    std::vector<int> e2; for (int m : modes) { e2.push_back(m); if (m == 3) e2.push_back(1); }
    VN_CHECK(text(x) == list(modes, true) && text(y) == list(e2, true), "modes to inject " << text(x) << "and to extract " << text(y));
  }
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "every list of up to five formats, then longer ones at random, with and without use_single_key_propagation");
  check({}, false); check({}, true); check({2, 4}, true, "[single-key-ignored] ");
  for (int n = 1; n <= 5; ++n) { std::vector<int> v(static_cast<size_t>(n), 1); for (;;) { check(v, false); size_t i = 0; while (i < v.size() && v[i] == 5) v[i++] = 1; if (i == v.size()) break; ++v[i]; } }
  vn::Rng r(vn::seed);
  for (int k = 0; k < 20000 && vn::time_left(); ++k) { std::vector<int> v(6 + r.below(20)); for (auto& m : v) m = 1 + static_cast<int>(r.below(5)); check(v, false); }
  return vn::done();
}
