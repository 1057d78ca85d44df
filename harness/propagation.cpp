#include "tracer/propagation/propagation.h"
#include "tracer/propagation/propagation_options.h"
#include "tracer/propagation/b3_propagator.h"
#include "tracer/propagation/baggage_propagator.h"
#include "tracer/propagation/cloud_trace_propagator.h"
#include "tracer/propagation/envoy_propagator.h"
#include "tracer/propagation/lightstep_propagator.h"
#include "tracer/propagation/multiheader_propagator.h"
#include "tracer/propagation/trace_context_propagator.h"
using namespace lightstep;
using opentracing::string_view;
typedef opentracing::expected<void> Ok;
typedef opentracing::expected<bool> Found;
struct VfWriter : opentracing::TextMapWriter { virtual void vf_key(); Ok Set(string_view key, string_view value) const override; };
void VfWriter::vf_key() {}
// the categories of errors, by name
struct VfPropagationCategory : std::error_category { const char* name() const noexcept override; std::string message(int) const override; };
struct VfSystemCategory : std::error_category { const char* name() const noexcept override; std::string message(int) const override; };
const char* VfPropagationCategory::name() const noexcept { return "OpenTracingPropagationError"; }
std::string VfPropagationCategory::message(int) const { return ""; }
const char* VfSystemCategory::name() const noexcept { return "system"; }
std::string VfSystemCategory::message(int) const { return ""; }
// a propagator of any format
struct VfPropagator : Propagator {
  virtual void vf_key();
  Ok InjectSpanContext(const opentracing::TextMapWriter&, const TraceContext&, string_view, const BaggageProtobufMap&) const override;
  Ok InjectSpanContext(const opentracing::TextMapWriter&, const TraceContext&, string_view, const BaggageFlatMap&) const override;
  Found ExtractSpanContext(const opentracing::TextMapReader&, bool, TraceContext&, std::string&, BaggageProtobufMap&) const override;
};
void VfPropagator::vf_key() {}
extern "C" { void vf_entry(long i, string_view* key, string_view* value); bool vf_more(long i); int vf_end(); }
// a carrier of entries 0, 1, ..., whose reading may fail anywhere
struct VfReader : opentracing::TextMapReader {
  virtual void vf_key();
  opentracing::expected<string_view> LookupKey(string_view key) const override;
  Ok ForeachKey(std::function<Ok(string_view, string_view)> f) const override {
    for (long i = 0; vf_more(i); ++i) { string_view k, v; vf_entry(i, &k, &v); auto r = f(k, v); if (!r) return r; }
    if (int x = vf_end()) return opentracing::make_unexpected(std::error_code(x, std::system_category()));
    return {};
  }
};
void VfReader::vf_key() {}
extern "C" {
void vf_make_b3(std::unique_ptr<Propagator>* p) { *p = MakeB3Propagator(); }
void vf_make_lightstep(std::unique_ptr<Propagator>* p) { *p = MakeLightStepPropagator(); }
void vf_multi_inject_p(MultiheaderPropagator& p, VfWriter& w, TraceContext& t, string_view* s, BaggageProtobufMap& b, Ok* r) { *r = p.MultiheaderPropagator::InjectSpanContext(w, t, *s, b); }
void vf_multi_inject_f(MultiheaderPropagator& p, VfWriter& w, TraceContext& t, string_view* s, BaggageFlatMap& b, Ok* r) { *r = p.MultiheaderPropagator::InjectSpanContext(w, t, *s, b); }
void vf_multi_extract(MultiheaderPropagator& p, VfReader& c, bool cs, TraceContext& t, std::string& s, BaggageProtobufMap& b, Found* r) { *r = p.MultiheaderPropagator::ExtractSpanContext(c, cs, t, s, b); }
void vf_tc_inject_p(TraceContextPropagator& p, VfWriter& w, TraceContext& t, string_view* s, BaggageProtobufMap& b, Ok* r) { *r = p.TraceContextPropagator::InjectSpanContext(w, t, *s, b); }
void vf_tc_inject_f(TraceContextPropagator& p, VfWriter& w, TraceContext& t, string_view* s, BaggageFlatMap& b, Ok* r) { *r = p.TraceContextPropagator::InjectSpanContext(w, t, *s, b); }
void vf_tc_extract(TraceContextPropagator& p, VfReader& c, bool cs, TraceContext& t, std::string& s, BaggageProtobufMap& b, Found* r) { *r = p.TraceContextPropagator::ExtractSpanContext(c, cs, t, s, b); }
void vf_cloud_inject_p(CloudTracePropagator& p, VfWriter& w, TraceContext& t, string_view* s, BaggageProtobufMap& b, Ok* r) { *r = p.CloudTracePropagator::InjectSpanContext(w, t, *s, b); }
void vf_cloud_inject_f(CloudTracePropagator& p, VfWriter& w, TraceContext& t, string_view* s, BaggageFlatMap& b, Ok* r) { *r = p.CloudTracePropagator::InjectSpanContext(w, t, *s, b); }
void vf_cloud_extract(CloudTracePropagator& p, VfReader& c, bool cs, TraceContext& t, std::string& s, BaggageProtobufMap& b, Found* r) { *r = p.CloudTracePropagator::ExtractSpanContext(c, cs, t, s, b); }
void vf_cloud_parse(CloudTracePropagator& p, string_view* v, TraceContext& t, Ok* r) { *r = p.ParseCloudTrace(*v, t); }
size_t vf_cloud_serialize(CloudTracePropagator& p, TraceContext& t, char* s) { return p.SerializeCloudTrace(t, s); }
void vf_envoy_inject_p(EnvoyPropagator& p, VfWriter& w, TraceContext& t, string_view* s, BaggageProtobufMap& b, Ok* r) { *r = p.EnvoyPropagator::InjectSpanContext(w, t, *s, b); }
void vf_envoy_inject_f(EnvoyPropagator& p, VfWriter& w, TraceContext& t, string_view* s, BaggageFlatMap& b, Ok* r) { *r = p.EnvoyPropagator::InjectSpanContext(w, t, *s, b); }
void vf_envoy_extract(EnvoyPropagator& p, VfReader& c, bool cs, TraceContext& t, std::string& s, BaggageProtobufMap& b, Found* r) { *r = p.EnvoyPropagator::ExtractSpanContext(c, cs, t, s, b); }
void vf_baggage_p(BaggagePropagator& p, VfWriter& w, TraceContext& t, string_view* s, BaggageProtobufMap& b, Ok* r) { *r = p.BaggagePropagator::InjectSpanContext(w, t, *s, b); }
void vf_baggage_f(BaggagePropagator& p, VfWriter& w, TraceContext& t, string_view* s, BaggageFlatMap& b, Ok* r) { *r = p.BaggagePropagator::InjectSpanContext(w, t, *s, b); }
void vf_baggage_make(BaggagePropagator* p) { new (p) BaggagePropagator{PrefixBaggage}; }
void vf_inject_p(PropagationOptions& o, VfWriter& w, TraceContext& t, string_view* s, BaggageProtobufMap& b, Ok* r) { *r = InjectSpanContext(o, static_cast<opentracing::TextMapWriter&>(w), t, *s, b); }
void vf_inject_f(PropagationOptions& o, VfWriter& w, TraceContext& t, string_view* s, BaggageFlatMap& b, Ok* r) { *r = InjectSpanContext(o, static_cast<opentracing::TextMapWriter&>(w), t, *s, b); }
void vf_extract_t(PropagationOptions& o, opentracing::TextMapReader& c, TraceContext& t, std::string& s, BaggageProtobufMap& b, Found* r) { *r = ExtractSpanContext(o, c, t, s, b); }
void vf_extract_h(PropagationOptions& o, opentracing::HTTPHeadersReader& c, TraceContext& t, std::string& s, BaggageProtobufMap& b, Found* r) { *r = ExtractSpanContext(o, c, t, s, b); }
void vf_binary_inject_p(std::ostream& o, uint64_t t, uint64_t s, bool sampled, BaggageProtobufMap& b, Ok* r) { *r = InjectSpanContext(o, t, s, sampled, b); }
void vf_binary_inject_f(std::ostream& o, uint64_t t, uint64_t s, bool sampled, BaggageFlatMap& b, Ok* r) { *r = InjectSpanContext(o, t, s, sampled, b); }
void vf_binary_extract(std::istream& i, uint64_t* t, uint64_t* s, bool* sampled, BaggageProtobufMap& b, Found* r) { *r = ExtractSpanContext(i, *t, *s, *sampled, b); }
}
