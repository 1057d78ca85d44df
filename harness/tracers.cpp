#include "tracer/tracer_impl.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/immutable_span_context.h"
#include "tracer/span.h"
using namespace lightstep;
// the collaborators, by contract only
struct VfError : std::exception { virtual void vf_key(); const char* what() const noexcept override; };
void VfError::vf_key() {}
struct VfRecorder : Recorder {
  virtual void vf_key();
  bool FlushWithTimeout(std::chrono::system_clock::duration) noexcept override;
  bool ShutdownWithTimeout(std::chrono::system_clock::duration) noexcept override;
};
void VfRecorder::vf_key() {}
struct VfContext : LightStepSpanContext {
  virtual void vf_key();
  void ForeachBaggageItem(std::function<bool(const std::string&, const std::string&)>) const override;
  uint64_t trace_id_high() const noexcept override; uint64_t trace_id_low() const noexcept override; uint64_t span_id() const noexcept override; uint8_t trace_flags() const noexcept override; opentracing::string_view trace_state() const noexcept override;
  opentracing::expected<void> Inject(const PropagationOptions&, std::ostream&) const override;
  opentracing::expected<void> Inject(const PropagationOptions&, const opentracing::TextMapWriter&) const override;
  opentracing::expected<void> Inject(const PropagationOptions&, const opentracing::HTTPHeadersWriter&) const override;
};
void VfContext::vf_key() {}
extern "C" {
void vf_context_at(void* p, const TraceContext& c, std::string& s, BaggageProtobufMap& b) { new (p) ImmutableSpanContext{c, std::move(s), std::move(b)}; }
bool vf_sampled(const LightStepSpanContext& c) { return c.sampled(); }
}
