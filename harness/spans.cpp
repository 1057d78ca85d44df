#include "tracer/span.h"
#include "tracer/utility.h"
#include "tracer/legacy/legacy_span.h"
using namespace lightstep;
// the collaborators, by contract only
struct VfError : std::exception { virtual void vf_key(); const char* what() const noexcept override; };
void VfError::vf_key() {}
struct VfRecorder : Recorder {
  virtual void vf_key();
  Fragment ReserveHeaderSpace(ChainedStream&) override;
  void WriteFooter(google::protobuf::io::CodedOutputStream&) override;
  void RecordSpan(Fragment, std::unique_ptr<ChainedStream>&&) noexcept override;
  void RecordSpan(const collector::Span&) noexcept override;
  int64_t ComputeSystemSteadyTimestampDelta() const noexcept override;
  std::chrono::system_clock::time_point ComputeCurrentSystemTimestamp(std::chrono::steady_clock::time_point) const noexcept override;
};
void VfRecorder::vf_key() {}
struct VfContext : LightStepSpanContext {
  virtual void vf_key();
  void ForeachBaggageItem(std::function<bool(const std::string&, const std::string&)>) const override;
  uint64_t trace_id_high() const noexcept override; uint64_t trace_id_low() const noexcept override; uint64_t span_id() const noexcept override; uint8_t trace_flags() const noexcept override; opentracing::string_view trace_state() const noexcept override;
  opentracing::expected<void> Inject(const PropagationOptions&, std::ostream&) const override;
  opentracing::expected<void> Inject(const PropagationOptions&, const opentracing::TextMapWriter&) const override;
  opentracing::expected<void> Inject(const PropagationOptions&, const opentracing::HTTPHeadersWriter&) const override;
};
void VfContext::vf_key() {}
extern "C" {
bool vf_is_sampled(const opentracing::Value& v) { return is_sampled(v); }
void vf_span_destroy(Span& s) { s.~Span(); }
void vf_legacy_destroy(LegacySpan& s) { s.~LegacySpan(); }
}
