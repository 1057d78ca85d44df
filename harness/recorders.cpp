#include "recorder/auto_recorder.h"
#include "recorder/legacy_manual_recorder.h"
using namespace lightstep;
// the collaborators, by contract only
struct VfObserver : MetricsObserver { virtual void vf_key(); void OnSpansSent(int) noexcept override; void OnSpansDropped(int) noexcept override; void OnFlush() noexcept override; };
void VfObserver::vf_key() {}
struct VfError : std::exception { virtual void vf_key(); const char* what() const noexcept override; };
void VfError::vf_key() {}
struct VfLegacy : LegacyAsyncTransporter { virtual void vf_key(); void Send(const google::protobuf::Message&, google::protobuf::Message&, Callback&) override; };
void VfLegacy::vf_key() {}
struct VfSync : SyncTransporter { virtual void vf_key(); opentracing::expected<void> Send(const google::protobuf::Message&, google::protobuf::Message&) override; };
void VfSync::vf_key() {}
struct VfCond : ConditionVariableWrapper {
  virtual void vf_key(); std::chrono::steady_clock::time_point Now() const override;
  bool WaitFor(std::unique_lock<std::mutex>&, const std::chrono::steady_clock::duration&, std::function<bool()>) override;
  bool WaitUntil(std::unique_lock<std::mutex>&, const std::chrono::steady_clock::time_point&, std::function<bool()>) override;
  void NotifyAll() override;
};
void VfCond::vf_key() {}
extern "C" {
void vf_auto_record(AutoRecorder& r, const collector::Span& s) { r.RecordSpan(s); }
void vf_auto_flush(AutoRecorder& r) { r.FlushOne(); }
void vf_auto_exit(AutoRecorder& r) { r.MakeWriterExit(); }
bool vf_auto_wait_flush(AutoRecorder& r) { return r.FlushWithTimeout(std::chrono::system_clock::duration{0}); }
void vf_legacy_record(LegacyManualRecorder& r, const collector::Span& s) { r.RecordSpan(s); }
bool vf_legacy_flush(LegacyManualRecorder& r) { return r.FlushWithTimeout(std::chrono::system_clock::duration{0}); }
void vf_legacy_success(LegacyManualRecorder& r) { r.OnSuccess(); }
void vf_legacy_failure(LegacyManualRecorder& r, std::error_code* e) { r.OnFailure(*e); }
LegacyAsyncTransporter::Callback* vf_legacy_cb(LegacyManualRecorder& r) { return &r; }
}
