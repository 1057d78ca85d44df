// What C39 needs beside the sources under contract: classes seen by contract only, and ways in.
#include "recorder/auto_recorder.h"
using namespace lightstep;
struct VfObserver : MetricsObserver { virtual void vf_key(); void OnSpansSent(int) noexcept override; void OnSpansDropped(int) noexcept override; void OnFlush() noexcept override; };
void VfObserver::vf_key() {}
struct VfError : std::exception { virtual void vf_key() const; const char* what() const noexcept override; };
void VfError::vf_key() const {}
const char* VfError::what() const noexcept { return "error"; }
struct VfSync : SyncTransporter { virtual void vf_key(); opentracing::expected<void> Send(const google::protobuf::Message&, google::protobuf::Message&) override; };
void VfSync::vf_key() {}
extern "C" {
ConditionVariableWrapper* vf_standard() { return new StandardConditionVariableWrapper{}; }
void vf_record(AutoRecorder& r, const collector::Span& s) { r.RecordSpan(s); }
bool vf_flush(AutoRecorder& r, int64_t ns) { return r.FlushWithTimeout(std::chrono::system_clock::duration{ns}); }
bool vf_next(AutoRecorder& r, const std::chrono::steady_clock::time_point& t) { return r.WaitForNextWrite(t); }
void vf_write(AutoRecorder& r) { r.Write(); }
void vf_one(AutoRecorder& r) { r.FlushOne(); }
void vf_exit(AutoRecorder& r) { r.MakeWriterExit(); }
}
