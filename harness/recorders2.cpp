#include "recorder/manual_recorder.h"
#include "recorder/stream_recorder/stream_recorder.h"
using namespace lightstep;
struct VfAsync : AsyncTransporter { virtual void vf_key(); void OnSpanBufferFull() noexcept override; void Send(std::unique_ptr<BufferChain>&&, Callback&) noexcept override; };
void VfAsync::vf_key() {}
extern "C" {
void vf_manual_record(ManualRecorder& r, Fragment* h, std::unique_ptr<ChainedStream>* s) { r.ManualRecorder::RecordSpan(*h, std::move(*s)); }
bool vf_manual_flush(ManualRecorder& r) { return r.ManualRecorder::FlushWithTimeout(std::chrono::system_clock::duration{0}); }
void vf_manual_success(ManualRecorder& r, BufferChain& b) { r.ManualRecorder::OnSuccess(b); }
void vf_manual_failure(ManualRecorder& r, BufferChain& b) { r.ManualRecorder::OnFailure(b); }
void vf_manual_child(ManualRecorder& r) { r.ManualRecorder::OnForkedChild(); }
AsyncTransporter::Callback* vf_manual_cb(ManualRecorder& r) { return &r; }
void vf_manual_reserve(ManualRecorder& r, ChainedStream& s, Fragment* h) { *h = r.ManualRecorder::ReserveHeaderSpace(s); }
void vf_stream_reserve(StreamRecorder& r, ChainedStream& s, Fragment* h) { *h = r.StreamRecorder::ReserveHeaderSpace(s); }
void vf_stream_footer(StreamRecorder& r, google::protobuf::io::CodedOutputStream& s) { r.StreamRecorder::WriteFooter(s); }
void vf_stream_record(StreamRecorder& r, Fragment* h, std::unique_ptr<ChainedStream>* s) { r.StreamRecorder::RecordSpan(*h, std::move(*s)); }
}
