#include "common/chunked_http_framing.h"
#include "common/report_request_framing.h"
using namespace lightstep;
struct VfStream : google::protobuf::io::ZeroCopyInputStream {
  virtual void vf_key();
  bool Next(const void** data, int* size) override;
  void BackUp(int n) override;
  bool Skip(int n) override;
  int64_t ByteCount() const override;
};
void VfStream::vf_key() {}
extern "C" {
size_t vf_chunk(char* data, size_t size, uint32_t n) { return WriteHttpChunkHeader(data, size, n); }
size_t vf_spans(char* data, size_t size, uint32_t n) { return WriteReportRequestSpansHeader(data, size, n); }
bool vf_read(google::protobuf::io::ZeroCopyInputStream* s, size_t* n) { return ReadChunkHeader(*s, *n); }
void vf_footer(const char** p, size_t* n) { *p = ChunkedHttpFooter.data(); *n = ChunkedHttpFooter.size(); }
VfStream* vf_new() { return new VfStream{}; }
}
