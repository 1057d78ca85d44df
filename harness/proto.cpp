#include <new>
#include "common/protobuf.h"
#include "recorder/serialization/embedded_metrics_message.h"
namespace vf {
struct Msg : google::protobuf::Message {
  virtual void vf_key();
  Message* New(google::protobuf::Arena* arena) const override;
  google::protobuf::Metadata GetMetadata() const override;
  int GetCachedSize() const override;
  size_t ByteSizeLong() const override;
  uint8_t* _InternalSerialize(uint8_t*, google::protobuf::io::EpsCopyOutputStream*) const override;
  bool IsInitialized() const override;
  void Clear() override;
};
void Msg::vf_key() {}
}
using E = lightstep::EmbeddedMetricsMessage;
extern "C" {
void vf_write(google::protobuf::io::CodedOutputStream& s, uint32_t field, const google::protobuf::Message& m) { lightstep::WriteEmbeddedMessage(s, field, m); }
void vf_write_sized(google::protobuf::io::CodedOutputStream& s, uint32_t field, size_t n, const google::protobuf::Message& m) { lightstep::WriteEmbeddedMessage(s, field, n, m); }
size_t vf_size(uint32_t field, const google::protobuf::Message& m) { return lightstep::ComputeEmbeddedMessageSerializationSize(field, m); }
size_t vf_size_sized(uint32_t field, size_t n) { return lightstep::ComputeEmbeddedMessageSerializationSize(field, n); }
void vf_ctor(void* p) { new (p) E{}; }
void vf_set(const E& e, int n) { e.set_num_dropped_spans(n); }
int vf_get(const E& e) { return e.num_dropped_spans(); }
void vf_make(E& e, std::pair<void*, int>* out) { *out = e.MakeFragment(); }
}
