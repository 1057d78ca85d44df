#include <new>
#include "recorder/serialization/report_request.h"
using R = lightstep::ReportRequest;
namespace vf {
struct Chain : lightstep::BufferChain {
  virtual void vf_key();
  size_t num_fragments() const noexcept override;
  size_t num_bytes() const noexcept override;
  bool ForEachFragment(FragmentCallback callback, void* context) const override;
};
void Chain::vf_key() {}
}
extern "C" {
bool vf_cb(void* context, const void* data, size_t size);
bool (*vf_get_cb())(void*, const void*, size_t) { return &vf_cb; }
void vf_ctor(void* p, std::shared_ptr<const std::string>* h, int n) { new (p) R{std::move(*h), n}; }
void vf_add(R& r, std::unique_ptr<lightstep::ChainedStream>* s) { r.AddSpan(std::move(*s)); }
int vf_dropped(const R& r) { return r.num_dropped_spans(); }
int vf_spans(const R& r) { return r.num_spans(); }
size_t vf_fragments(const R& r) { return r.num_fragments(); }
size_t vf_bytes(const R& r) { return r.num_bytes(); }
bool vf_foreach(const R& r, lightstep::BufferChain::FragmentCallback cb, void* context) { return r.ForEachFragment(cb, context); }
void vf_copyout(const lightstep::BufferChain& c, char* data, size_t n) { c.CopyOut(data, n); }
}
