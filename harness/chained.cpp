#include <new>
#include "common/chained_stream.h"
#include "common/composable_fragment_input_stream.h"
namespace vf {
// stands for every implementation of a part: its operations are given by contract
struct Part : lightstep::ComposableFragmentInputStream {
  virtual void vf_key();
  int segment_num_fragments() const noexcept override;
  bool SegmentForEachFragment(Callback callback) const noexcept override;
  void SegmentClear() noexcept override;
  void SegmentSeek(int fragment_index, int position) noexcept override;
};
void Part::vf_key() {}
}
using C = lightstep::ComposableFragmentInputStream;
using S = lightstep::ChainedStream;
extern "C" {
bool vf_cb(void* callable, void* data, int size);
bool (*vf_get_cb())(void*, void*, int) { return &vf_cb; }
void vf_c_append(C& c, std::unique_ptr<C>& s) { c.Append(std::move(s)); }
int vf_c_num(C& c) { return c.num_fragments(); }
bool vf_c_foreach(const C& c, C::Callback cb) { return c.ForEachFragment(cb); }
void vf_c_clear(C& c) { c.Clear(); }
void vf_c_seek(C& c, int f, int p) { c.Seek(f, p); }
void vf_s_ctor(S* s) { new (s) S{}; }
void vf_s_close(S& s) { s.CloseOutput(); }
bool vf_s_next(S& s, void** d, int* n) { return s.Next(d, n); }
void vf_s_backup(S& s, int n) { s.BackUp(n); }
long vf_s_bytes(S& s) { return s.ByteCount(); }
int vf_s_num(S& s) { return s.segment_num_fragments(); }
bool vf_s_foreach(const S& s, S::Callback cb) { return s.SegmentForEachFragment(cb); }
void vf_s_clear(S& s) { s.SegmentClear(); }
void vf_s_seek(S& s, int f, int p) { s.SegmentSeek(f, p); }
}
