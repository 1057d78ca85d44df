#include <initializer_list>
#include <new>
#include "common/fragment_array_input_stream.h"
#include "common/fragment_input_stream.h"
namespace vf {
// stands for every implementation of the interface: its operations are given by contract
struct Stream : lightstep::FragmentInputStream {
  virtual void vf_key();
  int num_fragments() const noexcept override;
  bool ForEachFragment(Callback callback) const noexcept override;
  void Clear() noexcept override;
  void Seek(int fragment_index, int position) noexcept override;
};
void Stream::vf_key() {}
}
extern "C" {
bool vf_cb(void* callable, void* data, int size);
bool (*vf_get_cb())(void*, void*, int) { return &vf_cb; }
bool vf_callable(void*, int);
bool vf_fa_foreach(const lightstep::FragmentArrayInputStream& s, lightstep::FragmentInputStream::Callback cb) { return s.ForEachFragment(cb); }
int vf_fa_num(const lightstep::FragmentArrayInputStream& s) { return s.num_fragments(); }
bool vf_fa_empty(const lightstep::FragmentArrayInputStream& s) { return s.empty(); }
void vf_fa_clear(lightstep::FragmentArrayInputStream& s) { s.Clear(); }
void vf_fa_seek(lightstep::FragmentArrayInputStream& s, int i, int p) { s.Seek(i, p); }
void vf_fa_add(lightstep::FragmentArrayInputStream& s, void* p, int n) { s.Add(lightstep::Fragment{p, n}); }
void vf_fa_reserve(lightstep::FragmentArrayInputStream& s, size_t n) { s.Reserve(n); }
void vf_fa_assign(lightstep::FragmentArrayInputStream& s, std::initializer_list<lightstep::Fragment> l) { s = l; }
void vf_fa_ctor(lightstep::FragmentArrayInputStream* s) { new (s) lightstep::FragmentArrayInputStream{}; }
void vf_fa_ctor_list(lightstep::FragmentArrayInputStream* s, std::initializer_list<lightstep::Fragment> l) { new (s) lightstep::FragmentArrayInputStream(l); }
}
