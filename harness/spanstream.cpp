#include <new>
#include "recorder/stream_recorder/span_stream.h"
using S = lightstep::SpanStream;
extern "C" {
bool vf_cb(void* callable, void* data, int size);
bool (*vf_get_cb())(void*, void*, int) { return &vf_cb; }
void vf_ctor(void* p, lightstep::CircularBuffer<lightstep::ChainedStream>& b, lightstep::MetricsTracker& m) { new (p) S{b, m}; }
void vf_allot(S& s) { s.Allot(); }
lightstep::ChainedStream* vf_remnant(S& s) { return s.ConsumeRemnant().release(); }
int vf_num(const S& s) { return s.num_fragments(); }
bool vf_foreach(const S& s, lightstep::FragmentInputStream::Callback cb) { return s.ForEachFragment(cb); }
void vf_clear(S& s) { s.Clear(); }
void vf_seek(S& s, int f, int p) { s.Seek(f, p); }
}
