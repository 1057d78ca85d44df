#include <new>
#include "recorder/stream_recorder/connection_stream.h"
using C = lightstep::ConnectionStream;
extern "C" {
bool vf_writer(void* callable, std::initializer_list<lightstep::FragmentInputStream*> list);
bool (*vf_get_writer())(void*, std::initializer_list<lightstep::FragmentInputStream*>) { return &vf_writer; }
void vf_ctor(void* p, lightstep::Fragment* host, lightstep::Fragment* common, lightstep::SpanStream& s) { new (p) C{*host, *common, s}; }
bool vf_flush(C& c, C::Writer w) { return c.Flush(w); }
void vf_reset(C& c) { c.Reset(); }
void vf_shutdown(C& c) { c.Shutdown(); }
bool vf_shutting_down(const C& c) { return c.shutting_down(); }
bool vf_completed(const C& c) { return c.completed(); }
int vf_first(const C& c) { return c.first_chunk_position(); }
void vf_chain(void* p) { new (p) lightstep::ChainedStream{}; }
lightstep::FragmentInputStream* vf_stream(lightstep::ChainedStream* s) { return s; }
}
