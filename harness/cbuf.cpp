#include <new>
#include "cbuf_item.h"
using CB = lightstep::CircularBuffer<vf::Elem>;
using AUP = lightstep::AtomicUniquePtr<vf::Elem>;
using R = lightstep::CircularBufferRange<AUP>;
using RC = lightstep::CircularBufferRange<const AUP>;
namespace vf {
struct Take { void* state; void operator()(R& r) noexcept; };
}
extern "C" {
bool vf_add(CB& b, std::unique_ptr<vf::Elem>& p) { return b.Add(p); }
void vf_consume(CB& b, size_t n) { b.Consume(n); }
void vf_consume_cb(CB& b, size_t n, vf::Take f) { b.Consume(n, f); }
void vf_peek(const CB& b, RC* out) { *out = b.Peek(); }
void vf_clear(CB& b) { b.Clear(); }
size_t vf_max_size(const CB& b) { return b.max_size(); }
bool vf_empty(const CB& b) { return b.empty(); }
size_t vf_size(const CB& b) { return b.size(); }
int64_t vf_consumed(const CB& b) { return b.consumption_count(); }
int64_t vf_produced(const CB& b) { return b.production_count(); }
void vf_ctor(void* p, size_t n) { new (p) CB{n}; }
void vf_dtor(CB& b) { b.~CB(); }
}
