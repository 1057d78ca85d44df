#include <cstddef>
#include "range_item.h"
namespace vf {
struct Visit { void* state; bool operator()(Item& e) noexcept; };
struct VisitC { void* state; bool operator()(const Item& e) noexcept; };
}
using R = lightstep::CircularBufferRange<vf::Item>;
using RC = lightstep::CircularBufferRange<const vf::Item>;
extern "C" {
bool vf_r_foreach(const R& r, vf::Visit v) { return r.ForEach(v); }
bool vf_rc_foreach(const RC& r, vf::VisitC v) { return r.ForEach(v); }
size_t vf_r_size(const R& r) { return r.size(); }
bool vf_r_empty(const R& r) { return r.empty(); }
void vf_r_take(R* out, const R& r, size_t n) { *out = r.Take(n); }
void vf_r_const(RC* out, const R& r) { *out = static_cast<RC>(r); }
void vf_r_make(R* out, vf::Item* a, vf::Item* b, vf::Item* c, vf::Item* d) { *out = R{a, b, c, d}; }
void vf_r_default(R* out) { *out = R{}; }
}
