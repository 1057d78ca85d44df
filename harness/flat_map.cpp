#include "common/flat_map.h"
namespace vf {
struct K { unsigned long v; K(K&&) noexcept; K& operator=(K&&) noexcept; K(const K&); K& operator=(const K&); };
struct V { unsigned long v; V(V&&) noexcept; V& operator=(V&&) noexcept; V(const V&); V& operator=(const V&); };
struct Q { unsigned long v; };
bool operator<(const K&, const K&); bool operator==(const K&, const K&); bool operator!=(const K&, const K&); bool operator>(const K&, const K&); bool operator<=(const K&, const K&); bool operator>=(const K&, const K&);
bool operator<(const K&, const Q&); bool operator==(const K&, const Q&); bool operator<(const Q&, const K&); bool operator==(const Q&, const K&);
struct Less { template <class A, class B> bool operator()(const A& a, const B& b) const { return a < b; } };
}
using M = lightstep::FlatMap<vf::K, vf::V, vf::Less>;
extern "C" {
const void* vf_insert(M& m, vf::K* k, vf::V* v) { return &*m.insert_or_assign(std::move(*k), std::move(*v)); }
const void* vf_find(const M& m, const vf::K* k) { return m.find(*k).base(); }
const void* vf_find_other(const M& m, const vf::Q* k) { return m.find(*k).base(); }
const void* vf_begin(const M& m) { return m.begin().base(); }
const void* vf_end(const M& m) { return m.end().base(); }
bool vf_empty(const M& m) { return m.empty(); }
const void* vf_vector(const M& m) { return &m.as_vector(); }
}
