#include "tracer/propagation/trace_context.h"
using namespace lightstep;
extern "C" {
bool vf_parse(const char* s, size_t n, TraceContext* c) { return static_cast<bool>(ParseTraceContext({s, n}, *c)); }
void vf_serialize(const TraceContext* c, char* s) { SerializeTraceContext(*c, s); }
uint8_t vf_set(uint8_t f, bool v) { return SetTraceFlag<SampledFlagMask>(f, v); }
bool vf_is(uint8_t f) { return IsTraceFlagSet<SampledFlagMask>(f); }
}
