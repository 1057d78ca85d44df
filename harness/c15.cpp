#include "common/random.h"
namespace vf {
struct AbstractSeedSequence { template <class It> void generate(It b, It e) { gen(b, e); } void gen(uint32_t*, uint32_t*); };
}
extern "C" uint64_t vf_next(lightstep::FastRandomNumberGenerator& g) { return g(); }
extern "C" void vf_seed(lightstep::FastRandomNumberGenerator& g, vf::AbstractSeedSequence& s) { g.seed(s); }
extern "C" uint64_t vf_id() { return lightstep::GenerateId(); }
extern "C" long vf_dur_us(long a, long b) { return lightstep::GenerateRandomDuration(std::chrono::microseconds{a}, std::chrono::microseconds{b}).count(); }
extern "C" long vf_dur_ms(long a, long b) { return lightstep::GenerateRandomDuration(std::chrono::milliseconds{a}, std::chrono::milliseconds{b}).count(); }
extern "C" long vf_dur_s(long a, long b) { return lightstep::GenerateRandomDuration(std::chrono::seconds{a}, std::chrono::seconds{b}).count(); }
extern "C" uint64_t vf_min() { return lightstep::FastRandomNumberGenerator::min(); }
extern "C" uint64_t vf_max() { return lightstep::FastRandomNumberGenerator::max(); }
