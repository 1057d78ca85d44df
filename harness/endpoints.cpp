#include <new>
#include "recorder/stream_recorder/utility.h"
using In = std::vector<std::pair<std::string, uint16_t>>;
using Out = std::pair<std::vector<const char*>, std::vector<std::pair<int, uint16_t>>>;
extern "C" void vf_separate(const In& in, void* out) { new (out) Out(lightstep::SeparateEndpoints(in)); }
