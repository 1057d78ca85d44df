#include <new>
#include <lightstep/base64/base64.h>
using lightstep::Base64;
extern "C" {
void vf_encode(const char* input, uint64_t length, void* out) { new (out) std::string(Base64::encode(input, length)); }
void vf_decode(const char* input, uint64_t length, void* out) { new (out) std::string(Base64::decode(input, length)); }
}
