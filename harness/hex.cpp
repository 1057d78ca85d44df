#include "common/hex_conversion.h"
using namespace lightstep;
extern "C" {
void vf_hex64(uint64_t x, char* o, const char** p, size_t* n) { auto s = Uint64ToHex(x, o); *p = s.data(); *n = s.size(); }
void vf_hex32(uint32_t x, char* o, const char** p, size_t* n) { auto s = Uint32ToHex(x, o); *p = s.data(); *n = s.size(); }
void vf_hex8(uint8_t x, char* o, const char** p, size_t* n) { auto s = Uint8ToHex(x, o); *p = s.data(); *n = s.size(); }
void vf_ser64(HexSerializer* h, uint64_t x, const char** p, size_t* n) { auto s = h->Uint64ToHex(x); *p = s.data(); *n = s.size(); }
void vf_ser128(HexSerializer* h, uint64_t x, uint64_t y, const char** p, size_t* n) { auto s = h->Uint128ToHex(x, y); *p = s.data(); *n = s.size(); }
bool vf_parse64(const char* s, size_t n, uint64_t* x) { auto r = HexToUint64({s, n}); if (r) *x = *r; return static_cast<bool>(r); }
bool vf_parse128(const char* s, size_t n, uint64_t* x, uint64_t* y) { return static_cast<bool>(HexToUint128({s, n}, *x, *y)); }
bool vf_norm8(const char* s, uint8_t* x) { auto r = NormalizedHexToUint8({s, Num8BitHexDigits}); if (r) *x = *r; return static_cast<bool>(r); }
bool vf_norm64(const char* s, uint64_t* x) { auto r = NormalizedHexToUint64({s, Num64BitHexDigits}); if (r) *x = *r; return static_cast<bool>(r); }
bool vf_norm128(const char* s, uint64_t* x, uint64_t* y) { return static_cast<bool>(NormalizedHexToUint128({s, Num128BitHexDigits}, *x, *y)); }
void vf_sizes(size_t* o) { o[0] = Num64BitHexDigits; o[1] = Num128BitHexDigits; o[2] = Num32BitHexDigits; o[3] = Num8BitHexDigits; }
}
