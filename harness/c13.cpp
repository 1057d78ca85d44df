// verification entry point: instantiates the real inline code
#include "common/direct_coded_output_stream.h"
extern "C" void vf_write_big_varint64(lightstep::DirectCodedOutputStream& s, uint64_t x) { lightstep::WriteBigVarint64(s, x); }
