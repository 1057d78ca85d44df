#include "recorder/stream_recorder/status_line_parser.h"
#include <new>
template class std::basic_string<char>;      // so that the library's member functions have bodies here
using namespace lightstep;
#include <algorithm>
extern "C" {
const char* vf_find(const char* a, const char* b, char c) { return std::find(a, b, c); }
char* vf_find_line(char* a, char* b, char c) { typedef std::string::iterator I; return std::find(I(a), I(b), c).base(); }
void vf_init(StatusLineParser* p) { new (p) StatusLineParser{}; }
void vf_reset(StatusLineParser* p) { p->Reset(); }
void vf_parse(StatusLineParser* p, const char* s, size_t n) { p->Parse({s, n}); }
bool vf_completed(const StatusLineParser* p) { return p->completed(); }
int vf_status(const StatusLineParser* p) { return p->status_code(); }
void vf_reason(const StatusLineParser* p, const char** s, size_t* n) { auto r = p->reason(); *s = r.data(); *n = r.size(); }
}
