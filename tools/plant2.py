from plant import plant
COMMON = 'src/common/'
STREAMS = [COMMON + 'chained_stream.cpp', COMMON + 'composable_fragment_input_stream.cpp', COMMON + 'fragment_input_stream.cpp', COMMON + 'fragment_array_input_stream.cpp']
HELP = '''
#include "common/chained_stream.h"
#include <memory>
#include <string>
#include <cstring>
#include <cstdio>
using lightstep::ChainedStream;
static std::unique_ptr<ChainedStream> make(const std::string& data) {
  std::unique_ptr<ChainedStream> s(new ChainedStream); size_t at = 0;
  while (at < data.size()) { void* d; int k; s->Next(&d, &k); size_t t = std::min<size_t>(k, data.size() - at); memcpy(d, data.data() + at, t); at += t; if ((int)t < k) s->BackUp(k - (int)t); }
  s->CloseOutput(); return s;
}
template <class S> static std::string text(S& s) { std::string r; s.ForEachFragment([&](void* d, int n) { r.append((char*)d, n); return true; }); return r; }
'''
plant('b07-seek-boundary', 'C09', [('src/recorder/stream_recorder/span_stream.cpp', 'if (fragment_index == 0 && position == 0) {', 'if (fragment_index == 0) {')], HELP + '''
#include "recorder/stream_recorder/span_stream.h"
int main() {
  struct O : lightstep::MetricsObserver {} o; lightstep::MetricsTracker t{o};
  lightstep::CircularBuffer<ChainedStream> b{4};
  auto x = make("first"), y = make("second"); b.Add(x); b.Add(y);
  lightstep::SpanStream s{b, t};
  s.Allot(); s.Seek(1, 3);            // "first" and the bytes "sec" were sent
  if (b.size() != 0) { std::puts("the partially sent span is still in the buffer"); return 1; }
  auto r = s.ConsumeRemnant();
  if (!r || text(*r) != "ond") { std::puts("wrong remnant"); return 1; }
}
''', srcs=['src/recorder/stream_recorder/span_stream.cpp', 'src/recorder/metrics_tracker.cpp'] + STREAMS, libs='-lprotobuf', needs='a write that stops inside the first fragment of a span', breaks='the partially transmitted span stays in the buffer and is sent again from its start')
