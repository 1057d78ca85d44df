from plant import plant
C = 'src/common/'; T = 'src/tracer/'
PB = '-I3rd_party/base64/include -Wl,--unresolved-symbols=ignore-all _build/libprotos.a -lprotobuf'
SRCS = [T + x + '.cpp' for x in ('legacy/legacy_span', 'lightstep_span_context', 'tag', 'utility', 'serialization', 'propagation/propagation')] + [C + x + '.cpp' for x in ('utility', 'hex_conversion', 'logger', 'random', 'timestamp', 'serialization', 'platform/fork_unix', 'platform/utility_unix')]
REC = r'''
#include "tracer/legacy/legacy_span.h"
#include "common/utility.h"
#include <atomic>
#include <cstdio>
#include <memory>
#include <thread>
#include <vector>
using namespace lightstep;
namespace ot = opentracing;
struct Rec : Recorder {
  std::atomic<int> n{0};
  void RecordSpan(const collector::Span&) noexcept override { ++n; std::this_thread::yield(); }
};
static Logger logger;
static std::unique_ptr<LegacySpan> start(Rec& r, const ot::StartSpanOptions& o) { return std::unique_ptr<LegacySpan>{new LegacySpan{std::shared_ptr<const ot::Tracer>{}, logger, r, "span", o}}; }
'''

plant('b33-finish-race', 'C33', [(T + 'legacy/legacy_span.cpp', '''  if (is_finished_.exchange(true)) {
    return;
  }

  std::lock_guard<std::mutex> lock_guard{mutex_};
  if (!Is''', '''  if (is_finished_) {
    return;
  }

  std::lock_guard<std::mutex> lock_guard{mutex_};
  is_finished_ = true;
  if (!Is''')], REC + r'''
int main() {
  for (int i = 0; i < 20000; ++i) {
    Rec r; auto s = start(r, {}); std::atomic<int> ready{0}; std::vector<std::thread> t;
    for (int k = 0; k < 3; ++k) t.emplace_back([&] { ++ready; while (ready < 3) {} s->FinishWithOptions({}); });
    for (auto& x : t) x.join();
    s.reset();
    if (r.n != 1) { std::printf("a span was recorded %d times\n", int(r.n)); return 1; }
  }
}
''', srcs=SRCS, stubs=True, libs=PB, needs='two threads that finish the same span at the same time', breaks='both pass the test for being finished, and the span is recorded twice')

plant('b34-last-reference-samples', 'C34', [(T + 'legacy/legacy_span.cpp', '''  trace_flags_ |= referenced_context->trace_flags();
''', '''  trace_flags_ = referenced_context->trace_flags();
''')], REC + r'''
int main() {
  Rec r; ot::StartSpanOptions sampled, not_sampled; not_sampled.tags.emplace_back("sampling.priority", 0);
  auto a = start(r, sampled), b = start(r, not_sampled);
  for (int order = 0; order < 2; ++order) {
    ot::StartSpanOptions o; o.references.emplace_back(ot::SpanReferenceType::FollowsFromRef, &(order ? a : b)->context()); o.references.emplace_back(ot::SpanReferenceType::FollowsFromRef, &(order ? b : a)->context());
    auto c = start(r, o);
    if (!c->sampled()) { std::printf("a span that follows from a sampled span is not sampled\n"); return 1; }
  }
}
''', srcs=SRCS, stubs=True, libs=PB, needs='two references, the first sampled and the second not', breaks='the span is not sampled and not recorded')
