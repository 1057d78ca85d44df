from plant import plant
plant('b01-varint-top-byte', 'C13', [('src/common/direct_coded_output_stream.h', 'if (x >= 0x80) {', 'if (x > 0x80) {')], '''
#include "common/direct_coded_output_stream.h"
#include <cstring>
#include <cstdio>
#include <initializer_list>
int main() {
  for (uint64_t x : {1ull << 63, (1ull << 63) | 5, (1ull << 63) | (1ull << 55), 1ull << 56, ~0ull}) {
    google::protobuf::uint8 a[16] = {0}, b[16] = {0};
    lightstep::DirectCodedOutputStream s{a};
    s.WriteBigVarint64(x);
    auto e = google::protobuf::io::CodedOutputStream::WriteVarint64ToArray(x, b);
    if (s.data() - a != e - b || std::memcmp(a, b, 16) != 0) { std::puts("differs"); return 1; }
  }
}
''', libs='-lprotobuf', needs='a value whose top byte is exactly 0x80 (one in 256 of the random ids with the top bit set)', breaks='the ninth byte carries a continuation bit and no tenth byte follows')
plant('b02-swap-two-steps', 'C02', [('src/common/atomic_unique_ptr.h', '    ptr.reset(ptr_.exchange(ptr.release()));', '    T* current = ptr_.load();\n    ptr_.store(ptr.release());\n    ptr.reset(current);')], '''
#include "common/atomic_unique_ptr.h"
#include <thread>
#include <vector>
#include <cstdio>
static std::atomic<int> live{0};
struct E { E() { ++live; } ~E() { --live; } };
int main() {
  {
    lightstep::AtomicUniquePtr<E> slot;
    std::atomic<int> go{0};
    auto put = [&] { ++go; while (go < 3) {} for (int i = 0; i < 300000; ++i) { std::unique_ptr<E> p{new E}; slot.SwapIfNull(p); } };
    auto take = [&] { ++go; while (go < 3) {} for (int i = 0; i < 300000; ++i) { std::unique_ptr<E> p; slot.Swap(p); } };
    std::thread a{put}, b{take}, c{put};
    a.join(); b.join(); c.join();
  }
  if (live != 0) { std::printf("%d elements lost\\n", (int)live); return 1; }
}
''', flags='-O2', needs='another thread filling the empty slot between the load and the store of a swap', breaks='the element put in that window is overwritten: owned by nobody, never destroyed')
plant('b03-drop-take-race', 'C11', [('src/recorder/metrics_tracker.cpp', '  return num_dropped_spans_.exchange(0);', '  const int num_spans = num_dropped_spans_;\n  num_dropped_spans_ = 0;\n  return num_spans;')], '''
#include "recorder/metrics_tracker.h"
#include <thread>
#include <cstdio>
int main() {
  struct O : lightstep::MetricsObserver {} o;
  for (int r = 0; r < 30; ++r) {
    lightstep::MetricsTracker t{o};
    std::atomic<bool> done{false};
    const int n = 300000;
    std::thread w{[&] { for (int i = 0; i < n; ++i) t.OnSpansDropped(1); done = true; }};
    long got = 0;
    while (!done) got += t.ConsumeDroppedSpans();
    w.join();
    got += t.ConsumeDroppedSpans();
    if (got != n) { std::printf("lost %ld\\n", n - got); return 1; }
  }
}
''', srcs=['src/recorder/metrics_tracker.cpp'], flags='-O2', needs='a drop recorded between the read and the reset', breaks='drops recorded in that window are lost')
plant('b04-xorshift-or', 'C15', [('src/common/fast_random_number_generator.h', 't ^= t >> 17;        // b', 't |= t >> 17;        // b')], '''
#include "common/fast_random_number_generator.h"
#include <cstdio>
struct S { uint32_t v[4]; void generate(uint32_t* b, uint32_t* e) { for (int i = 0; b != e; ++b, ++i) *b = v[i]; } };
int main() {
  S s{{1u << 3, 7, 9, 11}};
  lightstep::FastRandomNumberGenerator g; g.seed(s);
  uint64_t a = (uint64_t(7) << 32) | 8, b = (uint64_t(11) << 32) | 9;
  for (int i = 0; i < 100; ++i) {
    uint64_t t = a, u = b; a = u; t ^= t << 23; t ^= t >> 17; t ^= u ^ (u >> 26); b = t;
    if (g() != t + u) { std::puts("differs from xorshift128+"); return 1; }
  }
}
''', needs='any state; visible only against the reference recurrence', breaks='the step is no longer a bijection: states merge and ids repeat earlier')
plant('b05-spin-relaxed', 'C21', [('src/common/spin_lock_mutex.h', 'locked_.test_and_set(std::memory_order_acquire)', 'locked_.test_and_set(std::memory_order_relaxed)')], '''
#include "common/spin_lock_mutex.h"
#include <thread>
int main() {
  lightstep::SpinLockMutex m; long n = 0;
  auto f = [&] { for (int i = 0; i < 20000; ++i) { m.lock(); ++n; m.unlock(); } };
  std::thread a{f}, b{f}; a.join(); b.join();
  return n == 40000 ? 0 : 1;
}
''', flags='-O1 -fsanitize=thread', needs='a weakly ordered machine or compiler reordering (shown with the thread sanitizer)', breaks='writes before an unlock are not ordered before reads after the next lock')
plant('b06-steady-delta', 'C20', [('src/common/timestamp.cpp', '      ComputeNanosecondsSinceEpoch(system_timestamp) - timestamp_delta};', '      static_cast<int64_t>(static_cast<double>(ComputeNanosecondsSinceEpoch(system_timestamp))) - timestamp_delta};')], '''
#include <initializer_list>
#include "common/timestamp.h"
#include <cstdio>
int main() {
  using namespace std::chrono;
  for (int64_t k : {int64_t(1), int64_t(1600000000123456789ll), int64_t((1ll << 53) + 1)}) {
    system_clock::time_point t{nanoseconds{k}};
    auto s = lightstep::ToSteadyTimestamp(12345, t);
    if (lightstep::ToSystemTimestamp(12345, s) != t) { std::puts("not inverse"); return 1; }
  }
}
''', srcs=['src/common/timestamp.cpp'], needs='timestamps that are not representable in a double (present-day nanosecond clocks)', breaks='converting back loses up to 128 ns')
