from plant import plant
from plant2 import STREAMS, HELP, COMMON
S = 'src/recorder/stream_recorder/'
T = 'src/recorder/metrics_tracker.cpp'
RR = ['src/recorder/serialization/report_request.cpp', 'src/recorder/serialization/embedded_metrics_message.cpp']

plant('b08-add-undo', 'C01', [('src/common/circular_buffer.h', '''        data_[head_index].Swap(ptr);
''', '''        if (expected_head - head < static_cast<int64_t>(capacity_)) {
          data_[head_index].Swap(ptr);
        }
''')], r'''
#include <atomic>
#include <memory>
#include <utility>
#include <cstdio>
// every access to an atomic owning pointer or counter of the buffer may be delayed here: other threads' operations run in between
static int at = -1, count = 0; static void (*delay)() = nullptr;
static void step() { if (delay && count++ == at) { auto d = delay; delay = nullptr; d(); } }
namespace std {
template <class T> struct vf_atomic {
  std::atomic<T> v;
  vf_atomic() : v{} {} constexpr vf_atomic(T x) : v{x} {}
  operator T() const { step(); return v; }
  T operator=(T x) { step(); return v = x; }
  T load(memory_order o = memory_order_seq_cst) const { step(); return v.load(o); }
  void store(T x, memory_order o = memory_order_seq_cst) { step(); v.store(x, o); }
  T exchange(T x, memory_order o = memory_order_seq_cst) { step(); return v.exchange(x, o); }
  template <class... A> bool compare_exchange_weak(T& e, T d, A... a) { step(); return v.compare_exchange_strong(e, d, a...); }
  template <class... A> bool compare_exchange_strong(T& e, T d, A... a) { step(); return v.compare_exchange_strong(e, d, a...); }
  T fetch_add(T x, memory_order o = memory_order_seq_cst) { step(); return v.fetch_add(x, o); }
  T operator+=(T x) { step(); return v += x; }
  T operator++() { step(); return ++v; }
};
}  // namespace std
#include <cassert>
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <algorithm>
#define atomic vf_atomic
#include "common/circular_buffer.h"
#undef atomic
using B = lightstep::CircularBuffer<int>;
static B* b; static int expected = 0, next = 1; static bool good = true;
static void take() { b->Consume(1, [](lightstep::CircularBufferRange<lightstep::AtomicUniquePtr<int>>& r) noexcept { r.ForEach([](lightstep::AtomicUniquePtr<int>& p) noexcept { std::unique_ptr<int> q; p.Swap(q); if (!q) good = false; else if (*q < 100) { if (*q != ++expected) good = false; } return true; }); }); }
static std::unique_ptr<int>* stalled;
static void others() { if (!*stalled) return; for (int i = 0; i < 5; ++i) { std::unique_ptr<int> p{new int{next++}}; if (!b->Add(p)) { good = false; return; } take(); } }
int main() {
  for (at = 0; at < 12; ++at) {
    B buffer{3}; b = &buffer; expected = 0; next = 1; count = 0; delay = others;
    std::unique_ptr<int> p{new int{100}}; stalled = &p;
    bool added = buffer.Add(p); delay = nullptr;
    if (added != (p == nullptr) || buffer.size() != (added ? 1u : 0u)) { std::printf("delayed at access %d: wrong size\n", at); return 1; }
    std::unique_ptr<int> q{new int{next++}}; if (!buffer.Add(q)) { std::puts("refused though not full"); return 1; }
    while (good && buffer.size()) take();
    if (!good) { std::printf("delayed at access %d: an element is lost or out of order\n", at); return 1; }
  }
}
''', needs='a producer delayed between reading the head and putting its element while the buffer wraps around', breaks='the element is put at a stale position and the head moves over an empty slot: elements are lost')

plant('b09-wrapped-stop', 'C03', [('src/common/circular_buffer_range.h', '''    for (auto iter = first2_; iter != last2_; ++iter) {
      if (!callback(*iter)) {
        return false;''', '''    for (auto iter = first2_; iter != last2_; ++iter) {
      if (!callback(*iter)) {
        return iter + 1 == last2_;''')], r'''
#include "common/circular_buffer_range.h"
#include <cassert>
#include <cstdio>
int main() {
  int a[8] = {4, 5, 6, 7, 0, 1, 2, 3};
  for (int split = 0; split < 4; ++split) for (int len = 0; len <= 4; ++len) for (int stop = 0; stop < 4 - split + len; ++stop) {
    lightstep::CircularBufferRange<int> r{a + 8 - (4 - split), a + 8, a, a + len}; int seen = 0;
    if (r.ForEach([&](int&) { return seen++ != stop; }) || seen != stop + 1) { std::puts("an iteration the visitor stopped is reported as complete"); return 1; }
  }
}
''', needs='a visitor which rejects the very last element of a range that wraps around', breaks='the stopped iteration is reported as having run to the end')

plant('b10-seek-twice', 'C04', [('src/common/chained_stream.cpp', '    fragment_position_ += position;', '    fragment_position_ = position;')], HELP + r'''
int main() {
  std::string d(700, 'x'); for (size_t i = 0; i < d.size(); ++i) d[i] = (char)('a' + i % 26);
  auto s = make(d); s->Seek(0, 10); s->Seek(0, 20);
  if (text(*s) != d.substr(30)) { std::puts("wrong bytes after two seeks"); return 1; }
}
''', srcs=STREAMS, libs='-lprotobuf', needs='two short writes ending in the same fragment', breaks='bytes which were read already come again')

plant('b11-append-composed', 'C05', [('src/common/composable_fragment_input_stream.cpp', '''  last_ = stream.get();
  prev_last->Append(std::move(stream));''', '''  last_ = stream.get();
  while (last_->next_ != nullptr && last_->last_ == nullptr) {
    last_ = last_->next_.get();
  }
  prev_last->next_ = std::move(stream);''')], HELP + r'''
int main() {
  auto a = make("a"), c = make("c");
  c->Append(make("d")); c->Append(make("e"));
  a->Append(make("b")); a->Append(std::move(c)); a->Append(make("f"));
  if (text(*a) != "abcdef" || a->num_fragments() != 6) { std::puts(text(*a).c_str()); return 1; }
}
''', srcs=STREAMS, libs='-lprotobuf', needs='appending a composition and then another stream', breaks='the parts of the composition are lost')

plant('b12-reassign', 'C06', [('src/common/fragment_array_input_stream.cpp', '''  fragments_ = fragments;
  fragment_index_ = 0;
  position_ = 0;
''', '''  fragments_ = fragments;
  if (fragment_index_ != 0) {
    fragment_index_ = 0;
    position_ = 0;
  }
''')], r'''
#include "common/fragment_array_input_stream.h"
#include <string>
#include <cstdio>
using namespace lightstep;
int main() {
  FragmentArrayInputStream s{MakeFragment("hello"), MakeFragment("world")};
  s.Seek(0, 2); s = {MakeFragment("again")};
  std::string r; s.ForEachFragment([&](void* d, int n) { r.append((char*)d, n); return true; });
  if (r != "again") { std::puts(r.c_str()); return 1; }
}
''', srcs=STREAMS[2:], needs='a stream assigned anew after a write which stopped inside its first fragment', breaks='the first bytes of the new content are skipped')

plant('b13-consume-last', 'C07', [('src/common/fragment_input_stream.cpp', '''    if (!fragment_input_stream->ForEachFragment(f)) {
      fragment_input_stream->Seek(fragment_index, n);
      return false;
    }
    fragment_input_stream->Clear();
''', '''    if (!fragment_input_stream->ForEachFragment(f)) {
      if (n != 0 || fragment_index != 0) {
        fragment_input_stream->Seek(fragment_index, n);
      }
      return false;
    }
    if (fragment_index != 0 && n == 0) {
      fragment_input_stream->Clear();
      return false;
    }
    fragment_input_stream->Clear();
''')], r'''
#include "common/fragment_array_input_stream.h"
#include <cstdio>
using namespace lightstep;
int main() {
  FragmentArrayInputStream a{MakeFragment("ab"), MakeFragment("cd")}, b{MakeFragment("ef")};
  if (Consume({&a, &b}, 4)) return 1;
  FragmentArrayInputStream c{MakeFragment("ab"), MakeFragment("cd")};
  if (!Consume({&c}, 4) || c.num_fragments() != 0) { std::puts("everything was consumed but it says otherwise"); return 1; }
}
''', srcs=STREAMS[2:], needs='a write which ends exactly at the end of the last stream', breaks='a completed write is reported as incomplete')

plant('b14-blocked-batch', 'C08', [('src/network/vector_write.cpp', '''    if (num_batch_bytes_written < batch_num_bytes) {
      blocked = true;
    }''', '''    if (num_batch_bytes_written == 0) {
      blocked = true;
    }''')], r'''
#include <sys/uio.h>
#include <string>
#include <cstdio>
#include <vector>
#include <algorithm>
static std::string sent; static std::vector<size_t> accept; static size_t calls = 0;
extern "C" ssize_t writev(int, const struct iovec* v, int n) {
  std::string all; for (int i = 0; i < n; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
  size_t k = calls < accept.size() ? std::min(accept[calls], all.size()) : all.size(); ++calls; sent += all.substr(0, k); return (ssize_t)k;
}
#include "network/vector_write.h"
#include "common/fragment_array_input_stream.h"
#include "common/platform/network_environment.h"
using namespace lightstep;
int main() {
  std::string d; for (int i = 0; i < 2600; ++i) d += (char)('a' + i % 26);
  FragmentArrayInputStream s{}; for (size_t i = 0; i < d.size(); i += 2) s.Add(Fragment{&d[i], 2});
  accept = {1001};            // the socket accepts a part of the first batch
  for (int i = 0; i < 10; ++i) if (Write(-1, {&s})) break;
  if (sent != d) { std::puts("bytes were skipped or sent twice"); return 1; }
}
''', srcs=['src/network/vector_write.cpp', 'src/common/platform/network_environment_unix.cpp', 'src/common/platform/network_unix.cpp', 'src/common/platform/error_unix.cpp'] + STREAMS, libs='-lprotobuf', needs='a partial write of a batch which is not the last one', breaks='the next batch is sent although bytes before it were not accepted: bytes are skipped')

plant('b15-request-stop', 'C10', [('src/recorder/serialization/report_request.cpp', '''  if (metrics_ != nullptr) {
    if (!callback(context, metrics_fragment_.first,''', '''  if (metrics_ != nullptr && num_spans_ != 0) {
    if (!callback(context, metrics_fragment_.first,''')], HELP + r'''
#include "recorder/serialization/report_request.h"
int main() {
  lightstep::ReportRequest r{std::make_shared<const std::string>("header"), 3};
  std::string all(static_cast<size_t>(r.num_bytes()), 0); size_t n = 0; int fragments = 0;
  auto f = [&](const void*, size_t k) { n += k; ++fragments; return true; };
  struct C { static bool call(void* c, const void* d, size_t k) { return (*static_cast<decltype(f)*>(c))(d, k); } };
  r.ForEachFragment(&C::call, &f);
  if (n != r.num_bytes() || fragments != (int)r.num_fragments()) { std::puts("the request announces other than it carries"); return 1; }
}
''', srcs=RR + ['src/common/protobuf.cpp'] + STREAMS, libs='_build/libprotos.a -lprotobuf', needs='a report which carries a drop count but no span', breaks='the announced bytes are not enumerated and the drops are not reported')


plant('b17-map-gallop', 'C14', [('src/common/flat_map.h', '''    return std::lower_bound(data_.begin(), data_.end(), key,''', '''    auto first = data_.begin();
    if (data_.size() > 8 && !Comp{}(key, data_[4].first)) {
      first += 5;
    }
    return std::lower_bound(first, data_.end(), key,''')], r'''
#include <algorithm>
#include <functional>
#include <iterator>
#include <utility>
#include <vector>
#include "common/flat_map.h"
#include <string>
#include <cstdio>
int main() {
  lightstep::FlatMap<std::string, int> m; const char* keys[] = {"d", "b", "a", "c", "e", "0", "aa", "z", "y"}; int i = 0;
  for (auto k : keys) { int v = i++; m.insert_or_assign(std::string{k}, std::move(v)); }
  i = 0; for (auto k : keys) { auto x = m.find(std::string{k}); if (x == m.end() || x->second != i++) { std::printf("%s is not found\n", k); return 1; } }
  for (auto k : keys) { int v = i++; m.insert_or_assign(std::string{k}, std::move(v)); }
  for (auto x = m.begin(); x + 1 != m.end(); ++x) if (!(x->first < (x + 1)->first)) { std::puts("out of order or twice"); return 1; }
}
''', needs='a map with more than eight entries and the key of its fifth', breaks='the fifth key is not found and can be inserted twice')

plant('b18-traverser-once', 'C16', [('src/common/random_traverser.cpp', '''    std::swap(indexes_[i], indexes_[distribution(GetRandomNumberGenerator())]);
    if (!callback(indexes_[i])) {
      return false;
    }
''', '''    auto j = distribution(GetRandomNumberGenerator());
    auto index = indexes_[j];
    if (!callback(index)) {
      return false;
    }
    indexes_[j] = indexes_[i];
    if (i + 2 < n_minus_1) {
      indexes_[i] = index;
    }
''')], r'''
#include "common/random_traverser.h"
#include <vector>
#include <cstdio>
int main() {
  for (int n = 0; n < 8; ++n) { lightstep::RandomTraverser t{n};
    for (int round = 0; round < 50; ++round) { std::vector<int> seen(n, 0); t.ForEachIndex([&](int i) { ++seen[i]; return true; }); for (int x : seen) if (x != 1) { std::printf("n = %d, traversal %d: an index visited %d times\n", n, round, x); return 1; } }
  }
}
''', srcs=['src/common/random_traverser.cpp', 'src/common/random.cpp', 'src/common/platform/fork_unix.cpp'], needs='a second traversal with the same object', breaks='indexes are visited twice and others never')

plant('b19-equal-port', 'C17', [('src/network/ip_address.cpp', '''    return std::memcmp(static_cast<const void*>(&lhs.ipv6_address()),
                       static_cast<const void*>(&rhs.ipv6_address()),
                       sizeof(lhs.ipv6_address())) == 0;''', '''    return std::memcmp(static_cast<const void*>(&lhs.ipv6_address().sin6_addr),
                       static_cast<const void*>(&rhs.ipv6_address().sin6_addr),
                       sizeof(lhs.ipv6_address().sin6_addr)) == 0;''')], r'''
#include "network/ip_address.h"
#include <cstdio>
using lightstep::IpAddress;
int main() { if (IpAddress{"::1", 80} == IpAddress{"::1", 443}) { std::puts("equal although the ports differ"); return 1; } if (!(IpAddress{"::1", 80} == IpAddress{"::1", 80})) return 1; }
''', srcs=['src/network/ip_address.cpp'], needs='two IPv6 endpoints on one host', breaks='addresses which differ in the port compare equal')

plant('b20-reuse-failure', 'C18', [('src/network/socket.cpp', '''    oss << "failed to set the socket as reusable: : "
        << GetErrorCodeMessage(GetLastErrorCode());
''', '''    oss << "failed to set the socket as reusable: : "
        << GetErrorCodeMessage(GetLastErrorCode());
    CloseSocket(file_descriptor_);
''')], r'''
#include <sys/socket.h>
#include <unistd.h>
#include <errno.h>
#include <cstdio>
static int closed = 0;
extern "C" int setsockopt(int, int, int, const void*, socklen_t) noexcept { errno = EINVAL; return -1; }
extern "C" int close(int) { ++closed; return 0; }
#include "network/socket.h"
int main() {
  try { lightstep::Socket s = lightstep::Connect(lightstep::IpAddress{"127.0.0.1", 1}); std::puts("no error"); return 1; } catch (const std::exception&) {}
  if (closed != 1) { std::printf("the descriptor was closed %d times\n", closed); return 1; }
}
''', srcs=['src/network/socket.cpp', 'src/network/ip_address.cpp', 'src/common/platform/network_environment_unix.cpp', 'src/common/platform/network_unix.cpp', 'src/common/platform/error_unix.cpp'], needs='the system refusing SO_REUSEADDR', breaks='the descriptor is closed twice')

plant('b21-same-host', 'C19', [(S + 'utility.cpp', '''  std::sort(hosts.begin(), hosts.end(), less_than);
''', '''  if (!std::is_sorted(hosts.begin(), hosts.end(),
                      [](const char* lhs, const char* rhs) {
                        return *lhs < *rhs;
                      })) {
    std::sort(hosts.begin(), hosts.end(), less_than);
  }
''')], r'''
#include "recorder/stream_recorder/utility.h"
#include <cstdio>
#include <string>
#include <strings.h>
int main() {
  std::vector<std::pair<std::string, uint16_t>> e = {{"ab", 1}, {"aa", 2}, {"ab", 3}};
  auto r = lightstep::SeparateEndpoints(e);
  for (size_t i = 0; i < e.size(); ++i) if (r.second[i].first >= (int)r.first.size() || strcasecmp(r.first[r.second[i].first], e[i].first.c_str()) || r.second[i].second != e[i].second) { std::puts("an endpoint has another host"); return 1; }
  for (size_t i = 0; i < r.first.size(); ++i) for (size_t j = 0; j < i; ++j) if (!strcasecmp(r.first[i], r.first[j])) { std::puts("a host comes twice"); return 1; }
}
''', srcs=[S + 'utility.cpp', 'src/common/platform/string_unix.cpp'], needs='hosts with the same first letter, out of order', breaks='equal hosts are not merged and endpoints get another host')
