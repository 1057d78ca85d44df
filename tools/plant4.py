from plant import plant
from plant2 import STREAMS, HELP, COMMON
S = 'src/recorder/stream_recorder/'
C = 'src/common/'
P = 'src/tracer/propagation/'
EMB = 'src/recorder/serialization/embedded_metrics_message.cpp'
T = 'src/recorder/metrics_tracker.cpp'
PB = '_build/libprotos.a -lprotobuf'

plant('b16-metrics-again', 'C12', [(EMB, '''  buffer_.resize(ComputeEmbeddedMessageSerializationSize(
      collector::ReportRequest::kInternalMetricsFieldNumber, message_size));
''', '''  auto buffer_size = ComputeEmbeddedMessageSerializationSize(
      collector::ReportRequest::kInternalMetricsFieldNumber, message_size);
  if (buffer_.size() < buffer_size) {
    buffer_.resize(buffer_size);
  }
''')], r'''
#include "recorder/serialization/embedded_metrics_message.h"
#include "lightstep-tracer-common/collector.pb.h"
#include <string>
#include <cstdio>
int main() {
  lightstep::EmbeddedMetricsMessage m;
  for (int n : {1, 100000, 2, 70000, 0}) {
    m.set_num_dropped_spans(n); auto f = m.MakeFragment();
    lightstep::collector::ReportRequest r;
    if (!r.ParseFromArray(f.first, f.second) || r.internal_metrics().counts_size() != 1 || r.internal_metrics().counts(0).int_value() != n) { std::printf("the frame for %d dropped spans is not a message\n", n); return 1; }
    if (r.ByteSizeLong() != (size_t)f.second) return 1;
  }
}
''', srcs=[EMB, C + 'protobuf.cpp'], libs=PB, needs='a message framed again with a smaller count on the same object', breaks='bytes of the earlier frame trail behind the new one')

plant('b22-null-function', 'C22', [(C + 'function_ref.h', '''    if (f == nullptr) {
      return BindTo(nullptr);
    }
    callable_ = reinterpret_cast<void*>(f);''', '''    callable_ = reinterpret_cast<void*>(f);''')], r'''
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include "common/function_ref.h"
#include <cstdio>
static int twice(int x) { return 2 * x; }
int main() {
  int (*none)(int) = nullptr; lightstep::FunctionRef<int(int)> f{none}, g{twice}; 
  if (f) { std::puts("a reference made from a null function pointer tests true"); return 1; }
  if (!g || g(4) != 8) return 1;
}
''', needs='a null function pointer', breaks='the reference tests true and calls address zero')

plant('b23-inner-padding', 'C23', [('3rd_party/base64/src/base64.cpp', '''  uint64_t first_padding_index = length;
''', '''  uint64_t first_padding_index = length - 1;
''')], r'''
#include <lightstep/base64/base64.h>
#include <cstdio>
#include <string>
using lightstep::Base64;
int main() {
  for (std::string s : {"QUE*", "QUJDQUE.", "QUJDQUJDQUE\n"}) if (!Base64::decode(s.data(), s.size()).empty()) { std::printf("%s is accepted\n", s.c_str()); return 1; }
  for (std::string s : {"QUI=", "QQ==", "QUJD"}) if (Base64::decode(s.data(), s.size()).empty()) return 1;
}
''', srcs=['3rd_party/base64/src/base64.cpp'], flags='-O1 -I3rd_party/base64/include', needs='text whose very last character is outside the alphabet and the one before has no spare bits', breaks='text outside the alphabet is accepted')

plant('b24-high-half', 'C24', [(C + 'hex_conversion.cpp', '''  if (length <= Num64BitHexDigits) {
    x_high = 0;
''', '''  if (length <= Num64BitHexDigits) {
    if (first == i) {
      x_high = 0;
    }
''')], r'''
#include "common/hex_conversion.h"
#include <cstdio>
int main() {
  uint64_t h = 7, l = 7;
  if (!lightstep::HexToUint128("00000000000000000123456789abcdef", h, l) || h != 0 || l != 0x123456789abcdefULL) { std::puts("the high half is wrong"); return 1; }
}
''', srcs=[C + 'hex_conversion.cpp'], stubs=True, needs='a number with leading zeros which fits in 64 bits, parsed into variables that were used before', breaks='the high half keeps its old value')

plant('b25-short-header', 'C25', [(P + 'trace_context.cpp', '''  if (s.size() < TraceContextLength) {''', '''  if (s.size() + Num8BitHexDigits <= TraceContextLength) {''')], r'''
#include "tracer/propagation/trace_context.h"
#include <cstdio>
#include <cstring>
int main() {
  const char* t = "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"; lightstep::TraceContext c;
  if (!lightstep::ParseTraceContext(opentracing::string_view{t, 55}, c)) return 1;
  for (size_t n = 0; n < 55; ++n) if (lightstep::ParseTraceContext(opentracing::string_view{t, n}, c)) { std::printf("only %zu characters are accepted\n", n); return 1; }
}
''', srcs=[P + 'trace_context.cpp', C + 'hex_conversion.cpp'], stubs=True, needs='a header cut off inside its last field', breaks='bytes behind the text are read and decide about the flags')

plant('b26-chunk-offset', 'C26', [(C + 'report_request_framing.cpp', '''  auto serialization_start = data + (size - header_size);
''', '''  auto serialization_start =
      data + (ReportRequestSpansMaxHeaderSize - header_size);
''')], r'''
#include "common/report_request_framing.h"
#include <cstdio>
#include <cstring>
int main() {
  for (size_t extra = 0; extra < 4; ++extra) { char b[64]; memset(b, 'x', sizeof b); size_t n = lightstep::ReportRequestSpansMaxHeaderSize + extra;
    size_t k = lightstep::WriteReportRequestSpansHeader(b, n, 300);
    const unsigned char* p = (const unsigned char*)b + n - k;
    if (k != 3 || p[0] != 0x1a || p[1] != 0xac || p[2] != 2) { std::printf("with %zu bytes of room: no header in front of the body\n", n); return 1; } }
}
''', srcs=[C + 'report_request_framing.cpp'], stubs=True, libs=PB, needs='a buffer with more room than the largest header', breaks='the header does not end where the body begins')

plant('b27-terminated-twice', 'C27', [(S + 'connection_stream.cpp', '''  if (span_remnant_->empty()) {
    span_stream_.metrics().OnSpansSent(1);
    span_remnant_.reset();
  }
  return result;
}
}  // namespace lightstep''', '''  if (result) {
    span_stream_.metrics().OnSpansSent(1);
    span_remnant_.reset();
  }
  return result;
}
}  // namespace lightstep''')], HELP + r'''
#include "recorder/stream_recorder/connection_stream.h"
static std::string sent; static size_t limit;
static bool writer(std::initializer_list<lightstep::FragmentInputStream*> l) {
  std::string all; for (auto s : l) all += text(*s); size_t n = std::min(limit, all.size()); sent += all.substr(0, n);
  return lightstep::Consume(l, (int)n);
}
int main() {
  struct O : lightstep::MetricsObserver { int sent = 0, dropped = 0; void OnSpansSent(int n) noexcept override { sent += n; } void OnSpansDropped(int n) noexcept override { dropped += n; } } o;
  lightstep::MetricsTracker t{o}; lightstep::CircularBuffer<ChainedStream> b{4}; auto x = make("first span"); b.Add(x);
  lightstep::SpanStream s{b, t}; std::string host = "Host:h\r\n", common = "common";
  lightstep::ConnectionStream c{lightstep::Fragment{&host[0], (int)host.size()}, lightstep::Fragment{&common[0], (int)common.size()}, s};
  size_t header = 0; { limit = 0; c.Flush([&](std::initializer_list<lightstep::FragmentInputStream*> l) { header = text(**l.begin()).size(); return false; }); }
  limit = header + 4; c.Flush(writer);                      // the span is cut off
  c.Shutdown(); limit = 7; c.Flush(writer);                 // its rest is sent, and a part of the terminator
  c.Reset();                                                // the connection breaks
  if (o.sent + o.dropped != 1 || o.sent != 1) { std::printf("one span: sent %d dropped %d\n", o.sent, o.dropped); return 1; }
}
''', srcs=[S + 'connection_stream.cpp', S + 'span_stream.cpp', T, EMB, C + 'protobuf.cpp'] + STREAMS, stubs=True, libs=PB, needs='a shutdown whose write ends between the end of the cut-off span and the end of the terminator, and then a reset', breaks='the span was sent but is counted neither sent nor dropped')

plant('b28-partial-reset', 'C28', [(S + 'status_line_parser.cpp', '''  line_.clear();
  complete_ = false;
''', '''  if (complete_) {
    line_.clear();
  }
  complete_ = false;
''')], r'''
#include "recorder/stream_recorder/status_line_parser.h"
#include <cstdio>
int main() {
  lightstep::StatusLineParser p; p.Parse("HTTP/1.1 40"); p.Reset(); p.Parse("HTTP/1.1 200 OK\r\n");
  if (!p.completed() || p.status_code() != 200 || p.reason() != "OK") { std::printf("status %d\n", p.status_code()); return 1; }
}
''', srcs=[S + 'status_line_parser.cpp'], stubs=True, needs='a reset in the middle of a status line', breaks='the next response is parsed behind the rest of the previous one')

plant('b29-large-span-id', 'C29', [(P + 'cloud_trace_propagator.cpp', '''    if (offset == s.length() || std::isdigit(s[offset]) == 0) {''', '''    if (offset == s.length() || i + 1 == Num64BitDecimalDigits ||
        std::isdigit(s[offset]) == 0) {''')], r'''
#include "tracer/propagation/cloud_trace_propagator.h"
#include <cstdio>
#include <map>
struct W : opentracing::TextMapWriter { std::map<std::string, std::string>& m; explicit W(std::map<std::string, std::string>& x) : m(x) {}
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override { m[std::string(k.data(), k.size())] = std::string(v.data(), v.size()); return {}; } };
struct R : opentracing::TextMapReader { std::map<std::string, std::string>& m; explicit R(std::map<std::string, std::string>& x) : m(x) {}
  opentracing::expected<void> ForeachKey(std::function<opentracing::expected<void>(opentracing::string_view, opentracing::string_view)> f) const override { for (auto& x : m) { auto r = f(x.first, x.second); if (!r) return r; } return {}; } };
int main() {
  for (uint64_t id : {1ULL, 9999999999999999999ULL, 10000000000000000000ULL, 18446744073709551615ULL}) {
    std::map<std::string, std::string> m; lightstep::CloudTracePropagator p; lightstep::TraceContext c{}, d{}; c.trace_id_high = 3; c.trace_id_low = 4; c.parent_id = id; c.trace_flags = 0; std::string state;
    lightstep::BaggageProtobufMap b, e; 
    if (!p.InjectSpanContext(W{m}, c, "", b)) return 1;
    auto r = p.ExtractSpanContext(R{m}, true, d, state, e);
    if (!r || !*r || d.parent_id != id || d.trace_id_high != 3 || d.trace_id_low != 4 || d.trace_flags != 0) { std::printf("span id %llu comes back as %llu\n", (unsigned long long)id, (unsigned long long)d.parent_id); return 1; }
  }
}
''', srcs=[P + 'cloud_trace_propagator.cpp', C + 'hex_conversion.cpp', C + 'utility.cpp', C + 'logger.cpp'], stubs=True, libs=PB, needs='a span id of twenty decimal digits', breaks='the last digit is dropped and the sampling decision is refused')

plant('b30-drops-in-flight', 'C30', [('src/recorder/auto_recorder.cpp', '''      dropped_spans_ += save_dropped + save_pending;''', '''      dropped_spans_ = save_dropped + save_pending;''')], r'''
#include "recorder/auto_recorder.h"
#include <cstdio>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <vector>
using namespace lightstep;
struct T : SyncTransporter {
  std::mutex m; std::condition_variable cv; int calls = 0, allowed = 0; std::vector<long> reported; 
  opentracing::expected<void> Send(const google::protobuf::Message& request, google::protobuf::Message&) override {
    std::unique_lock<std::mutex> l{m}; long n = 0; for (auto& c : static_cast<const collector::ReportRequest&>(request).internal_metrics().counts()) n += c.int_value(); reported.push_back(n);
    int k = ++calls; cv.notify_all(); cv.wait(l, [&] { return allowed >= k; });
    if (k == 1) return opentracing::make_unexpected(std::make_error_code(std::errc::network_down));
    return {};
  }
  void wait(int k) { std::unique_lock<std::mutex> l{m}; cv.wait(l, [&] { return calls >= k; }); }
  void allow(int k) { std::lock_guard<std::mutex> l{m}; allowed = k; cv.notify_all(); }
};
int main() {
  Logger logger; LightStepTracerOptions o; o.access_token = "x"; o.reporting_period = std::chrono::milliseconds{20}; o.max_buffered_spans = size_t{2};
  auto t = new T; AutoRecorder r{logger, std::move(o), std::unique_ptr<SyncTransporter>{t}}; collector::Span s;
  r.RecordSpan(s); t->wait(1);                         // a report with one span is in flight
  for (int i = 0; i < 5; ++i) r.RecordSpan(s);           // two are buffered, three are dropped
  t->allow(1); t->wait(2); long n = t->reported[1]; t->allow(1000);
  if (n != 4) { std::printf("%ld drops reported instead of 4\n", n); return 1; }
}
''', srcs=['src/recorder/auto_recorder.cpp', 'src/recorder/report_builder.cpp', 'src/recorder/transporter.cpp'] + [C + x + '.cpp' for x in ('utility', 'logger', 'timestamp', 'protobuf', 'hex_conversion', 'random', 'platform/utility_unix', 'platform/fork_unix')], stubs=True, libs=PB, needs='spans dropped while a report which fails is in flight', breaks='their count is lost')
