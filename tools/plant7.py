from plant import plant
from plant6 import C, T, PB, REC, SRCS
S = 'src/recorder/stream_recorder/'; N = 'src/network/'

plant('b35-half-equal', 'C35', [(T + 'lightstep_span_context.cpp', '''         extract_baggage(lhs) == extract_baggage(rhs);
''', '''         same_baggage();
'''), (T + 'lightstep_span_context.cpp', '''    return baggage;
  };
''', '''    return baggage;
  };
  auto same_baggage = [&] {
    auto baggage = extract_baggage(lhs);
    auto result = true;
    rhs.ForeachBaggageItem(
        [&](const std::string& key, const std::string& value) {
          auto item = baggage.find(key);
          result = item != baggage.end() && item->second == value;
          return result;
        });
    return result;
  };
''')], r'''
#include "tracer/immutable_span_context.h"
#include <cstdio>
#include <memory>
using namespace lightstep;
static std::unique_ptr<ImmutableSpanContext> make(int n) {
  BaggageProtobufMap b; for (int i = 0; i < n; ++i) b[std::string(1, static_cast<char>('a' + i))] = "v";
  TraceContext t{}; t.trace_id_high = 1; t.trace_id_low = 2; t.parent_id = 3; t.trace_flags = 1;
  return std::unique_ptr<ImmutableSpanContext>{new ImmutableSpanContext{t, std::string{}, std::move(b)}};
}
int main() {
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j)
    if ((*make(i) == *make(j)) != (i == j)) { std::printf("contexts with %d and %d baggage items\n", i, j); return 1; }
}
''', srcs=SRCS + [T + 'immutable_span_context.cpp'], stubs=True, libs=PB, needs='two contexts, the first with all the baggage of the second and more', breaks='they compare equal, though only in one order')

NET = [N + x + '.cpp' for x in ('event', 'event_base', 'timer_event', 'ip_address', 'socket', 'vector_write')]
STREAM = [S + x + '.cpp' for x in ('satellite_streamer', 'satellite_connection', 'satellite_endpoint_manager', 'satellite_dns_resolution_manager', 'connection_stream', 'span_stream', 'fragment_span_input_stream', 'embedded_metrics_message', 'host_header', 'status_line_parser', 'utility')]
COMMON = [C + x + '.cpp' for x in ('chained_stream', 'fragment_input_stream', 'fragment_array_input_stream', 'composable_fragment_input_stream', 'serialization', 'protobuf', 'serialization_chain', 'logger', 'random', 'random_traverser', 'utility', 'timestamp', 'hex_conversion', 'platform/fork_unix', 'platform/utility_unix', 'platform/error_unix', 'platform/network_unix', 'platform/time_unix', 'platform/string_unix', 'platform/memory_unix')]
REST = ['src/recorder/metrics_tracker.cpp', 'src/recorder/serialization/report_request_header.cpp', 'src/recorder/serialization/embedded_metrics_message.cpp', T + 'serialization.cpp', T + 'tag.cpp']
import os
ALL = [x for x in NET + STREAM + COMMON + REST if os.path.exists('/repo/' + x)]
SAT = r'''
#include "network/dns_resolver.h"
#include "network/timer_event.h"
#include "recorder/stream_recorder/satellite_streamer.h"
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace lightstep;
// a resolver that knows one address
struct Answer : DnsResolution { bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override { return f(IpAddress{"127.0.0.1"}); } };
struct None : DnsResolution { bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>&) const override { return true; } };
struct Query { DnsResolutionCallback* cb; int family; };
static void answer(int, short, void* q) { auto* p = static_cast<Query*>(q); Answer a; None n; if (p->family == AF_INET) p->cb->OnDnsResolution(a, opentracing::string_view{}); else p->cb->OnDnsResolution(n, opentracing::string_view{}); delete p; }
struct Resolver : DnsResolver { EventBase& b; explicit Resolver(EventBase& b) : b(b) {} void Resolve(const char*, int family, DnsResolutionCallback& cb) noexcept override { b.OnTimeout(std::chrono::microseconds{1000}, answer, new Query{&cb, family}); } };
namespace lightstep { std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase& b, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new Resolver{b}}; } }
static int listen_on(int& port) {
  int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof(a);
  if (bind(s, reinterpret_cast<sockaddr*>(&a), n) != 0 || listen(s, 16) != 0 || getsockname(s, reinterpret_cast<sockaddr*>(&a), &n) != 0) { std::printf("no server\n"); _exit(8); }
  port = ntohs(a.sin_port); return s;
}
static int take(int s, int ms) { pollfd p{s, POLLIN, 0}; return poll(&p, 1, ms) == 1 ? accept(s, nullptr, nullptr) : -1; }
static std::string some(int fd, int ms, size_t want) { std::string r; char b[512]; pollfd p{fd, POLLIN, 0}; while (r.size() < want && poll(&p, 1, ms) == 1) { ssize_t n = read(fd, b, sizeof(b)); if (n <= 0) break; r.append(b, static_cast<size_t>(n)); } return r; }
static void stop(int, short, void* b) { static_cast<EventBase*>(b)->LoopBreak(); }
struct World {
  Logger logger; EventBase base; LightStepTracerOptions topt; StreamRecorderOptions ropt; std::unique_ptr<MetricsObserver> mo{new MetricsObserver}; MetricsTracker metrics{*mo}; CircularBuffer<ChainedStream> spans{16}; std::unique_ptr<SatelliteStreamer> streamer;
  explicit World(int port) { topt.satellite_endpoints = {{"localhost", static_cast<uint16_t>(port)}}; ropt.num_satellite_connections = 1; ropt.satellite_failure_retry_period = std::chrono::microseconds{50000}; }
  void run(int ms) { base.OnTimeout(std::chrono::microseconds{ms * 1000}, stop, &base); base.Dispatch(); }
};
'''

plant('b36-stale-stream', 'C36', [(S + 'satellite_connection.cpp', '''  writable_ = false;
  connection_stream_.Reset();
''', '''  writable_ = false;
'''), (S + 'satellite_connection.cpp', '''SatelliteConnection::Reconnect() noexcept try {
  FreeSocket();
''', '''SatelliteConnection::Reconnect() noexcept try {
  FreeSocket();
  connection_stream_.Reset();
''')], SAT + r'''
int main() {
  int port, s = listen_on(port), bad = 0;
  std::thread satellite{[&] {
    for (int i = 0; i < 4; ++i) {                                      // a satellite that hangs up in the middle
      int fd = take(s, 5000); if (fd < 0) { std::printf("no connection %d\n", i); ++bad; break; }
      std::string got = some(fd, 2000, 5); if (got.compare(0, 5, "POST ") != 0) { std::printf("connection %d does not start with a request: \"%s\"\n", i, got.substr(0, 5).c_str()); ++bad; }
      close(fd);
    }
    close(s);
  }};
  { World w{port}; w.streamer.reset(new SatelliteStreamer{w.logger, w.base, w.topt, w.ropt, w.metrics, w.spans}); w.run(3000); }
  satellite.join(); return bad != 0;
}
''', srcs=ALL, stubs='all', libs=PB + ' -levent', needs='a satellite that closes a connection in the middle of a stream', breaks='the next connection goes on where the old one was cut off: no request header is sent')

# ---- C37
plant('b37-failed-refresh-forgets', 'C37', [(S + 'satellite_dns_resolution_manager.cpp', '''  std::vector<IpAddress> ip_addresses;
  ip_addresses.reserve(ip_addresses_.size());
''', '''  std::vector<IpAddress> ip_addresses{std::move(ip_addresses_)};
  bool first_resolution = ip_addresses.empty();
  ip_addresses.clear();
'''), (S + 'satellite_dns_resolution_manager.cpp', '''  bool first_resolution = ip_addresses_.empty();
''', '')], SAT.replace('answer(int, short, void* q)', 'answer0(int, short, void* q)').replace('struct Resolver', r'''
static int answers = 0;
static void answer(int, short, void* q) {       // found at first; the refresh finds nothing
  auto* p = static_cast<Query*>(q); Answer a; None n;
  if (p->family == AF_INET && answers++ == 0) p->cb->OnDnsResolution(a, opentracing::string_view{}); else p->cb->OnDnsResolution(n, opentracing::string_view{});
  delete p;
}
struct Resolver''').replace('static void answer0', 'void answer0') + r'''
int main() {
  Logger logger; EventBase base; int ready = 0; StreamRecorderOptions o; o.min_dns_resolution_refresh_period = o.max_dns_resolution_refresh_period = std::chrono::microseconds{20000}; o.dns_failure_retry_period = std::chrono::microseconds{1000000};
  SatelliteDnsResolutionManager m{logger, base, o, AF_INET, "satellite", [&ready] { ++ready; }};
  m.Start(); base.OnTimeout(std::chrono::microseconds{200000}, stop, &base); base.Dispatch();
  if (answers != 2 || ready != 1 || m.ip_addresses().size() != 1) { std::printf("%d answers, ready %d times, %d addresses are left after a refresh that found none\n", answers, ready, static_cast<int>(m.ip_addresses().size())); return 1; }
  return 0;
}
''', srcs=ALL, stubs='all', libs=PB + ' -levent', needs='a refresh of a name whose answer is empty (or fails on the way) after a good answer', breaks='the addresses known before are forgotten: with no other host an endpoint is requested that has none')

# ---- C38
plant('b38-one-waiter', 'C38', [(S + 'stream_recorder.cpp', '''    flush_condition_variable_.notify_all();
  }

  if (shutdown''', '''    flush_condition_variable_.notify_one();
  }

  if (shutdown''')], SAT + r'''
#include "recorder/stream_recorder/stream_recorder.h"
#include <chrono>
#include <thread>
int main() {
  LightStepTracerOptions o; StreamRecorderOptions ro; ro.throw_away_spans = true; ro.polling_period = std::chrono::milliseconds{300}; o.reporting_period = std::chrono::hours{1}; Logger logger; int late = 0;
  StreamRecorder r{logger, std::move(o), std::move(ro)};
  for (int round = 0; round < 3; ++round) {
    std::unique_ptr<ChainedStream> s{new ChainedStream}; void* d; int n; s->Next(&d, &n); s->BackUp(n - 1); s->CloseOutput(); r.span_buffer().Add(s);
    std::thread t[3]; std::chrono::steady_clock::duration took[3]; bool ok[3];
    for (int i = 0; i < 3; ++i) t[i] = std::thread{[&, i] { auto t0 = std::chrono::steady_clock::now(); ok[i] = r.FlushWithTimeout(std::chrono::seconds{20}); took[i] = std::chrono::steady_clock::now() - t0; }};
    for (auto& x : t) x.join();
    for (int i = 0; i < 3; ++i) if (!ok[i] || took[i] > std::chrono::seconds{15}) { std::printf("round %d: waiter %d came back %s after %d ms\n", round, i, ok[i] ? "true" : "false", static_cast<int>(std::chrono::duration_cast<std::chrono::milliseconds>(took[i]).count())); late = 1; }
    if (late) return 1;
  }
}
''', srcs=ALL + [S + 'stream_recorder.cpp', S + 'stream_recorder_impl.cpp', 'src/recorder/fork_aware_recorder.cpp', C + 'platform/network_environment_unix.cpp', C + 'chunked_http_framing.cpp', C + 'report_request_framing.cpp'], stubs='all', libs=PB + ' -levent -lpthread', needs='two or more threads waiting for the same flush', breaks='only one of them is woken when the spans have left; the others wait until their timeout')

# ---- C39
plant('b39-flush-behind-inflight', 'C39', [('src/recorder/auto_recorder.cpp', '''  size_t wait_seq = encoding_seqno_ - (has_encoded ? 0 : 1);
''', '''  size_t wait_seq = flushed_seqno_ + 1;
''')], r'''
#include "recorder/auto_recorder.h"
#include <atomic>
#include <cstdio>
#include <thread>
using namespace lightstep;
static std::atomic<int> entered{0}, may{0};
struct Slow : SyncTransporter {
  opentracing::expected<void> Send(const google::protobuf::Message&, google::protobuf::Message&) override { int k = ++entered; while (may < k) std::this_thread::sleep_for(std::chrono::milliseconds{1}); return {}; }
};
static bool until(const std::atomic<int>& x, int n) { for (int i = 0; i < 20000 && x < n; ++i) std::this_thread::sleep_for(std::chrono::milliseconds{1}); return x >= n; }
int main() {
  Logger logger; LightStepTracerOptions o; o.access_token = "t"; o.max_buffered_spans = size_t{100}; o.reporting_period = std::chrono::milliseconds{20}; int bad = 0;
  AutoRecorder r{logger, std::move(o), std::unique_ptr<SyncTransporter>{new Slow}}; collector::Span s; std::atomic<int> back{0}; bool ok = false; int sent = -1;
  r.RecordSpan(s); if (!until(entered, 1)) { std::printf("nothing is reported\n"); may = 100; return 2; }
  r.RecordSpan(s);                                                 // while the first is on its way
  std::thread t{[&] { ok = r.FlushWithTimeout(std::chrono::seconds{60}); sent = may; ++back; }};
  std::this_thread::sleep_for(std::chrono::milliseconds{100}); may = 1; until(entered, 2); std::this_thread::sleep_for(std::chrono::milliseconds{300});
  if (back) { std::printf("the flush came back (%d) before the second span was sent\n", ok); bad = 1; }
  may = 100; t.join(); if (!ok) { std::printf("the flush failed\n"); bad = 1; }
  return bad;
}
''', srcs=[x for x in dict.fromkeys([y for y in ALL if '/stream_recorder/' not in y and '/network/' not in y] + ['src/recorder/auto_recorder.cpp', 'src/recorder/report_builder.cpp', 'src/recorder/transporter.cpp', C + 'report_request_framing.cpp'])], stubs='all', libs=PB + ' -lpthread', needs='a span recorded and flushed while a report is on its way', breaks='the flush is reported complete when that earlier report is done')

plant('b40-write-or-read', 'C40', [(N + 'ares_dns_resolver/ares_dns_resolver.cpp', '''    options |= EV_READ;
  }
  if (write == 1) {
''', '''    options |= EV_READ;
  } else if (write == 1) {
''')], r'''
#include "network/dns_resolver.h"
#include "network/event_base.h"
#include <arpa/inet.h>
#include <chrono>
#include <cstdio>
#include <event2/event.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace lightstep;
static std::string u16(unsigned x) { return std::string{(char)(x >> 8), (char)x}; }
static std::string reply(std::string q, bool cut) {               // one address, or: too long for a datagram
  size_t e = 12; while (q[e]) e += 1 + (unsigned char)q[e]; e += 5; q.resize(e); q[2] |= (char)(0x80 | (cut ? 2 : 0)); q[3] = (char)0x80; q[5] = 1; q[6] = 0; q[7] = cut ? 0 : 1; for (int i = 8; i < 12; ++i) q[i] = 0;
  return cut ? q : q + u16(0xc00c) + u16(1) + u16(1) + u16(0) + u16(60) + u16(4) + std::string("\x0a\x00\x00\x07", 4);
}
static int udp, tcp, datagrams, streams;
struct Callback : DnsResolutionCallback {
  int n = 0, addresses = 0; std::string error;
  void OnDnsResolution(const DnsResolution& r, opentracing::string_view e) noexcept override { ++n; error.assign(e.data(), e.size()); r.ForeachIpAddress([&](const IpAddress&) { ++addresses; return true; }); }
};
int main() {
  Logger logger{[](LogLevel, opentracing::string_view) {}}; EventBase base; auto b = const_cast<event_base*>(base.libevent_handle()); sockaddr_in a{}; socklen_t n = sizeof a; bool ok = false;
  for (int i = 0; i < 50 && !ok; ++i) {
    udp = socket(AF_INET, SOCK_DGRAM, 0); tcp = socket(AF_INET, SOCK_STREAM, 0); a = sockaddr_in{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    ok = bind(udp, (sockaddr*)&a, n) == 0 && getsockname(udp, (sockaddr*)&a, &n) == 0 && bind(tcp, (sockaddr*)&a, n) == 0 && listen(tcp, 8) == 0; if (!ok) { close(udp); close(tcp); }
  }
  if (!ok) return 2;
  auto eu = event_new(b, udp, EV_READ | EV_PERSIST, [](evutil_socket_t, short, void*) { char buf[2000]; sockaddr_in f; socklen_t l = sizeof f; ssize_t n = recvfrom(udp, buf, sizeof buf, 0, (sockaddr*)&f, &l); if (n < 17) return; ++datagrams; auto x = reply(std::string(buf, n), true); sendto(udp, x.data(), x.size(), 0, (sockaddr*)&f, l); }, nullptr);
  auto et = event_new(b, tcp, EV_READ | EV_PERSIST, [](evutil_socket_t, short, void* b) { int c = accept(tcp, nullptr, nullptr); if (c < 0) return; event_base_once((event_base*)b, c, EV_READ, [](evutil_socket_t c, short, void*) { char buf[2000]; ssize_t n = recv(c, buf, sizeof buf, 0); if (n < 19) return; ++streams; auto x = reply(std::string(buf + 2, n - 2), false); x = u16(x.size()) + x; if (send(c, x.data(), x.size(), MSG_NOSIGNAL) < 0) return; }, nullptr, nullptr); }, b);
  event_add(eu, nullptr); event_add(et, nullptr); Callback callback;
  { DnsResolverOptions o; in_addr lo; lo.s_addr = htonl(INADDR_LOOPBACK); o.resolution_servers.push_back(lo); o.resolution_server_port = ntohs(a.sin_port); o.timeout = std::chrono::milliseconds{2500};
    auto resolver = MakeDnsResolver(logger, base, o); resolver->Resolve("many.test.", AF_INET, callback); auto end = std::chrono::steady_clock::now() + std::chrono::seconds{60};
    while (!callback.n && std::chrono::steady_clock::now() < end) { timeval tv{0, 20000}; event_base_loopexit(b, &tv); event_base_dispatch(b); } }
  event_free(eu); event_free(et);
  if (callback.n != 1 || !callback.error.empty() || callback.addresses != 1) { std::printf("answered %d times, %d addresses, error '%s' (%d datagrams, %d streams)\n", callback.n, callback.addresses, callback.error.c_str(), datagrams, streams); return 1; }
}
''', srcs=[x for x in dict.fromkeys([y for y in ALL if '/stream_recorder/' not in y and '/recorder/' not in y] + [N + 'ares_dns_resolver/ares_dns_resolver.cpp', N + 'ares_dns_resolver/ares_library_handle.cpp'])], stubs='all', libs=PB + ' -levent -lcares', needs='an answer too long for a datagram, which c-ares fetches over tcp', breaks='the question is never sent over tcp: the query times out, although the server answers')

plant('b41-envoy-alone', 'C41', [('src/tracer/propagation/propagation_options.cpp', """    if (propagation_mode == PropagationMode::envoy) {
""", """    if (propagation_mode == PropagationMode::envoy &&
        inject_propagation_modes.size() == propagation_modes.size()) {
""")], r'''
#include "tracer/propagation/propagation_options.h"
#include <cstdio>
using namespace lightstep;
int main() {
  std::vector<PropagationMode> in = {PropagationMode::envoy, PropagationMode::b3}, a, b;
  SetInjectExtractPropagationModes(in, a, b);
  if (a != in || b != std::vector<PropagationMode>{PropagationMode::envoy, PropagationMode::lightstep, PropagationMode::b3}) { std::printf("extracted in %zu formats\n", b.size()); return 1; }
}
''', srcs=['src/tracer/propagation/propagation_options.cpp'], stubs='all', libs=PB, needs="Envoy's format listed before another one", breaks="LightStep's headers, to which Envoy's format falls back, are not extracted")

P = T + 'propagation/'
plant('b42-moved-formats', 'C42', [(T + 'tracer.cpp', '''  auto propagation_options = MakePropagationOptions(options);
  auto recorder = std::unique_ptr<Recorder>{new LegacyManualRecorder{
      *logger, std::move(options), std::move(transporter)}};
''', '''  auto recorder = std::unique_ptr<Recorder>{new LegacyManualRecorder{
      *logger, std::move(options), std::move(transporter)}};
  auto propagation_options = MakePropagationOptions(options);
''')], r'''
#include "lightstep/tracer.h"
#include "lightstep/transporter.h"
#include "tracer/propagation/propagation_options.h"
#include <cstdio>
using namespace lightstep;
struct Legacy : LegacyAsyncTransporter { void Send(const google::protobuf::Message&, google::protobuf::Message&, Callback&) override {} };
static std::vector<PropagationMode> modes; static int asked;
namespace lightstep {                               // stand-in: what the formats are made from
PropagationOptions MakePropagationOptions(const LightStepTracerOptions& options) { ++asked; modes = options.propagation_modes; return {}; }
}
int main() {
  LightStepTracerOptions options; options.component_name = "demo"; options.use_thread = false; options.transporter.reset(new Legacy{});
  std::vector<PropagationMode> in = {PropagationMode::b3, PropagationMode::trace_context}; options.propagation_modes = in;
  (void)MakeLightStepTracer(std::move(options));
  if (asked != 1 || modes != in) { std::printf("formats made %d times, from %zu modes\n", asked, modes.size()); return 1; }
}
''', srcs=[x for x in dict.fromkeys([y for y in ALL if '/stream_recorder/' not in y and '/network/' not in y] + [T + x + '.cpp' for x in ('tracer', 'tracer_impl', 'immutable_span_context', 'lightstep_span_context', 'utility', 'span', 'no_default_ssl_roots_pem', 'legacy/legacy_tracer_impl', 'legacy/legacy_span')] + ['src/recorder/' + x + '.cpp' for x in ('legacy_manual_recorder', 'manual_recorder', 'auto_recorder', 'report_builder', 'transporter', 'no_grpc_transporter', 'no_stream_recorder', 'fork_aware_recorder')] + [C + 'report_request_framing.cpp', C + 'report_request.cpp', C + 'circular_buffer.cpp']) if os.path.exists('/repo/' + x)], stubs='all', libs=PB + ' -lpthread', needs='a legacy asynchronous transporter, and formats listed in the options', breaks='the formats are made from options already moved away: the tracer silently falls back to the default format')
