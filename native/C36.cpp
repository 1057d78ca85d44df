// C36/C37: the real satellite streamer, connections, endpoint and DNS resolution managers, driven by a simulated event
// loop with virtual time, simulated sockets and satellites, and a simulated resolver; every step may fail.
#include <event2/event.h>
#include <map>
#include <memory>
#include <set>
#include "lightstep-tracer-common/collector.pb.h"
#include "network/dns_resolver.h"
#include "network/socket.h"
#include "network/vector_write.h"
#include "recorder/stream_recorder/satellite_streamer.h"
#include "vnative.h"
using namespace lightstep;
using us = std::chrono::microseconds;
static vn::Rng* R; static int64_t now_us; static int fail_add, fail_new, fail_connect, fail_write;    // percentages
static std::string trace_; static void say(const std::string& s) { trace_ += s + "; "; if (trace_.size() > 1500) trace_.erase(0, trace_.size() - 1200); }
// C36 checks what the connections do, C37 (-DADDRESSES) where the addresses come from
#ifdef ADDRESSES
#define CHECK(cond, why) do { (void)(cond); } while (0)
#define ACHECK FCHECK
#else
#define CHECK FCHECK
#define ACHECK(cond, why) do { (void)(cond); } while (0)
#endif
#define FCHECK(cond, why) do { if (!(cond)) { std::ostringstream o_; o_ << why << " [..." << trace_ << "]"; vn::fail(o_.str()); } } while (0)
// ---- libevent
struct event_base { int dummy; }; static event_base base_;
struct event { evutil_socket_t fd; short what; event_callback_fn cb; void* ctx; bool armed = false; int64_t deadline = -1; bool once = false; };
static std::vector<event*> events;
static event* find(const std::function<bool(event*)>& f) { for (auto* e : events) if (f(e)) return e; return nullptr; }
extern "C" {
event_base* event_base_new() { return &base_; }
void event_base_free(event_base*) {}
event* event_new(event_base* b, evutil_socket_t fd, short what, event_callback_fn cb, void* ctx) { CHECK(b == &base_, "an event without its base"); if (R->chance(fail_new)) { say("event_new fails"); return nullptr; } auto* e = new event; e->fd = fd; e->what = what; e->cb = cb; e->ctx = ctx; events.push_back(e); return e; }
void event_free(event* e) { auto i = std::find(events.begin(), events.end(), e); CHECK(i != events.end(), "an event is freed twice"); if (i != events.end()) { events.erase(i); delete e; } }
int event_add(event* e, const timeval* tv) { if (R->chance(fail_add)) { say("event_add fails"); return -1; } e->armed = true; if (tv) e->deadline = now_us + int64_t(tv->tv_sec) * 1000000 + tv->tv_usec; else if (e->deadline >= 0 && !e->armed) e->deadline = -1; return 0; }
int event_del(event* e) { e->armed = false; e->deadline = -1; return 0; }
int event_base_once(event_base*, evutil_socket_t fd, short what, event_callback_fn cb, void* ctx, const timeval* tv) { auto* e = new event; e->fd = fd; e->what = what; e->cb = cb; e->ctx = ctx; e->once = e->armed = true; e->deadline = now_us + int64_t(tv->tv_sec) * 1000000 + tv->tv_usec; events.push_back(e); return 0; }
int event_base_dispatch(event_base*) { return 0; }
int event_base_loopbreak(event_base*) { return 0; }
}
static void fire(event* e, short what) {
  auto cb = e->cb; auto fd = e->fd; auto ctx = e->ctx;
  if (e->once) { events.erase(std::find(events.begin(), events.end(), e)); delete e; }
  else if (!(e->what & EV_PERSIST)) { e->armed = false; e->deadline = -1; }
  cb(fd, what, ctx);
}
// ---- sockets and satellites
struct Fd { std::string wire, answer; bool open = true, eof = false, error = false, broken = false, terminated = false; int64_t since; std::string ip; uint16_t port; size_t room = 0; };
static std::map<int, Fd> fds; static int next_fd = 1000; static int64_t last_connect_failure = -1; static long connects; static bool forbid_connect; static int open_fds() { int n = 0; for (auto& x : fds) n += x.second.open; return n; }
static std::vector<std::pair<std::string, uint16_t>> attempts;
namespace lightstep {
Socket::Socket() {}
Socket::Socket(int, int) {}
Socket::Socket(FileDescriptor f) noexcept : file_descriptor_{f} {}
Socket::Socket(Socket&& o) noexcept : file_descriptor_{o.file_descriptor_} { o.file_descriptor_ = InvalidSocket; }
Socket::~Socket() noexcept { Free(); }
Socket& Socket::operator=(Socket&& o) noexcept { Free(); file_descriptor_ = o.file_descriptor_; o.file_descriptor_ = InvalidSocket; return *this; }
void Socket::Free() noexcept { if (file_descriptor_ == InvalidSocket) return; CHECK(fds.count(file_descriptor_) && fds[file_descriptor_].open, "a socket is closed twice"); fds[file_descriptor_].open = false; say("close " + std::to_string(file_descriptor_)); file_descriptor_ = InvalidSocket; }
static std::string text(const IpAddress& a) { char b[100]; inet_ntop(a.family(), a.family() == AF_INET ? (const void*)&a.ipv4_address().sin_addr : (const void*)&a.ipv6_address().sin6_addr, b, sizeof b); return b; }
static uint16_t portof(const IpAddress& a) { return ntohs(a.family() == AF_INET ? a.ipv4_address().sin_port : a.ipv6_address().sin6_port); }
Socket Connect(const IpAddress& a) {
  attempts.emplace_back(text(a), portof(a)); CHECK(!forbid_connect, "a connection is made after the shutdown was reported complete");
  if (R->chance(fail_connect)) { say("connect fails"); throw std::runtime_error{"connect"}; }
  int fd = next_fd++; auto& f = fds[fd]; f.since = now_us; f.ip = text(a); f.port = portof(a); ++connects; say("connect " + std::to_string(fd)); return Socket{fd};
}
bool Write(int fd, std::initializer_list<FragmentInputStream*> streams) {
  CHECK(fds.count(fd) && fds[fd].open, "written to socket " << fd << " that is not open"); auto& f = fds[fd];
  size_t room = f.room, sent = 0; std::vector<int> lens;
  if (f.broken || R->chance(fail_write)) { if (R->chance(50)) room = 0; else room = R->below(60); f.broken = true; }
  std::string out; for (auto* s : streams) s->ForEachFragment([&](void* d, int n) { out.append(static_cast<char*>(d), n); return true; });
  sent = std::min(room, out.size()); f.wire += out.substr(0, sent); f.room -= std::min(f.room, sent); bool all = Consume(streams, int(sent));
  CHECK(all == (sent == out.size()), "Consume is wrong"); if (f.broken) { say("write fails on " + std::to_string(fd)); throw std::runtime_error{"write"}; }
  return all;
}
int Read(FileDescriptor fd, void* data, size_t size) noexcept {
  CHECK(fds.count(fd) && fds[fd].open, "read from socket " << fd << " that is not open"); auto& f = fds[fd];
  if (!f.answer.empty()) { size_t n = std::min(size, std::min<size_t>(f.answer.size(), 1 + R->below(40))); std::memcpy(data, f.answer.data(), n); f.answer.erase(0, n); return int(n); }
  if (f.error) { errno = ECONNRESET; return -1; } if (f.eof) return 0; errno = EAGAIN; return -1;
}
// ---- resolver
struct Query { std::string name; int family; DnsResolutionCallback* cb; int64_t at; }; static std::vector<Query> queries; static int fail_dns;
struct FakeResolver : DnsResolver { ~FakeResolver() override { for (auto i = queries.begin(); i != queries.end();) i = i->cb == mine ? queries.erase(i) : i + 1; } DnsResolutionCallback* mine = nullptr;
  void Resolve(const char* n, int fam, DnsResolutionCallback& cb) noexcept override { mine = &cb; for (auto& q : queries) ACHECK(q.cb != &cb, "a second query for " << n << " while one is pending"); queries.push_back({n, fam, &cb, now_us}); } };
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeResolver}; }
struct Answer : DnsResolution { std::vector<IpAddress> a; bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override { for (auto& x : a) if (!f(x)) return false; return true; } };
}
struct Obs : MetricsObserver { long sent = 0, dropped = 0; void OnSpansSent(int n) noexcept override { sent += n; } void OnSpansDropped(int n) noexcept override { dropped += n; } };
struct Host { std::string name; std::vector<std::string> v4, v6, cur4, cur6; int64_t seen4 = -1, seen6 = -1; };
static std::unique_ptr<ChainedStream> make(const std::string& data) { std::unique_ptr<ChainedStream> s(new ChainedStream); size_t at = 0; while (at < data.size()) { void* d; int k; s->Next(&d, &k); int take = (int)std::min<size_t>(k, data.size() - at); memcpy(d, data.data() + at, take); at += take; if (take < k) s->BackUp(k - take); } s->CloseOutput(); return s; }
struct World {
  Obs obs; MetricsTracker metrics{obs}; Logger logger{[](LogLevel, opentracing::string_view) {}}; EventBase eb; LightStepTracerOptions to; StreamRecorderOptions ro; std::unique_ptr<CircularBuffer<ChainedStream>> buffer; std::unique_ptr<SatelliteStreamer> s;
  std::vector<std::string> made; std::vector<Host> hosts; int64_t shutdown_at = -1; bool done = false; std::map<void*, int64_t> failed_at; bool progress = true; size_t rotation = 0; std::map<std::string, std::map<std::string, size_t>> used;
  // a request as far as it was received
  void parse(int fd, Fd& f, std::map<size_t, int>& whole) {
    const std::string& w = f.wire; f.terminated = false; if (w.empty()) return;
    std::string post = "POST /api/v2/reports HTTP/1.1\r\n"; size_t m = std::min(w.size(), post.size()); CHECK(w.compare(0, m, post, 0, m) == 0, "socket " << fd << ": what is sent does not begin with a request: " << w.substr(0, 30)); if (w.compare(0, m, post, 0, m)) return;
    size_t e = w.find("\r\n\r\n"); if (e == std::string::npos) { CHECK(w.size() < 400, "no end of the request's header"); return; }
    bool host = false; for (auto& h : hosts) { size_t k = w.find(h.name + "\r\n"); if (k < e + 2) host = true; } CHECK(host, "socket " << fd << ": the header names no host");
    size_t pos = e + 4; bool first = true;
    while (pos < w.size()) {
      CHECK(!f.terminated, "socket " << fd << ": bytes after the end of the request"); if (f.terminated) return;
      size_t nl = w.find("\r\n", pos); if (nl == std::string::npos) { CHECK(w.size() - pos < 20, "no chunk header"); return; }
      std::string hex = w.substr(pos, nl - pos); CHECK(!hex.empty() && hex.find_first_not_of("0123456789ABCDEF") == std::string::npos, "socket " << fd << ": chunk header " << hex); if (hex.find_first_not_of("0123456789ABCDEF") != std::string::npos) return;
      size_t n = strtoul(hex.c_str(), nullptr, 16), body = nl + 2; if (w.size() < body + n + 2) { if (n == 0 && w.size() > body) {} if (!first && n) { std::string part = w.substr(body); size_t dot = part.find('.'); if (dot != std::string::npos) { size_t id = strtoul(part.c_str(), nullptr, 10); CHECK(id < made.size() && made[id].find(part) != std::string::npos, "socket " << fd << ": part of a span that is not as it was made"); } } return; }
      CHECK(w.compare(body + n, 2, "\r\n") == 0, "socket " << fd << ": a chunk has no end"); if (n == 0) f.terminated = true;
      else if (!first) { size_t id = strtoul(w.c_str() + body, nullptr, 10); bool ok = id < made.size() && made[id] == w.substr(pos, body + n + 2 - pos); CHECK(ok, "socket " << fd << ": a span is not sent as it is"); if (!ok) return; ++whole[id]; CHECK(whole[id] == 1, "span " << id << " is sent twice"); }
      first = false; pos = body + n + 2;
    }
  }
  std::set<void*> connections() { std::set<void*> c; for (auto* e : events) if (e->what != EV_TIMEOUT || !e->once) c.insert(e->ctx); return c; }
  void invariants() {
    std::map<size_t, int> whole; for (auto& x : fds) parse(x.first, x.second, whole);
    CHECK(long(whole.size()) == obs.sent, whole.size() << " spans were sent whole, " << obs.sent << " counted as sent");
    CHECK(open_fds() <= ro.num_satellite_connections, open_fds() << " sockets are open for " << ro.num_satellite_connections << " connections");
    for (auto* e : events) if (e->armed && e->fd >= 0) CHECK(fds[e->fd].open, "an event is armed for a socket that was closed");
    std::map<void*, int> once, timers, reads; std::map<void*, std::set<int>> of; std::set<void*> conns;
    for (auto* e : events) { bool dns = false; for (auto* q : managers) dns = dns || q == e->ctx; if (dns) continue; conns.insert(e->ctx); if (e->once) ++once[e->ctx]; else if (e->fd >= 0) { of[e->ctx].insert(e->fd); if (e->armed && (e->what & EV_READ)) ++reads[e->ctx]; } else if (e->armed) ++timers[e->ctx]; }
    for (auto* c : conns) {
      CHECK(once[c] <= 1, once[c] << " retries are scheduled for one connection"); CHECK(of[c].size() <= 1, "a connection has events for " << of[c].size() << " sockets"); CHECK(!(once[c] && of[c].size()), "a retry is scheduled for a connection that has a socket"); if (of[c].size()) CHECK(reads[c], "a connection does not wait for what the satellite sends");
      bool started = connects || attempts.size(); if (started && !done && shutdown_at < 0) CHECK(once[c] || (of[c].size() && timers[c]), "a connection is stuck: " << (of[c].size() ? "nothing would ever end it" : "it has no socket and no retry is scheduled"));
    }
    for (auto& x : fds) if (x.second.open) { CHECK(now_us - x.second.since <= (ro.max_satellite_reconnect_period + ro.satellite_graceful_stream_shutdown_timeout).count() + 3000000, "socket " << x.first << " is open for " << (now_us - x.second.since) / 1000 << " ms"); }
    if (shutdown_at >= 0 && !s->is_active()) { if (!done) say("shut down"); done = forbid_connect = true; CHECK(open_fds() == 0, "shut down with a socket open"); }
    if (shutdown_at >= 0 && now_us > shutdown_at + ro.satellite_graceful_stream_shutdown_timeout.count()) CHECK(!s->is_active(), "not shut down " << (now_us - shutdown_at) / 1000 << " ms after it was asked, with a grace of " << ro.satellite_graceful_stream_shutdown_timeout.count() / 1000 << " ms");
  }
  std::set<void*> managers;
  // which endpoint an attempt uses: round robin over the endpoints whose host has addresses, IPv4 preferred, addresses in turn
  void attempted() {
    for (auto& a : attempts) {
      size_t n = to.satellite_endpoints.size(), k = 0; Host* h = nullptr; const std::vector<std::string>* addr = nullptr;
      for (; k < n; ++k) { auto& ep = to.satellite_endpoints[order[rotation % n]]; ++rotation; for (auto& x : hosts) if (x.name == ep.first) h = &x; addr = !h->cur4.empty() ? &h->cur4 : &h->cur6; if (!addr->empty()) { auto& u = used[h->name][""]; std::string want = lightstep::text(IpAddress{(*addr)[u % addr->size()].c_str()}); ++u; ACHECK(a.first == want && a.second == ep.second, "connected to " << a.first << " port " << a.second << " instead of " << want << " port " << ep.second); break; } }
      ACHECK(k < n, "connected before any host was resolved");
    }
    attempts.clear();
  }
  std::vector<size_t> order;
  bool timer_due() { for (auto* e : events) if (e->armed && e->deadline >= 0 && e->deadline <= now_us) return true; return false; }
  void advance() {     // to the next deadline, and fire it
    event* b = nullptr; for (auto* e : events) if (e->armed && e->deadline >= 0 && (!b || e->deadline < b->deadline)) b = e;
    if (!b) { now_us += 1000; return; } now_us = std::max(now_us, b->deadline); bool dns = b->once && managers.count(b->ctx); (void)dns; say("t=" + std::to_string(now_us / 1000) + (b->once ? " once" : b->fd >= 0 ? " write timeout" : " timer")); fire(b, EV_TIMEOUT);
  }
  void answer() {
    if (queries.empty()) return; size_t k = R->below(queries.size()); Query q = queries[k]; queries.erase(queries.begin() + k); managers.insert(static_cast<SatelliteDnsResolutionManager*>(q.cb)); Host* h = nullptr; for (auto& x : hosts) if (x.name == q.name) h = &x;
    ACHECK(h && (q.family == AF_INET || q.family == AF_INET6), "a query for " << q.name); if (!h) return; Answer a; auto& cur = q.family == AF_INET ? h->cur4 : h->cur6; auto& pool = q.family == AF_INET ? h->v4 : h->v6; bool fails = R->chance(fail_dns) || pool.empty(); int64_t at = now_us; std::vector<std::string> got;
    if (!fails) for (auto& x : pool) if (got.empty() || R->chance(60)) { got.push_back(x); a.a.emplace_back(x.c_str()); }
    if (!fails) cur = got; size_t before = events.size(); std::string err = fails && R->chance(50) ? "failed" : ""; say("resolved " + q.name + (fails ? " not" : "")); bool ready = false; (void)ready;
    q.cb->OnDnsResolution(a, err); (void)before; int n = 0; int64_t when = 0; for (auto* e : events) if (e->ctx == static_cast<SatelliteDnsResolutionManager*>(q.cb) && e->once) { ++n; when = e->deadline - at; }
    ACHECK(n == 1, n << " refreshes are scheduled for " << q.name << " after its resolution " << (fails ? "failed" : "succeeded")); if (n == 1) { if (fails) ACHECK(when == ro.dns_failure_retry_period.count(), "a failed resolution is retried after " << when << " us"); else ACHECK(when >= ro.min_dns_resolution_refresh_period.count() && when <= ro.max_dns_resolution_refresh_period.count(), "a resolution is refreshed after " << when << " us"); }
  }
};
static us ms(int lo, int hi) { return us{1000 * (lo + int64_t(R->below(hi - lo + 1)))}; }
int main(int argc, char** argv) {
  vn::init(argc, argv, "the real satellite streamer with 1 to 3 connections and 1 to 4 endpoints on a simulated event loop: random periods, satellites that accept any number of bytes, answer, close early, reset or refuse, writes, connects, resolutions and event registrations that fail; every request received is parsed, and timers, sockets, retries and the shutdown are checked after every step");
  vn::Rng r(vn::seed); R = &r;
  for (long round = 0; vn::time_left(); ++round) {
    std::ostringstream o; o << "seed " << vn::seed << " round " << round; vn::begin(o.str()); trace_.clear(); fds.clear(); next_fd = 1000; now_us = 1000000; connects = 0; forbid_connect = false; attempts.clear(); queries.clear();
    fail_add = fail_new = 0; fail_connect = r.chance(50) ? 0 : r.below(60); fail_write = r.chance(50) ? 0 : r.below(40); fail_dns = r.chance(50) ? 0 : r.below(60); int adds = r.chance(70) ? 0 : 3;
    { World w; int nh = 1 + r.below(3); for (int i = 0; i < nh; ++i) { Host h; h.name = std::string("satellite") + char('a' + i) + std::string(r.below(5), 'x'); for (int k = r.below(4); k > 0; --k) h.v4.push_back("10.0." + std::to_string(i) + "." + std::to_string(k)); for (int k = r.below(3); k > 0; --k) h.v6.push_back("fe80::" + std::to_string(i) + ":" + std::to_string(k)); if (h.v4.empty() && h.v6.empty() && i == 0) h.v4.push_back("10.0.0.9"); w.hosts.push_back(h); }
      w.to.satellite_endpoints.clear(); for (int k = 1 + r.below(4); k > 0; --k) w.to.satellite_endpoints.emplace_back(w.hosts[r.below(nh)].name, uint16_t(1 + r.below(65535)));
      { bool any = false; for (auto& e : w.to.satellite_endpoints) for (auto& h : w.hosts) if (h.name == e.first && (h.v4.size() || h.v6.size())) any = true; if (!any) w.to.satellite_endpoints.emplace_back(w.hosts[0].name, uint16_t(80)); }
      for (size_t k = 0; k < w.to.satellite_endpoints.size(); ++k) w.order.push_back(k);
      w.ro.num_satellite_connections = 1 + r.below(3); w.ro.satellite_write_timeout = ms(1, 50); w.ro.satellite_failure_retry_period = ms(1, 50); w.ro.min_satellite_reconnect_period = ms(1, 60); w.ro.max_satellite_reconnect_period = w.ro.min_satellite_reconnect_period + ms(0, 30); w.ro.satellite_graceful_stream_shutdown_timeout = ms(1, 50);
      w.ro.min_dns_resolution_refresh_period = ms(50, 500); w.ro.max_dns_resolution_refresh_period = w.ro.min_dns_resolution_refresh_period + ms(0, 100); w.ro.dns_failure_retry_period = ms(1, 50);
      w.buffer.reset(new CircularBuffer<ChainedStream>(1 + r.below(8))); w.s.reset(new SatelliteStreamer{w.logger, w.eb, w.to, w.ro, w.metrics, *w.buffer}); w.invariants(); { std::set<std::string> names; for (auto& e : w.to.satellite_endpoints) names.insert(e.first); ACHECK(queries.size() == 2 * names.size(), queries.size() << " queries for " << names.size() << " hosts"); }
      int steps = 40 + r.below(200); bool stop = r.chance(70);
      for (int i = 0; i < steps && !vn::fails; ++i) {
        fail_add = adds;
        int what = r.below(100); std::vector<event*> ready;
        for (auto* e : events) if (e->armed && e->fd >= 0) { auto& f = fds[e->fd]; if ((e->what & EV_READ) && (!f.answer.empty() || f.eof || f.error)) ready.push_back(e); if ((e->what & EV_WRITE) && (f.room || f.broken)) ready.push_back(e); }
        if (what < 20) { std::string id = std::to_string(w.made.size()), body = id + "." + std::string(r.below(r.chance(10) ? 600 : 20), 'x'); char h[20]; snprintf(h, 20, "%zX\r\n", body.size()); w.made.push_back(h + body + "\r\n"); auto s = make(w.made.back()); if (!w.buffer->Add(s)) w.metrics.OnSpansDropped(1); }
        else if (what < 40) w.s->Flush();
        else if (what < 70 && !ready.empty()) { auto* e = ready[r.below(ready.size())]; say(std::string(e->what & EV_READ ? "readable " : "writable ") + std::to_string(e->fd)); fire(e, e->what & (EV_READ | EV_WRITE)); }
        else if (what < 85 && open_fds()) { std::vector<Fd*> of; for (auto& x : fds) if (x.second.open) of.push_back(&x.second); auto& f = *of[r.below(of.size())]; int q = r.below(100);
          if (q < 60) f.room += r.below(r.chance(30) ? 2000 : 100); else if (f.terminated && q < 90) { f.answer += "HTTP/1.1 200 OK\r\n\r\n"; f.eof = true; } else if (q < 92) f.error = true; else if (q < 94) f.broken = true; else if (q < 96) f.eof = true; else if (q < 98) { f.answer += "HTTP/1.1 500 No\r\n\r\n"; f.eof = true; } }
        else if (what < 90) w.answer();
        else if (what < 91 && stop && i > steps / 2) { if (w.shutdown_at < 0) w.shutdown_at = now_us; say("InitiateShutdown"); adds = fail_add = 0; w.s->InitiateShutdown(); }
        else w.advance();
        w.attempted(); if (adds) w.progress = false; while (w.timer_due() && !vn::fails) { w.advance(); w.attempted(); } if (!adds || true) w.invariants();
      }
      if (!vn::fails) { w.shutdown_at = w.shutdown_at < 0 ? now_us : w.shutdown_at; fail_add = 0; w.s->InitiateShutdown(); int64_t end = w.shutdown_at + w.ro.satellite_graceful_stream_shutdown_timeout.count() + 1; for (int g = 0; g < 10000 && now_us < end && !vn::fails; ++g) { w.advance(); w.attempted(); w.invariants(); } now_us = std::max(now_us, end); w.invariants(); }
      fail_add = fail_new = fail_connect = 0; w.s.reset(); CHECK(open_fds() == 0, "a socket is left open"); for (auto* e : events) CHECK(e->once, "an event is left behind"); }
    for (auto* e : events) delete e; events.clear();
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
