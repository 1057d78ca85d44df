// C40: the real resolver, c-ares and libevent against a name server of its own on the loopback interface.
#include "network/dns_resolver.h"
#include "network/event_base.h"
#include "network/timer_event.h"
#include "vnative.h"
#include <algorithm>
#include <arpa/inet.h>
#include <chrono>
#include <deque>
#include <event2/event.h>
#include <functional>
#include <map>
#include <sys/socket.h>
#include <unistd.h>
using namespace lightstep;
namespace {
using clk = std::chrono::steady_clock;
enum How { OK, LATE, STRAY, TRUNCATED, NODATA, NXDOMAIN, SERVFAIL, SILENT };
const char* names[] = {"answered", "answered late", "answered after a stray datagram", "answered over tcp", "answered without addresses", "unknown", "failing", "never answered"};
struct Answer { How how; std::vector<std::string> addresses; };
EventBase* base;
void later(int ms, std::function<void()> f) {
  timeval tv{0, ms * 1000}; auto* p = new std::function<void()>{std::move(f)};
  event_base_once(const_cast<event_base*>(base->libevent_handle()), -1, EV_TIMEOUT, [](evutil_socket_t, short, void* x) { std::unique_ptr<std::function<void()>> g{static_cast<std::function<void()>*>(x)}; (*g)(); }, p, &tv);
}
struct Server {
  int udp = -1, tcp = -1; uint16_t port = 0; event *eu = nullptr, *et = nullptr; std::map<std::string, Answer> zone; long queries = 0, over_tcp = 0; std::vector<std::pair<int, event*>> conns;
  Server() {
    for (int i = 0; i < 50; ++i) {
      udp = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0); tcp = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a; int one = 1; setsockopt(tcp, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
      if (bind(udp, (sockaddr*)&a, n) == 0 && getsockname(udp, (sockaddr*)&a, &n) == 0 && bind(tcp, (sockaddr*)&a, n) == 0 && listen(tcp, 8) == 0) { port = ntohs(a.sin_port); break; }
      close(udp); close(tcp);
    }
  }
  void start() {
    auto b = const_cast<event_base*>(base->libevent_handle()); eu = event_new(b, udp, EV_READ | EV_PERSIST, [](evutil_socket_t, short, void* s) { static_cast<Server*>(s)->datagram(); }, this); et = event_new(b, tcp, EV_READ | EV_PERSIST, [](evutil_socket_t, short, void* s) { static_cast<Server*>(s)->connection(); }, this); event_add(eu, nullptr); event_add(et, nullptr);
  }
  ~Server() { for (auto& c : conns) { event_free(c.second); close(c.first); } if (eu) event_free(eu); if (et) event_free(et); close(udp); close(tcp); }
  static std::string name(const std::string& q) { std::string r; size_t i = 12; while (i < q.size() && q[i]) { if (!r.empty()) r += '.'; r += q.substr(i + 1, (unsigned char)q[i]); i += 1 + (unsigned char)q[i]; } return r; }
  static std::string u16(unsigned x) { return std::string{(char)(x >> 8), (char)x}; }
  std::string make(std::string q, const Answer& a, bool cut) {
    size_t e = 12; while (q[e]) e += 1 + (unsigned char)q[e]; e += 5; q.resize(e); unsigned type = (unsigned char)q[e - 3]; q[2] = (char)((q[2] | 0x80 | (cut ? 2 : 0))); q[3] = (char)(0x80 | (a.how == NXDOMAIN ? 3 : a.how == SERVFAIL ? 2 : 0)); q[4] = 0; q[5] = 1; unsigned n = 0; std::string rr;
    for (auto& x : a.addresses) if ((x.size() == 4) == (type == 1)) { rr += u16(0xc00c) + u16(type) + u16(1) + u16(0) + u16(60) + u16(x.size()) + x; ++n; }
    if (cut || a.how >= NODATA) { rr.clear(); n = 0; }
    q[6] = (char)(n >> 8); q[7] = (char)n; for (int i = 8; i < 12; ++i) q[i] = 0; return q + rr;
  }
  void datagram() {
    char buf[2000]; sockaddr_in f; socklen_t fl = sizeof f; ssize_t n = recvfrom(udp, buf, sizeof buf, 0, (sockaddr*)&f, &fl); if (n < 12) return;
    ++queries; std::string q(buf, n); auto it = zone.find(name(q)); Answer a = it == zone.end() ? Answer{NXDOMAIN, {}} : it->second; auto send = [this, f](std::string x) { sendto(udp, x.data(), x.size(), 0, (sockaddr*)&f, sizeof f); };
    if (a.how == SILENT) return;
    std::string x = make(q, a, a.how == TRUNCATED);
    if (a.how == LATE) return later(15, [send, x] { send(x); });
    if (a.how == STRAY) { auto y = x; y[0] ^= 0x55; send(y); return later(15, [send, x] { send(x); }); }
    send(x);
  }
  void connection() {
    int c = accept(tcp, nullptr, nullptr); if (c < 0) return;
    evutil_make_socket_nonblocking(c); auto e = event_new(const_cast<event_base*>(base->libevent_handle()), c, EV_READ | EV_PERSIST, [](evutil_socket_t c, short, void* s) { static_cast<Server*>(s)->stream(c); }, this); event_add(e, nullptr); conns.push_back({c, e});
  }
  void stream(int c) {
    char buf[4000]; ssize_t n = recv(c, buf, sizeof buf, 0); if (n <= 0) { for (auto& x : conns) if (x.first == c) event_del(x.second); return; }
    for (size_t i = 0; i + 14 < (size_t)n;) { size_t l = (unsigned char)buf[i] * 256 + (unsigned char)buf[i + 1]; std::string q(buf + i + 2, std::min(l, (size_t)n - i - 2)); i += 2 + l; ++over_tcp; auto it = zone.find(name(q)); std::string x = make(q, it == zone.end() ? Answer{NXDOMAIN, {}} : it->second, false); x = u16(x.size()) + x; if (send(c, x.data(), x.size(), MSG_NOSIGNAL) < 0) return; }
  }
};
struct Callback : DnsResolutionCallback {
  int n = 0; std::string error; std::vector<std::string> got; bool stopped_right = true;
  void OnDnsResolution(const DnsResolution& r, opentracing::string_view e) noexcept override {
    ++n; error.assign(e.data(), e.size());
    bool all = r.ForeachIpAddress([&](const IpAddress& a) { got.push_back(a.family() == AF_INET ? std::string((const char*)&a.ipv4_address().sin_addr, 4) : std::string((const char*)&a.ipv6_address().sin6_addr, 16)); return true; });
    size_t k = 0, stop = got.size() / 2 + 1; bool half = r.ForeachIpAddress([&](const IpAddress&) { return ++k < stop; });
    stopped_right = all && (got.size() < stop ? half && k == got.size() : !half && k == stop);
  }
};
bool wait(const std::function<bool()>& f, int s) { auto t = clk::now() + std::chrono::seconds(s); while (!f()) { if (clk::now() > t) return false; later(5, [] { event_base_loopbreak(const_cast<event_base*>(base->libevent_handle())); }); event_base_loop(const_cast<event_base*>(base->libevent_handle()), EVLOOP_ONCE); } return true; }
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random queries of both families to a name server that answers at once, late, after a stray datagram, over tcp, with failures or never"); vn::Rng r(vn::seed); Logger logger{[](LogLevel, opentracing::string_view) {}};
  for (int round = 0; vn::time_left() && !vn::fails; ++round) {
    EventBase eb; base = &eb; Server s; if (!s.port) continue;
    s.start(); bool silent = round % 6 == 1; DnsResolverOptions o; in_addr lo; lo.s_addr = htonl(INADDR_LOOPBACK); o.resolution_servers.push_back(lo); o.resolution_server_port = s.port; o.timeout = std::chrono::milliseconds{silent ? 20 : 3000};
    int m = 1 + r.below(4); std::deque<Callback> cb; std::vector<std::string> host; std::vector<int> fam; std::string text = "queries:"; cb.resize(m);
    for (int i = 0; i < m; ++i) {
      Answer a; a.how = silent ? SILENT : round < 8 && i == 0 ? (How)(round % 7) : (How)r.below(7); bool six = r.below(2); int k = 1 + r.below(6);
      if (a.how < NODATA) for (int j = 0; j < k; ++j) { std::string x(six ? 16 : 4, '\0'); for (auto& c : x) c = (char)r.below(256); x[0] = six ? 0x20 : 11; x[1] = (char)j; a.addresses.push_back(x); }
      host.push_back("h" + std::to_string(i) + ".test"); fam.push_back(six ? AF_INET6 : AF_INET); s.zone[host[i]] = a; text += std::string(" ") + (six ? "v6 " : "v4 ") + names[a.how] + " (" + std::to_string(a.addresses.size()) + ");";
    }
    vn::begin(text); alarm(100); auto answered = [&] { for (auto& c : cb) if (!c.n) return false; return true; };
    { auto resolver = MakeDnsResolver(logger, eb, o);
      for (int i = 0; i < m; ++i) resolver->Resolve((host[i] + ".").c_str(), fam[i], cb[i]);
      if (round % 12 == 7) { wait([] { return false; }, 0); resolver.reset(); if (!answered()) vn::fail("a query is not answered when its resolver ends"); goto once; }
      VN_CHECK(wait(answered, 25), "a query is not answered");
      Callback num; resolver->Resolve("127.0.0.7", AF_INET, num); VN_CHECK(num.n == 1 && num.got.size() == 1 && num.error.empty(), "an address given as a name is not itself");
      wait([] { return false; }, 0);
      for (int i = 0; i < m; ++i) {
        auto& a = s.zone[host[i]]; auto& c = cb[i]; bool good = a.how < NODATA; auto x = a.addresses, y = c.got; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
        VN_CHECK(c.error.empty() == good, good ? "an answer became an error: " + c.error : std::string("a failure is not reported")); VN_CHECK(x == y, "the addresses are not those of the answer"); VN_CHECK(c.stopped_right, "addresses are not enumerated as asked");
        if (a.how == TRUNCATED) VN_CHECK(s.over_tcp > 0, "a truncated answer is not fetched over tcp");
      } }
  once:
    for (auto& c : cb) VN_CHECK(c.n == 1, "a query is answered " + std::to_string(c.n) + " times");
  }
  return vn::done();
}
