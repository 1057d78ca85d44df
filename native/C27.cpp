// C27: connections sharing a span stream; short writes anywhere, failing writes, shutdowns, resets; every byte and every count is checked
#include "recorder/stream_recorder/connection_stream.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "streams.h"
#include <map>
#include <memory>
using namespace lightstep;
struct Obs : MetricsObserver {
  long sent = 0, dropped = 0;
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
};
static std::unique_ptr<ChainedStream> make(const std::string& data) {
  std::unique_ptr<ChainedStream> s(new ChainedStream);
  size_t at = 0;
  while (at < data.size()) { void* d; int k; s->Next(&d, &k); int take = (int)std::min<size_t>(k, data.size() - at); memcpy(d, data.data() + at, take); at += take; if (take < k) s->BackUp(k - take); }
  s->CloseOutput();
  return s;
}
struct Broken {};
struct Conn {
  std::string host, common;
  std::unique_ptr<ConnectionStream> c;
  std::string wire; bool closing = false; std::map<size_t, size_t> at;
  Fragment frag(std::string& s) { return {const_cast<char*>(s.data()), (int)s.size()}; }
};
static std::string low(std::string s) { for (auto& x : s) x = tolower(x); return s; }
struct World {
  Obs obs; MetricsTracker metrics{obs}; CircularBuffer<ChainedStream> buffer; SpanStream spans; Conn conn[2];
  std::vector<std::string> made; size_t next = 0;           // next: the first span no byte of which was sent
  long whole = 0, cut = 0, reported = 0;
  explicit World(size_t cap) : buffer(cap), spans(buffer, metrics) {}
  // what is on the wire: the header, whole spans, perhaps the terminator; returns whether it ends in the middle of a span
  bool parse(Conn& k, std::vector<size_t>& ids, bool& header, bool& terminated, long& drops) {
    header = terminated = false; drops = 0;
    const std::string& w = k.wire;
    size_t e = w.find("\r\n\r\n");
    size_t pos = 0; std::string part;
    if (e == std::string::npos) { VN_CHECK(w.size() < 400, "no end of the request's header"); return false; }
    std::string head = w.substr(0, e + 2);
    VN_CHECK(head.compare(0, 26, "POST /api/v2/reports HTTP/1.1\r\n", 26) == 0 && low(head).find("\r\ntransfer-encoding:chunked\r\n") != std::string::npos, "bad request header");
    VN_CHECK(head.size() >= k.host.size() && head.compare(head.size() - k.host.size(), k.host.size(), k.host) == 0, "the header lacks the host");
    VN_CHECK((int)(e + 4) == k.c->first_chunk_position(), "the first chunk is announced at " << k.c->first_chunk_position() << ", not " << e + 4);
    pos = e + 4;
    size_t nl = w.find("\r\n", pos);
    if (nl == std::string::npos) return false;
    size_t n = strtoul(w.substr(pos, nl - pos).c_str(), nullptr, 16);
    VN_CHECK(nl > pos && w.substr(pos, nl - pos).find_first_not_of("0123456789abcdefABCDEF") == std::string::npos, "bad chunk header");
    VN_CHECK(n >= k.common.size() && n < k.common.size() + 200, "first chunk of " << n << " bytes");
    pos = nl + 2;
    if (w.size() < pos + n + 2) return false;
    VN_CHECK(w.compare(pos, k.common.size(), k.common) == 0, "the first chunk lacks the common header");
    collector::ReportRequest rr;
    VN_CHECK(rr.ParseFromString(w.substr(pos + k.common.size(), n - k.common.size())), "the metrics of the first chunk cannot be read");
    VN_CHECK(rr.internal_metrics().counts_size() == 1, "no count in the first chunk");
    if (rr.internal_metrics().counts_size() == 1) drops = rr.internal_metrics().counts(0).int_value();
    VN_CHECK(w.compare(pos + n, 2, "\r\n") == 0, "the first chunk has no end");
    pos += n + 2; header = true;
    while (pos < w.size()) {
      if (terminated) { vn::fail("bytes after the terminator"); return false; }
      std::string rest = w.substr(pos);
      if (rest.size() < 5 && std::string("0\r\n\r\n").compare(0, rest.size(), rest) == 0 && k.closing) return false;
      if (rest.compare(0, 5, "0\r\n\r\n") == 0) { terminated = true; pos += 5; continue; }
      VN_CHECK(rest[0] == '<', "not the beginning of a span");
      if (rest[0] != '<') return false;
      size_t id = 0; size_t gt = rest.find('.');
      if (gt == std::string::npos) {        // cut off within the number: it is the span which was next when these bytes were first seen
        size_t nx = next; for (size_t i : ids) nx = std::max(nx, i + 1);
        size_t n2 = k.at.emplace(pos, nx).first->second;
        VN_CHECK(n2 < made.size() && made[n2].compare(0, rest.size(), rest) == 0, "not the next span");
        ids.push_back(n2); return true;
      }
      id = strtoul(rest.c_str() + 1, nullptr, 10);
      if (id >= made.size()) { vn::fail("unknown span"); return false; }
      const std::string& s = made[id];
      size_t m = std::min(s.size(), rest.size());
      VN_CHECK(rest.compare(0, m, s, 0, m) == 0, "span " << id << " is not sent as it is");
      ids.push_back(id);
      if (rest.size() < s.size()) return true;
      pos += s.size();
    }
    return false;
  }
};
int main(int argc, char** argv) {
  vn::init(argc, argv, "two connections on one span stream: random adds, flushes cut short anywhere, writes that fail after a part, shutdowns and resets; the bytes of every connection are parsed and every span and drop count is accounted for");
  vn::Rng r(vn::seed);
  while (vn::time_left() && !vn::fails) {
    World w(1 + r.below(6));
    std::string log = "";
    std::map<size_t, int> whole, cut;
    auto retire = [&](Conn& k) {        // the connection's bytes are final
      std::vector<size_t> ids; bool h, t; long d;
      bool partial = w.parse(k, ids, h, t, d);
      for (size_t i = 0; i < ids.size(); ++i) if (partial && i + 1 == ids.size()) ++cut[ids[i]]; else ++whole[ids[i]];
      if (h) w.reported += d;
      k.wire.clear(); k.at.clear(); k.closing = false;
      return h;
    };
    vn::begin("construct");
    for (int i = 0; i < 2; ++i) {
      Conn& k = w.conn[i]; k.host = "Host:" + std::string(1 + r.below(9), 'h') + "\r\n"; k.common = std::string(1 + r.below(40), 'c');
      k.c.reset(new ConnectionStream(k.frag(k.host), k.frag(k.common), w.spans));
    }
    int steps = 5 + r.below(60);
    for (int s = 0; s < steps && !vn::fails; ++s) {
      int op = r.below(20); Conn& k = w.conn[r.below(2)]; int which = &k == &w.conn[1];
      if (op < 7) {
        size_t id = w.made.size(); std::string t = "<" + std::to_string(id) + "." + std::string(r.chance(50) ? r.below(20) : r.chance(50) ? r.below(300) : r.below(1200), 'a' + r.below(26)) + ">";
        log += " add"; vn::begin(log);
        auto c = make(t);
        if (w.buffer.Add(c)) w.made.push_back(t); else log += "(full)";
      } else if (op < 17) {
        size_t total = 0, n = 0; bool broken = r.chance(15), called = false; bool all = false; int calls = 0; std::string sent;
        int mode = r.below(4);
        log += " flush" + std::to_string(which); vn::begin(log);
        auto writer = [&](std::initializer_list<FragmentInputStream*> l) {
          ++calls; called = true;
          Frags f; std::string out;
          for (auto x : l) x->ForEachFragment([&](void* d, int m) { out.append(static_cast<char*>(d), m); f.emplace_back(static_cast<char*>(d), m); return true; });
          total = out.size();
          if (mode == 0) n = total; else if (mode == 1) n = r.below(total + 1); else if (mode == 2) { n = 0; for (size_t i = r.below(f.size() + 1); i-- > 0;) n += f[i].size(); } else n = std::min<size_t>(total, r.below(600));
          sent = out.substr(0, n);
          log += "(" + std::to_string(n) + "/" + std::to_string(total) + (broken ? " then fails" : "") + ")"; vn::begin(log);
          all = Consume(l, static_cast<int>(n));
          if (broken) throw Broken{};
          return all;
        };
        bool threw = false, got = false;
        try { got = k.c->Flush(writer); } catch (Broken&) { threw = true; }
        k.wire += sent;
        VN_CHECK(calls == 1, calls << " writes");
        VN_CHECK(threw == broken, "a failed write is not passed on");
        if (!threw) VN_CHECK(got == all, "reports " << got);
        std::vector<size_t> ids; bool h, t; long d; w.parse(k, ids, h, t, d);
        for (size_t i : ids) if (i >= w.next) w.next = i + 1;
        VN_CHECK(k.c->completed() == t, (t ? "not complete after the terminator" : "complete without the terminator"));
        if (threw) {
          log += " reset" + std::to_string(which); vn::begin(log);
          k.c->Reset(); retire(k);
        }
      } else if (op == 17) { log += " shutdown" + std::to_string(which); vn::begin(log); k.c->Shutdown(); k.closing = true; VN_CHECK(k.c->shutting_down(), "not shutting down"); }
      else { log += " reset" + std::to_string(which); vn::begin(log); k.c->Reset(); retire(k); VN_CHECK(!k.c->shutting_down() && !k.c->completed(), "not a new session"); }
    }
    if (vn::fails) break;
    // wind up: whatever drop counts there are go out with complete headers
    log += " wind up"; vn::begin(log);
    auto all = [&](std::initializer_list<FragmentInputStream*> l) { std::string& out = w.conn[0].wire; for (auto x : l) x->ForEachFragment([&](void* d, int m) { out.append(static_cast<char*>(d), m); return true; }); for (auto x : l) x->Clear(); return true; };
    for (auto& k : w.conn) { k.c->Reset(); retire(k); }
    for (int i = 0; i < 2; ++i) {
      std::string keep; keep.swap(w.conn[0].wire);
      w.conn[i].c->Flush(all);
      if (i == 1) { w.conn[1].wire = w.conn[0].wire; w.conn[0].wire = keep; }
      else w.conn[0].wire = keep + w.conn[0].wire;
      VN_CHECK(retire(w.conn[i]), "no complete header");
    }
    long nwhole = 0, ncut = 0;
    for (size_t i = 0; i < w.made.size(); ++i) {
      VN_CHECK(whole[i] + cut[i] == 1, "span " << i << " was sent " << whole[i] << " times in full and " << cut[i] << " times in part");
      nwhole += whole[i]; ncut += cut[i];
    }
    VN_CHECK(w.obs.sent == nwhole, nwhole << " spans were sent in full, " << w.obs.sent << " are counted");
    VN_CHECK(w.obs.dropped == ncut, ncut << " spans were cut off, " << w.obs.dropped << " are counted as dropped");
    VN_CHECK(w.reported + w.metrics.num_dropped_spans() == ncut, ncut << " spans were cut off, " << w.reported << " reported");
  }
  return vn::done();
}
