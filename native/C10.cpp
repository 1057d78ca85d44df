// C10: report requests and buffer chains against a model
#include <memory>
#include "lightstep-tracer-common/collector.pb.h"
#include "recorder/serialization/report_request.h"
#include "streams.h"
using lightstep::BufferChain;
using lightstep::ChainedStream;
using lightstep::ReportRequest;
struct Chain : BufferChain {
  Frags f; size_t total = 0;
  size_t num_fragments() const noexcept override { return f.size(); }
  size_t num_bytes() const noexcept override { return total; }
  bool ForEachFragment(FragmentCallback cb, void* context) const override { for (auto& s : f) if (!cb(context, s.data(), s.size())) return false; return true; }
};
struct Seen { Frags f; int stop; };
static bool visit(void* context, const void* data, size_t n) {
  Seen& s = *static_cast<Seen*>(context);
  if (s.stop >= 0 && (int)s.f.size() > s.stop) vn::fail("visitor called after it stopped");
  if (n > 1u << 26) { vn::fail("fragment of absurd size"); n = 0; }
  s.f.emplace_back(static_cast<const char*>(data), n);
  return (int)s.f.size() - 1 != s.stop;
}
static void copied(const BufferChain& c, const std::string& want, size_t extra) {
  std::vector<char> buf(want.size() + extra, '#');
  c.CopyOut(buf.data(), buf.size());
  VN_CHECK(std::string(buf.data(), want.size()) == want, "CopyOut yields other bytes than the enumeration");
  for (size_t i = want.size(); i < buf.size(); ++i) VN_CHECK(buf[i] == '#', "CopyOut wrote beyond the bytes");
}
static void check(const ReportRequest& q, const std::string& header, int dropped, const Frags& spans, const std::string& metrics, int nspans) {
  Seen s{{}, -1};
  VN_CHECK(q.ForEachFragment(visit, &s), "full enumeration reported as stopped");
  std::string all = join(s.f), want = header + metrics;
  for (auto& x : spans) want += x;
  VN_CHECK(all == want, "enumerates " << show(s.f) << ", " << all.size() << " bytes instead of " << want.size());
  VN_CHECK(q.num_bytes() == all.size(), "num_bytes " << q.num_bytes() << " but " << all.size() << " enumerated");
  VN_CHECK(q.num_fragments() == s.f.size(), "num_fragments " << q.num_fragments() << " but " << s.f.size() << " enumerated");
  VN_CHECK(q.num_spans() == nspans, "num_spans " << q.num_spans() << " instead of " << nspans);
  VN_CHECK(q.num_dropped_spans() == dropped, "num_dropped_spans " << q.num_dropped_spans() << " instead of " << dropped);
  for (int stop : {0, 1, 2, (int)s.f.size() / 2, (int)s.f.size() - 1}) {
    if (stop >= (int)s.f.size()) continue;
    Seen p{{}, stop};
    VN_CHECK(!q.ForEachFragment(visit, &p), "stopped enumeration reported as complete (stop at " << stop << ")");
    VN_CHECK((int)p.f.size() == stop + 1 && std::equal(p.f.begin(), p.f.end(), s.f.begin()), "enumeration stopped at " << stop << " saw other fragments");
  }
  if (!vn::fails) { copied(q, want, 0); copied(q, want, 3); }
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random headers (empty to 600 bytes), dropped counts (0, small, extreme, negative), 0..12 spans of 1..3000 bytes written in random pieces with back-ups; enumeration in full and stopped at several points, counts and CopyOut compared with a model after every added span; CopyOut of random chains with empty fragments");
  vn::Rng r(vn::seed);
  for (int round = 0; round < 2000000 && vn::time_left(); ++round) {
    {
      Chain c; int n = r.below(6); std::ostringstream o; o << "chain";
      for (int i = 0; i < n; ++i) { c.f.push_back(rnd(r, r.chance(30) ? 0 : r.chance(40) ? 1 : r.range(1, r.chance(10) ? 20000 : 400))); c.total += c.f.back().size(); o << " " << c.f.back().size(); }
      vn::begin(o.str()); copied(c, join(c.f), r.below(3));
    }
    std::ostringstream o;
    std::string header = rnd(r, r.chance(10) ? 0 : r.range(1, 600));
    static const int D[] = {0, 0, 1, 2, 127, 128, 16383, 16384, 2147483647, -1};
    int dropped = r.chance(20) ? (int)r.below(100000) : D[r.below(10)];
    o << "header " << header.size() << " dropped " << dropped << " spans"; vn::begin(o.str());
    ReportRequest q{std::make_shared<const std::string>(header), dropped};
    std::string metrics;
    if (dropped != 0) {
      Seen s{{}, -1}; q.ForEachFragment(visit, &s);
      VN_CHECK(s.f.size() == 2, "a request with metrics enumerates " << s.f.size() << " fragments");
      if (s.f.size() == 2) metrics = s.f[1];
      lightstep::collector::ReportRequest p;
      VN_CHECK(p.ParseFromString(metrics) && p.internal_metrics().counts_size() == 1 && p.internal_metrics().counts(0).int_value() == dropped, "the metrics do not carry the dropped count");
    }
    Frags spans; check(q, header, dropped, spans, metrics, 0);
    int n = r.below(13);
    for (int i = 0; i < n && !vn::fails; ++i) {
      std::string data = rnd(r, r.chance(10) ? 256 * r.range(1, 3) : r.range(1, r.chance(10) ? 3000 : 300)); size_t at = 0;
      std::unique_ptr<ChainedStream> s(new ChainedStream);
      while (at < data.size()) { void* d; int k; s->Next(&d, &k); int take = std::min<size_t>(k, data.size() - at); if (r.chance(20)) take = r.range(1, take); memcpy(d, data.data() + at, take); at += take; if (take < k) s->BackUp(k - take); }
      s->CloseOutput();
      o << " " << data.size(); vn::begin(o.str());
      q.AddSpan(std::move(s)); VN_CHECK(s == nullptr, "AddSpan left the span with the caller");
      spans.push_back(data); check(q, header, dropped, spans, metrics, i + 1);
    }
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
