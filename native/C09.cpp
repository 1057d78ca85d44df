#include "recorder/stream_recorder/span_stream.h"
#include "streams.h"
#include <deque>
#include <memory>
using lightstep::ChainedStream;
struct Obs : lightstep::MetricsObserver {
  long sent = 0, dropped = 0;
  void OnSpansSent(int n) noexcept override { if (n < 0) vn::fail("negative number of spans reported as sent"); sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
  void OnFlush() noexcept override {}
};
static Frags pieces(const std::string& s) { Frags f; for (size_t i = 0; i < s.size(); i += 256) f.push_back(s.substr(i, 256)); return f; }
static std::unique_ptr<ChainedStream> make(const std::string& data) {
  std::unique_ptr<ChainedStream> s(new ChainedStream);
  size_t at = 0;
  while (at < data.size()) { void* d; int k; s->Next(&d, &k); int take = (int)std::min<size_t>(k, data.size() - at); memcpy(d, data.data() + at, take); at += take; if (take < k) s->BackUp(k - take); }
  s->CloseOutput();
  return s;
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random histories of adds, allotments, enumerations with early stop, seeks to every kind of position (span boundaries, fragment boundaries, inside fragments, spans of 1-4 fragments), clears and remnant hand-outs on a small wrapping buffer; heap checked by the sanitizer");
  vn::Rng r(vn::seed);
  for (int round = 0; round < 2000000 && vn::time_left(); ++round) {
    Obs obs; lightstep::MetricsTracker metrics(obs);
    size_t cap = 1 + r.below(7);
    lightstep::CircularBuffer<ChainedStream> buffer(cap);
    std::unique_ptr<lightstep::SpanStream> s(new lightstep::SpanStream(buffer, metrics));
    std::deque<std::string> stored; size_t allot = 0; bool rem = false; Frags remnant; long sent = 0; uint64_t consumed = 0;
    std::string log = "buffer of " + std::to_string(cap) + ":";
    int steps = 3 + r.below(30);
    for (int k = 0; k < steps && !vn::fails; ++k) {
      int op = r.below(10);
      Frags all; std::vector<size_t> first;      // fragments allotted, and the first fragment of each span
      for (size_t i = 0; i < allot; ++i) { first.push_back(all.size()); for (auto& f : pieces(stored[i])) all.push_back(f); }
      if (op < 4) {
        int n = r.chance(60) ? r.range(1, 256) : r.range(257, 1000);
        if (r.chance(20)) n = 256 * r.range(1, 3);
        log += " add " + std::to_string(n); vn::begin(log);
        std::string d = rnd(r, n); auto c = make(d);
        bool ok = buffer.Add(c);
        VN_CHECK(ok == (stored.size() < cap), "Add to a buffer holding " << stored.size() << " of " << cap << " spans");
        if (ok) stored.push_back(d);
      } else if (op < 6) {
        log += " allot"; vn::begin(log);
        s->Allot(); allot = stored.size();
      } else if (op == 6) {
        log += " clear"; vn::begin(log);
        s->Clear(); sent += allot; consumed += allot; stored.erase(stored.begin(), stored.begin() + allot); allot = 0; rem = false;
      } else if (op == 7) {
        log += " remnant"; vn::begin(log);
        auto x = s->ConsumeRemnant();
        VN_CHECK((x != nullptr) == rem, (rem ? "the remnant is missing" : "a remnant appeared from nowhere"));
        if (x && rem) agree(*x, remnant, "remnant");
        rem = false;
      } else if (!all.empty()) {
        size_t fi = r.below(all.size());
        if (r.chance(40)) fi = first[r.below(first.size())];
        size_t pos = r.chance(40) ? 0 : r.below(all[fi].size());
        log += " seek(" + std::to_string(fi) + "," + std::to_string(pos) + ") of " + std::to_string(allot) + " spans"; vn::begin(log);
        size_t j = 0; while (j + 1 < first.size() && first[j + 1] <= fi) ++j;
        s->Seek((int)fi, (int)pos);
        sent += j; rem = false; size_t gone = j;
        if (!(fi == first[j] && pos == 0)) { remnant = pieces(stored[j]); model_seek(remnant, (int)(fi - first[j]), (int)pos); rem = true; ++gone; }
        consumed += gone; stored.erase(stored.begin(), stored.begin() + gone); allot = 0;
      }
      all.clear(); for (size_t i = 0; i < allot; ++i) for (auto& f : pieces(stored[i])) all.push_back(f);
      agree(*s, all, "span stream");
      VN_CHECK(obs.sent == sent, obs.sent << " spans reported as sent instead of " << sent);
      VN_CHECK(obs.dropped == 0, "spans reported as dropped");
      VN_CHECK(buffer.size() == stored.size(), buffer.size() << " spans left in the buffer instead of " << stored.size());
      VN_CHECK((uint64_t)buffer.consumption_count() == consumed, buffer.consumption_count() << " spans consumed instead of " << consumed);
      size_t at = 0;
      buffer.Peek().ForEach([&](const lightstep::AtomicUniquePtr<ChainedStream>& e) {
        if (at >= stored.size() || e.Get() == nullptr) { vn::fail("an emptied slot is still stored"); return false; }
        agree(*e, pieces(stored[at++]), "stored span"); return vn::fails == 0;
      });
    }
    if (r.chance(50)) s.reset();
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
