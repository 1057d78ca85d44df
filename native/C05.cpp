#include "common/composable_fragment_input_stream.h"
#include "common/chained_stream.h"
#include "streams.h"
#include <memory>
using C = lightstep::ComposableFragmentInputStream;
static long clears;
struct Seg : C {
  Frags f;
  int segment_num_fragments() const noexcept override { return (int)f.size(); }
  bool SegmentForEachFragment(Callback cb) const noexcept override { for (auto& s : f) if (!cb((void*)s.data(), (int)s.size())) return false; return true; }
  void SegmentClear() noexcept override { ++clears; f.clear(); }
  void SegmentSeek(int fi, int pos) noexcept override {
    if (fi < 0 || fi >= (int)f.size() || pos < 0 || pos > (int)f[fi].size()) { std::ostringstream o; o << "SegmentSeek(" << fi << "," << pos << ") outside " << show(f); vn::fail(o.str()); return; }
    model_seek(f, fi, pos);
  }
};
static std::unique_ptr<C> leaf(vn::Rng& r, Frags& want, bool chained, std::ostringstream& o) {
  if (chained) {
    std::unique_ptr<lightstep::ChainedStream> s(new lightstep::ChainedStream);
    int n = r.range(1, 600); o << "c" << n << " ";
    std::string data = rnd(r, n); size_t at = 0;
    while (at < data.size()) { void* d; int k; s->Next(&d, &k); int take = std::min<size_t>(k, data.size() - at); memcpy(d, data.data() + at, take); at += take; if (take < k) s->BackUp(k - take); }
    s->CloseOutput();
    for (size_t i = 0; i < data.size(); i += 256) want.push_back(data.substr(i, 256));
    return std::unique_ptr<C>(s.release());
  }
  std::unique_ptr<Seg> s(new Seg); int n = r.below(4); o << n << " ";
  for (int i = 0; i < n; ++i) { s->f.push_back(rnd(r, r.range(1, 6))); want.push_back(s->f.back()); }
  return std::unique_ptr<C>(s.release());
}
static std::unique_ptr<C> tree(vn::Rng& r, Frags& want, int depth, std::ostringstream& o) {
  std::unique_ptr<C> s = leaf(r, want, r.chance(25), o);
  int k = depth ? r.below(4) : 0;
  o << "(";
  for (int i = 0; i < k; ++i) s->Append(tree(r, want, depth - 1, o));
  o << ")";
  return s;
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random compositions up to depth 3 (compositions appended to compositions, empty parts, chained streams as parts), then random sequences of seeks (in range, and to the very end), enumeration with early stop, clearing, further appends");
  vn::Rng r(vn::seed);
  for (int round = 0; round < 2000000 && vn::time_left(); ++round) {
    std::ostringstream o; Frags want;
    auto s = tree(r, want, r.below(4), o);
    std::string log = o.str();
    vn::begin("composition " + log); agree(*s, want, "composition");
    for (int step = 0; step < 6 && !vn::fails; ++step) {
      int op = r.below(10);
      if (op < 6 && !want.empty()) {
        int fi = r.below(want.size()), pos = r.below(want[fi].size());
        log += " seek(" + std::to_string(fi) + "," + std::to_string(pos) + ")"; vn::begin(log);
        s->Seek(fi, pos); model_seek(want, fi, pos); agree(*s, want, "after Seek");
      } else if (op < 8) {
        std::ostringstream q; Frags more; auto t = tree(r, more, r.below(2), q);
        log += " append " + q.str(); vn::begin(log);
        s->Append(std::move(t)); VN_CHECK(t == nullptr, "Append left the stream with the caller");
        want.insert(want.end(), more.begin(), more.end()); agree(*s, want, "after Append");
      } else if (op == 8) {
        log += " clear"; vn::begin(log); s->Clear(); want.clear(); agree(*s, want, "after Clear");
      } else if (want.empty()) { log += " seek(0,0)"; vn::begin(log); s->Seek(0, 0); agree(*s, want, "after Seek(0,0) of an empty stream"); }
    }
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
