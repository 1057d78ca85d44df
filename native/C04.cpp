#include "common/chained_stream.h"
#include "streams.h"
#include <memory>
#include <google/protobuf/io/coded_stream.h>
using lightstep::ChainedStream;
int main(int argc, char** argv) {
  vn::init(argc, argv, "random sequences of Next/BackUp (whole, partial and zero-length returns, stopping at and around block boundaries, nothing written at all), also through CodedOutputStream; after closing: enumeration with early stop, seeks (within the current fragment, across blocks), clearing");
  vn::Rng r(vn::seed);
  for (int round = 0; round < 2000000 && vn::time_left(); ++round) {
    // the object lives in poisoned memory: nothing may depend on uninitialised bytes
    std::unique_ptr<char[]> mem(new char[sizeof(ChainedStream) + 16]); memset(mem.get(), 0x5a, sizeof(ChainedStream) + 16);
    auto* s = new (mem.get()) ChainedStream; std::string data; std::ostringstream o; int nops = r.chance(10) ? 0 : r.below(8);
    bool coded = r.chance(20);
    if (coded) {
      google::protobuf::io::CodedOutputStream c(s); nops = r.below(40);
      o << "coded " << nops << ":";
      for (int i = 0; i < nops; ++i) { std::string t = rnd(r, r.range(0, r.chance(10) ? 700 : 40)); o << t.size() << " "; c.WriteString(t); data += t; }
    } else for (int i = 0; i < nops; ++i) {
      void* d = nullptr; int k = -1;
      vn::begin(o.str() + " Next");
      bool ok = s->Next(&d, &k);
      VN_CHECK(ok && d != nullptr && k > 0 && k <= 256, "Next returned " << ok << " size " << k);
      if (vn::fails) return vn::done();
      std::string t = rnd(r, k); memcpy(d, t.data(), k); data += t;
      VN_CHECK(s->ByteCount() == (long)data.size(), "byte count " << s->ByteCount() << " after Next, " << data.size() << " bytes obtained");
      int back = r.chance(30) ? 0 : r.chance(20) ? k : r.below(k + 1);
      o << "n" << k << "-" << back << " ";
      if (back || r.chance(20)) { s->BackUp(back); data.resize(data.size() - back); }
      VN_CHECK(s->ByteCount() == (long)data.size(), "byte count " << s->ByteCount() << " instead of " << data.size());
    }
    vn::begin(o.str());
    VN_CHECK(s->ByteCount() == (long)data.size(), "byte count " << s->ByteCount() << " instead of " << data.size());
    s->CloseOutput();
    Frags want; enumerate(*s, want);
    VN_CHECK(join(want) == data, "reads back " << join(want).size() << " bytes (" << show(want) << ") instead of the " << data.size() << " written");
    agree(*s, want, "closed stream");
    std::string log = o.str();
    for (int step = 0; step < 5 && !vn::fails; ++step) {
      if (r.chance(85) && !want.empty()) {
        int fi = r.chance(40) ? 0 : r.below(want.size()); int pos = want[fi].empty() ? 0 : r.below(want[fi].size());
        log += " seek(" + std::to_string(fi) + "," + std::to_string(pos) + ")"; vn::begin(log);
        if (r.chance(50)) s->Seek(fi, pos); else s->SegmentSeek(fi, pos);
        model_seek(want, fi, pos); agree(*s, want, "after Seek");
      } else { log += " clear"; vn::begin(log); s->Clear(); want.clear(); agree(*s, want, "after Clear"); }
    }
    s->~ChainedStream();
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
