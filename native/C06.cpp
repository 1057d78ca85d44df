#include "common/fragment_array_input_stream.h"
#include "streams.h"
#include <deque>
using lightstep::FragmentArrayInputStream;
int main(int argc, char** argv) {
  vn::init(argc, argv, "random sequences of add, assign, seek, clear, reserve on fragment arrays against a list-of-strings model, each followed by full and stopped enumerations");
  vn::Rng r(vn::seed);
  for (int round = 0; round < 200000 && vn::time_left(); ++round) {
    std::deque<std::string> store;
    auto mk = [&](int n) { store.push_back(rnd(r, n)); return Fragment{(void*)store.back().data(), n}; };
    FragmentArrayInputStream s; Frags m; std::ostringstream ops;
    if (r.chance(40)) {
      auto a = mk(r.range(1, 5)), b = mk(r.range(1, 5)), c = mk(r.range(1, 9));
      FragmentArrayInputStream t{a, b, c};
      m = {store[0], store[1], store[2]}; vn::begin("construct 3"); agree(t, m, "constructed");
      s = t; ops << "copy3 ";
    }
    int n = r.range(1, 14);
    for (int k = 0; k < n; ++k) {
      int c = r.below(10);
      if (c < 4) { auto f = mk(r.range(1, 6)); s.Add(f); m.push_back(store.back()); ops << "add" << f.second << " "; }
      else if (c == 4) { auto a = mk(r.range(1, 6)), b = mk(r.range(1, 6)); s = {a, b}; m = {store[store.size() - 2], store.back()}; ops << "assign2 "; }
      else if (c == 5 && r.chance(30)) { s.Clear(); m.clear(); ops << "clear "; }
      else if (c == 6) { s.Reserve(r.below(20)); ops << "reserve "; }
      else if (!m.empty()) { int fi = r.chance(40) ? 0 : r.below(m.size()); int pos = r.below(m[fi].size()); s.Seek(fi, pos); model_seek(m, fi, pos); ops << "seek" << fi << "," << pos << " "; }
      vn::begin(ops.str());
      agree(s, m, "after the last operation");
      if (vn::fails) return vn::done();
    }
  }
  return vn::done();
}
