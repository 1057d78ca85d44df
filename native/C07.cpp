#include "common/fragment_array_input_stream.h"
#include "streams.h"
#include <memory>
using lightstep::Consume;
int main(int argc, char** argv) {
  vn::init(argc, argv, "random lists of 0-4 streams (reference streams, with empty streams and zero-size fragments; fragment arrays), n at, around and beyond every fragment boundary, repeated consumption until empty");
  vn::Rng r(vn::seed);
  for (int round = 0; round < 2000000 && vn::time_left(); ++round) {
    RefStream s[4]; int k = r.below(5); Frags all; std::ostringstream o;
    bool zero = r.chance(30);
    for (int i = 0; i < k; ++i) { int n = r.below(4); o << "("; for (int j = 0; j < n; ++j) { s[i].f.push_back(rnd(r, r.range(zero ? 0 : 1, 5))); o << s[i].f.back().size() << " "; } o << ")"; }
    for (int step = 0; step < 6; ++step) {
      std::string rest; int b = 0; std::vector<int> bounds{0};
      for (int i = 0; i < k; ++i) for (auto& f : s[i].f) { rest += f; bounds.push_back(b += (int)f.size()); }
      int n = r.chance(60) ? bounds[r.below(bounds.size())] : r.below(b + 2);
      if (r.chance(20) && n > 0) --n;
      if (n > b) { if (step) n = b; }
      std::ostringstream t; t << "streams " << o.str() << " step " << step << " n=" << n << " of " << b; vn::begin(t.str());
      Frags before[4]; for (int i = 0; i < k; ++i) { before[i] = s[i].f; s[i].seeks = s[i].clears = 0; }
      bool res;
      if (k == 0) res = Consume({}, n); else if (k == 1) res = Consume({&s[0]}, n); else if (k == 2) res = Consume({&s[0], &s[1]}, n);
      else if (k == 3) res = Consume({&s[0], &s[1], &s[2]}, n); else res = Consume({&s[0], &s[1], &s[2], &s[3]}, n);
      std::string left; bool pending = false; for (int i = 0; i < k; ++i) for (auto& f : s[i].f) { left += f; if (!f.empty()) pending = true; }
      VN_CHECK(left == rest.substr(std::min<size_t>(n, rest.size())), "left " << left.size() << " bytes of " << rest.size() << " (or wrong ones) after consuming " << n);
      VN_CHECK(res == !pending, "reported " << res << " with " << (pending ? "unconsumed" : "no") << " bytes remaining");
      int seeks = 0; bool after = false;
      for (int i = 0; i < k; ++i) { seeks += s[i].seeks; if (after) VN_CHECK(s[i].seeks + s[i].clears == 0, "a later stream was touched"); if (s[i].seeks) after = true; }
      VN_CHECK(seeks <= 1, "more than one stream was repositioned");
      if (vn::fails) return vn::done();
      if (!pending) break;
    }
    std::string a = rnd(r, 3), b = rnd(r, 4); lightstep::FragmentArrayInputStream fa{Fragment{(void*)a.data(), 3}, Fragment{(void*)b.data(), 4}};
    int n = r.below(8); vn::begin("fragment array n=" + std::to_string(n));
    bool res = Consume({&fa}, n); Frags g; enumerate(fa, g);
    VN_CHECK(join(g) == (a + b).substr(n) && res == (n == 7), "fragment array consumption");
    std::string c = rnd(r, r.below(9)); auto mf = lightstep::MakeFragment(c.c_str()); VN_CHECK(mf.first == (void*)c.c_str() && mf.second == (int)c.size(), "MakeFragment");
  }
  return vn::done();
}
