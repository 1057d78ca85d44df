// C16: traversals counted
#include <algorithm>
#include "common/random.h"
#include "common/random_traverser.h"
#include "vnative.h"
static uint64_t words[4]; static int at;
struct Seq { template <class It> void generate(It a, It b) { int k = 0; for (; a != b; ++a) *a = (uint32_t)words[k++ % 4]; } };
static lightstep::FastRandomNumberGenerator g;
namespace lightstep { FastRandomNumberGenerator& GetRandomNumberGenerator() noexcept { return g; } }
int main(int argc, char** argv) {
  vn::init(argc, argv, "traversals of 0..40 (sometimes up to 3000) indexes under random generator states including degenerate ones, repeated up to 6 times on one object, complete or stopped at a random visit; visits counted per index");
  vn::Rng r(vn::seed);
  for (int round = 0; round < 2000000 && vn::time_left(); ++round) {
    int n = r.chance(2) ? r.range(41, 3000) : r.below(41);
    for (auto& w : words) w = r.chance(20) ? 0 : r.chance(20) ? 0xffffffffu : (uint32_t)r.next();
    if (!(words[0] | words[1] | words[2] | words[3])) words[r.below(4)] = 1;
    Seq q; g.seed(q);
    std::ostringstream o; o << "n " << n << " state " << words[0] << "," << words[1] << "," << words[2] << "," << words[3];
    lightstep::RandomTraverser t(n);
    int reps = r.range(1, 6);
    for (int rep = 0; rep < reps && !vn::fails; ++rep) {
      int stop = n && r.chance(40) ? (int)r.below(n) : -1;
      o << (stop < 0 ? " full" : " stop@" + std::to_string(stop)); vn::begin(o.str());
      std::vector<int> seen(n, 0); int visits = 0;
      bool done = t.ForEachIndex([&](int i) {
        VN_CHECK(i >= 0 && i < n, "visits index " << i);
        if (i >= 0 && i < n) { VN_CHECK(seen[i] == 0, "visits index " << i << " twice"); ++seen[i]; }
        VN_CHECK(stop < 0 || visits <= stop, "goes on after the visitor stopped");
        return visits++ != stop;
      });
      VN_CHECK(done == (stop < 0), "reports " << done);
      VN_CHECK(visits == (stop < 0 ? n : stop + 1), visits << " visits");
    }
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
