#include "vsched.h"
#include "common/spin_lock_mutex.h"
using namespace lightstep;
int main(int argc, char** argv) {
  vn::init(argc, argv, "random schedules of 2-4 threads over the real lock with simulated atomics: mutual exclusion, and every write made under the lock is visible under the next lock");
  vn::Rng r(vn::seed);
  for (uint64_t c = 0; c < 3000000 && vn::time_left(); ++c) {
    int n = r.range(2, 4), each = r.range(1, 5); vs::p_switch = r.range(10, 80); vs::p_stale = r.range(0, 60);
    std::ostringstream o; o << n << " threads, " << each << " rounds, schedule " << c; vn::begin(o.str());
    SpinLockMutex m; int in = 0, total = 0; vs::Plain<int> d{"data written under the lock"};
    std::vector<std::function<void()>> f;
    for (int t = 0; t < n; ++t) f.push_back([&] { for (int i = 0; i < each; ++i) { m.lock(); if (++in != 1) vn::fail("two threads hold the lock"); vs::point(); d.set(d.get() + 1); ++total; vs::point(); if (--in != 0) vn::fail("two threads hold the lock"); m.unlock(); vs::point(); } });
    vs::run(r, f);
    VN_CHECK(d.get() == total && total == n * each, "lost an update made under the lock");
  }
  return vn::done();
}
