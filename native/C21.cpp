#include <atomic>
#include <mutex>
#include <thread>
#include "common/spin_lock_mutex.h"
#include "vnative.h"
using namespace lightstep;
struct Shared { SpinLockMutex m; long a = 0, b = 0; std::atomic<int> inside{0}; };
int main(int argc, char** argv) {
  vn::init(argc, argv, "threads incrementing two plain counters under the lock, with a critical-section occupancy counter; sequential lock/unlock patterns");
  {
    vn::begin("sequential lock, failed entry while held, unlock");
    SpinLockMutex m; m.lock();
    std::atomic<int> in{0};
    std::thread t([&] { m.lock(); in = 1; m.unlock(); });
    usleep(30000);
    VN_CHECK(in == 0, "a second thread got the lock while it was held");
    m.unlock(); t.join();
    VN_CHECK(in == 1, "lock not granted after unlock");
    m.lock(); m.unlock(); { SpinLockGuard g{m}; }
    m.lock(); m.unlock();
  }
  int T = 4;
  for (int round = 0; vn::time_left() && round < 60; ++round) {
    std::ostringstream o; o << "round " << round << " threads " << T;
    vn::begin(o.str());
    Shared s; std::vector<std::thread> ts; int N = 2000; std::atomic<int> overlap{0};
    for (int i = 0; i < T; ++i) ts.emplace_back([&] {
      for (int k = 0; k < N; ++k) {
        s.m.lock();
        if (s.inside.fetch_add(1, std::memory_order_relaxed) != 0) overlap.fetch_add(1, std::memory_order_relaxed);
        long x = s.a; s.b += 1;
        if ((k & 63) == 0) std::this_thread::yield();
        s.a = x + 1;
        s.inside.fetch_sub(1, std::memory_order_relaxed);
        s.m.unlock();
      }
    });
    for (auto& t : ts) t.join();
    VN_CHECK(overlap == 0, "two threads were inside the critical section");
    VN_CHECK(s.a == (long)T * N && s.b == s.a, "lost update: " << s.a << "," << s.b << " of " << (long)T * N);
    T = T == 4 ? 2 : T == 2 ? 8 : 4;
  }
  return vn::done();
}
