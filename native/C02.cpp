#include <atomic>
#include <map>
#include <mutex>
#include <thread>
#include "common/atomic_unique_ptr.h"
#include "vnative.h"
using namespace lightstep;
static std::atomic<long> alive{0}, destroyed{0};
struct E { int id; std::atomic<int> dead{0}; explicit E(int i) : id(i) { ++alive; } ~E() { if (dead.exchange(1)) { vn::fail("element destroyed twice"); } --alive; ++destroyed; } };
typedef std::unique_ptr<E> U;
int main(int argc, char** argv) {
  vn::init(argc, argv, "random sequences of SwapIfNull/Swap/Reset/destroy on 1-3 slots against an ownership model; concurrent swaps with an instance-count check");
  vn::Rng r(vn::seed);
  for (int c = 0; c < 20000; ++c) {
    std::ostringstream o; int len = r.range(1, 14); std::vector<int> ops;
    for (int i = 0; i < len; ++i) { int k = r.range(0, 4); ops.push_back(k); o << "CSRNG"[k]; }
    vn::begin(o.str());
    long base = alive; int next = 0;
    {
      AtomicUniquePtr<E> a; E* in = nullptr; U own;
      VN_CHECK(a.IsNull() && a.Get() == nullptr, "new pointer is not empty");
      for (int k : ops) {
        long d0 = destroyed;
        if (k == 3) { own.reset(new E(next++)); d0 = destroyed; }
        if (k == 0) {
          E* mine = own.get(); bool ok = false;
          for (int t = 0; t < 50 && !ok; ++t) { ok = a.SwapIfNull(own); if (in) break; }
          VN_CHECK(ok == (in == nullptr), "SwapIfNull reported " << ok << " on a slot that was " << (in ? "full" : "empty"));
          if (!in) { in = mine; VN_CHECK(own == nullptr, "owner kept the element"); } else VN_CHECK(own.get() == mine, "refused swap changed the owner");
          VN_CHECK(destroyed == d0, "something destroyed");
        }
        if (k == 1) { E* mine = own.get(); E* was = in; a.Swap(own); in = mine; VN_CHECK(own.get() == was, "Swap returned the wrong element"); VN_CHECK(destroyed == d0, "Swap destroyed something"); }
        if (k == 2) { bool had = in; if (next % 2) { a.Reset(); in = nullptr; } else { E* n = new E(next++); d0 = destroyed; a.Reset(n); in = n; } VN_CHECK(destroyed - d0 == (had ? 1 : 0), "Reset destroyed " << (destroyed - d0)); }
        VN_CHECK(a.Get() == in && a.IsNull() == (in == nullptr), "slot content differs from the model");
        if (in) VN_CHECK(&*a == in && a.operator->() == in, "dereference differs");
      }
    }
    VN_CHECK(alive == base, "elements leaked: " << (alive - base));
  }
  for (int round = 0; round < 60 && vn::time_left(); ++round) {
    std::ostringstream o; o << "concurrent round " << round; vn::begin(o.str());
    long base = alive; std::atomic<long> put{0}, got{0};
    {
      AtomicUniquePtr<E> a[2]; std::vector<std::thread> ts;
      for (int t = 0; t < 3; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 3000; ++i) { U u{new E(i)}; E* p = u.get(); if (a[i & 1].SwapIfNull(u)) { ++put; if (u) vn::fail("owner kept the element after success"); } else if (u.get() != p) vn::fail("refused swap changed the owner"); } });
      for (int t = 0; t < 2; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 3000; ++i) { U u; a[i & 1].Swap(u); if (u) ++got; } });
      for (auto& t : ts) t.join();
      long rest = !a[0].IsNull() + !a[1].IsNull();
      VN_CHECK(put == got + rest, "put " << put << ", taken " << got << ", left " << rest);
    }
    VN_CHECK(alive == base, "elements leaked: " << (alive - base));
  }
  return vn::done();
}
