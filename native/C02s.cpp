#include <set>
#include "vsched.h"
#include "common/atomic_unique_ptr.h"
using namespace lightstep;
static std::set<const void*>* live = nullptr;
struct E { vs::Plain<int> d{"an element's content"}; E() { live->insert(this); d.set(7); } ~E() { if (!live->erase(this)) vn::fail("an element is destroyed twice"); } };
typedef std::unique_ptr<E> U;
int main(int argc, char** argv) {
  vn::init(argc, argv, "random schedules of 2-4 threads swapping, conditionally swapping and resetting over the real atomic owning pointer with simulated atomics: every element has one owner or is destroyed once");
  vn::Rng r(vn::seed);
  for (uint64_t c = 0; c < 3000000 && vn::time_left(); ++c) {
    int n = r.range(2, 4), each = r.range(1, 6); vs::p_switch = r.range(10, 80); vs::p_stale = r.range(0, 60); vs::p_spurious = r.range(0, 30);
    std::ostringstream o; o << n << " threads, " << each << " operations, schedule " << c; vn::begin(o.str());
    std::set<const void*> alive; live = &alive;
    {
      AtomicUniquePtr<E> a; std::vector<U> own(n); std::vector<std::function<void()>> f; uint64_t s = r.next();
      for (int k = 0; k < n; ++k) f.push_back([&, k] { vn::Rng q(s + k); U& u = own[k]; for (int i = 0; i < each; ++i) { int op = q.range(0, 4); E* mine = u.get();
        if (op == 0) u.reset(new E);
        if (op == 1 || op == 4) { if (!u) u.reset(new E); mine = u.get(); bool ok = a.SwapIfNull(u); if (ok ? u.get() != nullptr : u.get() != mine) vn::fail("a conditional swap left the wrong owner"); }
        if (op == 2) { a.Swap(u); if (u && !alive.count(u.get())) vn::fail("Swap returned a destroyed element"); }
        if (op == 3) { if (q.chance(50)) a.Reset(); else { E* e = u.release(); a.Reset(e); } }
        vs::point(); } });
      vs::run(r, f);
      std::set<const void*> owned; size_t cnt = 0;
      for (auto& u : own) if (u) { owned.insert(u.get()); ++cnt; }
      if (!a.IsNull()) { owned.insert(a.Get()); ++cnt; }
      VN_CHECK(owned.size() == cnt, "an element has two owners");
      VN_CHECK(owned == alive, alive.size() << " elements exist, " << owned.size() << " are owned");
      if (owned.size() != cnt || owned != alive) { for (auto& u : own) u.release(); U t; }
    }
    VN_CHECK(alive.empty(), alive.size() << " elements leaked");
  }
  return vn::done();
}
