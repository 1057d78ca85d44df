#include <map>
#include <set>
#include "vsched.h"
#include "common/circular_buffer.h"
using namespace lightstep;
static std::set<const void*>* live = nullptr;
struct E {
  int producer, number; uint64_t started = 0, accepted = 0; vs::Plain<int> body{"an element's content"};
  E(int p, int n) : producer(p), number(n) { live->insert(this); body.set(p * 1000 + n); }
  ~E() { if (!live->erase(this)) vn::fail("an element is destroyed twice"); }
};
typedef std::unique_ptr<E> U;
typedef CircularBuffer<E> CB;
typedef CircularBufferRange<AtomicUniquePtr<E>> R;
typedef CircularBufferRange<const AtomicUniquePtr<E>> RC;

static void sequential(vn::Rng& r) {
  int cap = r.range(0, 6), len = r.range(1, 40);
  std::ostringstream o; o << "sequential: max_size " << cap << ":";
  std::vector<std::pair<char, int>> ops;
  for (int i = 0; i < len; ++i) { char k = "AAAACCKLP"[r.below(9)]; ops.emplace_back(k, r.range(0, 7)); o << ' ' << k << ops.back().second; }
  vn::begin(o.str());
  std::set<const void*> alive; live = &alive;
  {
    CB b{static_cast<size_t>(cap)};
    std::deque<int> q; int next = 0; int64_t in = 0, out = 0;
    for (auto& op : ops) {
      int n = op.second;
      switch (op.first) {
        case 'A': {
          U u{new E(0, next)}; E* p = u.get();
          bool ok = b.Add(u);
          VN_CHECK(ok == (static_cast<int>(q.size()) < cap), "Add returned " << ok << " with " << q.size() << " of " << cap << " stored");
          if (ok) { VN_CHECK(!u, "the caller still owns an accepted element"); q.push_back(next); ++in; }
          else VN_CHECK(u.get() == p, "a refused element does not stay with the caller");
          ++next; break;
        }
        case 'C': {
          size_t k = std::min<size_t>(n, q.size()); std::vector<int> got;
          int calls = 0;
          b.Consume(k, [&](R& rg) noexcept { ++calls; VN_CHECK(rg.size() == k, "Consume passes " << rg.size() << " elements, not " << k); rg.ForEach([&](AtomicUniquePtr<E>& p) noexcept { if (p.IsNull()) { vn::fail("an element is missing"); return true; } got.push_back(p->number); p.Reset(); return true; }); });
          VN_CHECK(calls == 1, "the callback was called " << calls << " times");
          for (size_t i = 0; i < k; ++i) { VN_CHECK(i < got.size() && got[i] == q.front(), "consumed the wrong element"); q.pop_front(); }
          VN_CHECK(got.size() == k, "consumed " << got.size() << " elements, not " << k);
          out += k; break;
        }
        case 'K': { size_t k = std::min<size_t>(n, q.size()); b.Consume(k); while (k--) { q.pop_front(); ++out; } break; }
        case 'L': if (n < 2) { b.Clear(); out += q.size(); q.clear(); } break;
        case 'P': {
          std::vector<int> got; RC rc = b.Peek(); rc.ForEach([&](const AtomicUniquePtr<E>& p) { got.push_back(p.IsNull() ? -1 : p->number); return true; });
          VN_CHECK(got == std::vector<int>(q.begin(), q.end()), "Peek shows other elements than those stored"); break;
        }
      }
      VN_CHECK(b.size() == q.size() && b.empty() == q.empty(), "size " << b.size() << ", should be " << q.size());
      VN_CHECK(b.max_size() == static_cast<size_t>(cap), "max_size " << b.max_size());
      VN_CHECK(b.production_count() == in && b.consumption_count() == out, "counts " << b.production_count() << "/" << b.consumption_count() << ", should be " << in << "/" << out);
      VN_CHECK(alive.size() == q.size(), alive.size() << " elements exist, " << q.size() << " are stored");
    }
  }
  VN_CHECK(alive.empty(), alive.size() << " elements leaked");
}

static void concurrent(vn::Rng& r, uint64_t id) {
  int cap = r.range(1, 5), np = r.range(1, 4), each = r.range(1, 6), tries = r.range(1, 60);
  vs::p_switch = r.range(5, 70); vs::p_stale = r.range(0, 60); vs::p_spurious = r.range(0, 30);
  std::ostringstream o; o << "concurrent: max_size " << cap << ", " << np << " producers of " << each << " elements, up to " << tries << " tries, schedule " << id;
  vn::begin(o.str());
  std::set<const void*> alive; live = &alive;
  struct Rec { uint64_t started, returned; int producer, number; };
  std::vector<Rec> acc; std::vector<std::pair<int, int>> got; int refused = 0;
  {
    CB b{static_cast<size_t>(cap)};
    int left = np;
    std::vector<std::function<void()>> fns;
    for (int p = 0; p < np; ++p) fns.push_back([&, p] {
      for (int i = 0; i < each; ++i) {
        U u{new E(p, i)}; E* e = u.get(); bool ok = false;
        for (int t = 0; t < tries && !ok; ++t) {
          uint64_t s = vs::now; ok = b.Add(u);
          if (ok) { if (u) vn::fail("the caller still owns an accepted element"); acc.push_back(Rec{s, vs::now, p, i}); }
          else if (u.get() != e) { vn::fail("a refused element does not stay with the caller"); u.release(); break; }
        }
        if (!ok) ++refused;
      }
      --left;
    });
    fns.push_back([&] {
      vn::Rng q(id);
      auto take = [&](size_t n) {
        if (q.chance(80)) b.Consume(n, [&](R& rg) noexcept {
          if (rg.size() != n) vn::fail("Consume passes the wrong number of elements");
          rg.ForEach([&](AtomicUniquePtr<E>& p) noexcept {
            if (p.IsNull()) { vn::fail("the consumer is handed an empty slot"); return true; }
            E* e = p.Get();
            if (!alive.count(e)) { vn::fail("the consumer is handed a destroyed element"); return true; }
            if (e->body.get() != e->producer * 1000 + e->number) vn::fail("the consumer sees wrong content");
            got.emplace_back(e->producer, e->number); p.Reset(); return true; }); });
        else {
          size_t k = 0; b.Peek().ForEach([&](const AtomicUniquePtr<E>& p) { if (k == n) return false; ++k; if (p.IsNull() || !alive.count(p.Get())) { vn::fail("Peek shows an empty slot or a destroyed element"); return false; } got.emplace_back(p->producer, p->number); return true; });
          b.Consume(n);
        }
      };
      while (left > 0) {
        if (q.chance(40)) b.Peek().ForEach([&](const AtomicUniquePtr<E>& p) { if (p.IsNull() || !alive.count(p.Get())) { vn::fail("Peek shows an empty slot or a destroyed element"); return false; } p->body.get(); return true; });
        size_t n = b.size();
        if (n > static_cast<size_t>(cap)) { vn::fail("more elements stored than the maximum"); break; }
        if (n && q.chance(60)) take(q.range(0, static_cast<int>(n)));
        if (!n && vs::steps > vs::max_steps / 2) break;
      }
    });
    vs::run(r, fns);
    b.Consume(b.size(), [&](R& rg) noexcept { rg.ForEach([&](AtomicUniquePtr<E>& p) noexcept { if (p.IsNull()) { vn::fail("the consumer is handed an empty slot"); return true; } got.emplace_back(p->producer, p->number); p.Reset(); return true; }); });
    if (static_cast<size_t>(b.production_count()) != acc.size()) vn::fail("production_count is not the number of accepted elements");
    VN_CHECK(got.size() == acc.size(), acc.size() << " elements accepted, " << got.size() << " consumed");
    VN_CHECK(acc.size() + refused == static_cast<size_t>(np * each), "accepted " << acc.size() << ", refused " << refused);
    std::map<std::pair<int, int>, size_t> at; for (size_t i = 0; i < got.size(); ++i) if (!at.emplace(got[i], i).second) vn::fail("an element is handed over twice");
    for (auto& a : acc) for (auto& c : acc) if (a.returned <= c.started && at.count({a.producer, a.number}) && at.count({c.producer, c.number}) && at[{a.producer, a.number}] > at[{c.producer, c.number}]) { vn::fail("elements are handed over out of acceptance order"); break; }
    for (auto& a : acc) if (!at.count({a.producer, a.number})) vn::fail("an accepted element is never handed over");
    VN_CHECK(alive.empty(), alive.size() << " elements remain after everything was consumed");
  }
  VN_CHECK(alive.empty(), alive.size() << " elements leaked");
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random single-threaded histories against a queue; random schedules of 1-4 producers and one consumer over the real code with simulated atomics (all interleavings of atomic steps, spurious failures, stale reads the memory model permits), checking exactly-once, order, bounds, ownership and race freedom");
  vn::Rng r(vn::seed);
  for (uint64_t c = 0; vn::time_left(); ++c) {
    sequential(r);
    for (int i = 0; i < 3; ++i) concurrent(r, r.next() % 1000000007);
  }
  return vn::done();
}
