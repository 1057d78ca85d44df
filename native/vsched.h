// Interleaving simulator for the real lock-free code: after this header, std::atomic and std::atomic_flag in the code under
// test are simulated objects.  Threads are fibers; every atomic operation is a scheduling point, weak exchanges may fail
// spuriously, and a load may return any store the C++11 model allows here (per-location history filtered by coherence and
// happens-before; seq_cst operations additionally synchronise with all earlier seq_cst operations, so every simulated
// execution is a permitted one).
#pragma once
#include <ucontext.h>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <functional>
#include <iterator>
#include <memory>
#include <mutex>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include "vnative.h"

namespace vs {
enum { MAXT = 8 };
struct Clock {
  uint32_t c[MAXT];
  Clock() { memset(c, 0, sizeof c); }
  void join(const Clock& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Thread { Clock clock, acq_pending, rel_fence; bool done = true; };
struct Fiber { ucontext_t ctx; std::vector<char> stack; std::function<void()> fn; };
static Thread th[MAXT];
static Clock sc_clock;
static int cur = 0, nthreads = 1;
static bool running = false;
static vn::Rng* rng = nullptr;
static int p_switch = 30, p_stale = 30, p_spurious = 10;
static uint64_t steps = 0, max_steps = 3000000;
static std::vector<Fiber> fibers;
static ucontext_t home;
static uint64_t now = 0;      // grows with every scheduling point

inline void point() {
  ++now;
  if (!running) return;
  if (++steps > max_steps) { vn::fail("no progress after very many steps of a fair schedule"); vn::emit_end(); printf("DONE\n"); fflush(stdout); _exit(1); }
  if (!rng->chance(p_switch)) return;
  int alive[MAXT], n = 0;
  for (int i = 0; i < nthreads; ++i) if (!th[i].done) alive[n++] = i;
  int next = alive[rng->below(n)];
  if (next == cur) return;
  int me = cur;
  cur = next;
  swapcontext(&fibers[me].ctx, &fibers[next].ctx);
}
// a spinning thread must let the others run
inline void entry() {
  fibers[cur].fn();
  th[cur].done = true;
  for (int k = 0; k < nthreads; ++k) {
    int i = (cur + 1 + k) % nthreads;
    if (!th[i].done) { cur = i; setcontext(&fibers[i].ctx); }
  }
  setcontext(&home);
}
inline void run(vn::Rng& r, std::vector<std::function<void()>> fns) {
  rng = &r;
  nthreads = static_cast<int>(fns.size());
  Clock start = th[0].clock;
  fibers.resize(nthreads);
  for (int i = 0; i < nthreads; ++i) {
    th[i] = Thread();
    th[i].clock = start;
    th[i].done = false;
    Fiber& f = fibers[i];
    f.stack.resize(256 * 1024);
    f.fn = fns[i];
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack.data();
    f.ctx.uc_stack.ss_size = f.stack.size();
    f.ctx.uc_link = &home;
    makecontext(&f.ctx, reinterpret_cast<void (*)()>(&entry), 0);
  }
  steps = 0;
  running = true;
  cur = static_cast<int>(r.below(nthreads));
  swapcontext(&home, &fibers[cur].ctx);
  running = false;
  Clock all;
  for (int i = 0; i < nthreads; ++i) all.join(th[i].clock);
  cur = 0;
  nthreads = 1;
  th[0] = Thread();
  th[0].clock = all;
  ++th[0].clock.c[0];
}
inline bool acq(std::memory_order o) { return o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst || o == std::memory_order_consume; }
inline bool rel(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
inline void sc(std::memory_order o) { if (o == std::memory_order_seq_cst) th[cur].clock.join(sc_clock); }
inline void sc_end(std::memory_order o) { if (o == std::memory_order_seq_cst) sc_clock.join(th[cur].clock); }
inline std::memory_order failure_order(std::memory_order o) { return o == std::memory_order_acq_rel ? std::memory_order_acquire : o == std::memory_order_release ? std::memory_order_relaxed : o; }

// ordinary data: every access must be ordered after the last write
template <class T>
struct Plain {
  T v{};
  int w = -1;
  uint32_t ep = 0;
  const char* what;
  explicit Plain(const char* n = "data") : what(n) {}
  void check() const { if (w >= 0 && th[cur].clock.c[w] < ep) vn::fail(std::string("data race: ") + what + " is accessed without being ordered after its last write"); }
  void set(T x) { check(); v = x; w = cur; ep = ++th[cur].clock.c[cur]; }
  T get() const { check(); return v; }
};
}  // namespace vs

namespace std {
template <class T>
class vf_atomic {
  struct Store { T v; int tid; uint32_t ep; vs::Clock rel; };
  mutable std::deque<Store> h;
  mutable size_t base = 0, seen[vs::MAXT];
  void put(T v, memory_order o, const vs::Clock* chain) {
    vs::Thread& t = vs::th[vs::cur];
    Store s;
    s.v = v; s.tid = vs::cur; s.ep = ++t.clock.c[vs::cur];
    if (chain) s.rel = *chain;
    if (vs::rel(o)) s.rel.join(t.clock); else s.rel.join(t.rel_fence);
    h.push_back(s);
    seen[vs::cur] = base + h.size() - 1;
    while (h.size() > 8) { h.pop_front(); ++base; }
  }
  void took(const Store& s, memory_order o) const {
    vs::Thread& t = vs::th[vs::cur];
    if (vs::acq(o)) t.clock.join(s.rel); else t.acq_pending.join(s.rel);
  }
  T rmw(memory_order o, const std::function<T(T)>& f) {
    vs::point(); vs::sc(o);
    Store s = h.back();
    took(s, o);
    put(f(s.v), o, &s.rel);
    vs::sc_end(o);
    return s.v;
  }
 public:
  vf_atomic() noexcept : vf_atomic(T()) {}
  vf_atomic(T v) noexcept { for (size_t& s : seen) s = 0; put(v, memory_order_relaxed, nullptr); }
  vf_atomic(const vf_atomic&) = delete;
  vf_atomic& operator=(const vf_atomic&) = delete;
  T load(memory_order o = memory_order_seq_cst) const noexcept {
    vs::point(); vs::sc(o);
    vs::Thread& t = vs::th[vs::cur];
    size_t last = base + h.size() - 1, lo = std::max(base, seen[vs::cur] > base ? seen[vs::cur] : base);
    for (size_t i = last + 1; i-- > lo;) { const Store& s = h[i - base]; if (t.clock.c[s.tid] >= s.ep) { lo = i; break; } }
    size_t k = last;
    if (vs::running && lo < last && vs::rng->chance(vs::p_stale)) k = lo + vs::rng->below(last - lo + 1);
    seen[vs::cur] = k;
    Store s = h[k - base];
    took(s, o);
    vs::sc_end(o);
    return s.v;
  }
  operator T() const noexcept { return load(); }
  void store(T v, memory_order o = memory_order_seq_cst) noexcept { vs::point(); vs::sc(o); put(v, o, nullptr); vs::sc_end(o); }
  T operator=(T v) noexcept { store(v); return v; }
  T exchange(T v, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [v](T) { return v; }); }
  bool cas(T& e, T d, memory_order o, memory_order fo, bool weak) {
    vs::point();
    if (weak && vs::running && vs::rng->chance(vs::p_spurious)) {
      // a spurious failure still loads the current value
      vs::sc(fo); Store s = h.back(); took(s, fo); seen[vs::cur] = base + h.size() - 1; vs::sc_end(fo);
      e = s.v; return false;
    }
    Store s = h.back();
    if (s.v == e) { vs::sc(o); took(s, o); put(d, o, &s.rel); vs::sc_end(o); return true; }
    vs::sc(fo); took(s, fo); seen[vs::cur] = base + h.size() - 1; vs::sc_end(fo);
    e = s.v;
    return false;
  }
  bool compare_exchange_weak(T& e, T d, memory_order o, memory_order fo) noexcept { return cas(e, d, o, fo, true); }
  bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst) noexcept { return cas(e, d, o, vs::failure_order(o), true); }
  bool compare_exchange_strong(T& e, T d, memory_order o, memory_order fo) noexcept { return cas(e, d, o, fo, false); }
  bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst) noexcept { return cas(e, d, o, vs::failure_order(o), false); }
  template <class U> T fetch_add(U n, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [n](T x) { return static_cast<T>(x + n); }); }
  template <class U> T fetch_sub(U n, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [n](T x) { return static_cast<T>(x - n); }); }
  template <class U> T fetch_and(U n, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [n](T x) { return static_cast<T>(x & n); }); }
  template <class U> T fetch_or(U n, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [n](T x) { return static_cast<T>(x | n); }); }
  template <class U> T operator+=(U n) noexcept { return fetch_add(n) + n; }
  template <class U> T operator-=(U n) noexcept { return fetch_sub(n) - n; }
  T operator++() noexcept { return fetch_add(1) + 1; }
  T operator--() noexcept { return fetch_sub(1) - 1; }
  T operator++(int) noexcept { return fetch_add(1); }
  T operator--(int) noexcept { return fetch_sub(1); }
  bool is_lock_free() const noexcept { return true; }
};
class vf_atomic_flag {
  vf_atomic<int> v{0};
 public:
  vf_atomic_flag() noexcept {}
  vf_atomic_flag(int) noexcept {}
  bool test_and_set(memory_order o = memory_order_seq_cst) noexcept { return v.exchange(1, o) != 0; }
  void clear(memory_order o = memory_order_seq_cst) noexcept { v.store(0, o); }
};
inline void vf_atomic_thread_fence(memory_order o) noexcept {
  vs::point(); vs::sc(o);
  vs::Thread& t = vs::th[vs::cur];
  if (vs::acq(o)) t.clock.join(t.acq_pending);
  if (vs::rel(o)) t.rel_fence = t.clock;
  vs::sc_end(o);
}
}  // namespace std
#define atomic vf_atomic
#define atomic_flag vf_atomic_flag
#define atomic_thread_fence vf_atomic_thread_fence
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {0}
