#include <sys/wait.h>
#include <set>
#include <thread>
#include "common/random.h"
#include "vnative.h"
using namespace lightstep;
struct FixedSeq {
  uint32_t w[8]; size_t got = 0;
  template <class It> void generate(It b, It e) { got = e - b; size_t k = 0; for (; b != e; ++b) *b = w[k++ % 8]; }
};
static uint64_t ref(uint64_t* st) {
  uint64_t t = st[0], s = st[1];
  st[0] = s; t ^= t << 23; t ^= t >> 17; t ^= s ^ (s >> 26); st[1] = t;
  return t + s;
}
static void steps(vn::Rng& r, int mode) {
  FixedSeq q;
  for (auto& w : q.w) w = mode == 0 ? (uint32_t)r.next() : mode == 1 ? (r.chance(50) ? 0 : 1u << r.below(32)) : 0xffffffffu;
  if (mode == 1) q.w[r.below(4)] = 1u << r.below(32);
  std::ostringstream o; o << "seed words " << q.w[0] << "," << q.w[1] << "," << q.w[2] << "," << q.w[3];
  vn::begin(o.str());
  FastRandomNumberGenerator g{q};
  VN_CHECK(q.got == 4, "seed filled " << q.got << " of 4 words");
  uint64_t st[2] = {q.w[0] | ((uint64_t)q.w[1] << 32), q.w[2] | ((uint64_t)q.w[3] << 32)};
  for (int i = 0; i < 50; ++i) {
    auto a = g(), b = ref(st);
    VN_CHECK(a == b, "step " << i << " gave " << a << ", xorshift128+ gives " << b);
    if (a != b) break;
  }
}
template <class D> static void dur(vn::Rng& r, D a, D b, const char* u) {
  std::ostringstream o; o << "GenerateRandomDuration(" << a.count() << u << "," << b.count() << u << ")";
  vn::begin(o.str());
  for (int i = 0; i < 20; ++i) { auto d = GenerateRandomDuration(a, b); VN_CHECK(d >= a && d <= b, "drew " << d.count()); }
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random and sparse seeds against a reference xorshift128+, duration ranges, threads and forked children drawing ids");
  vn::Rng r(vn::seed);
  for (int i = 0; i < 4000; ++i) steps(r, i % 8 == 7 ? 2 : i % 2);
  for (int i = 0; i < 3000; ++i) {
    int64_t a = (int64_t)(r.next() >> (2 + r.below(60))) * (r.chance(50) ? 1 : -1), w = r.chance(30) ? r.below(3) : (int64_t)(r.next() >> (3 + r.below(60)));
    dur(r, std::chrono::nanoseconds{a}, std::chrono::nanoseconds{a + w}, "ns");
    dur(r, std::chrono::microseconds{a / 2000}, std::chrono::microseconds{a / 2000 + w / 2000}, "us");
    dur(r, std::chrono::milliseconds{a / 2000000}, std::chrono::milliseconds{a / 2000000 + w / 2000000}, "ms");
    dur(r, std::chrono::seconds{(int)r.below(100)}, std::chrono::seconds{100 + (int)r.below(5)}, "s");
  }
  // threads
  for (int round = 0; round < 4; ++round) {
    vn::begin("threads drawing ids");
    std::vector<std::vector<uint64_t>> ids(8);
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 64; ++i) ids[t].push_back(GenerateId()); });
    for (auto& t : ts) t.join();
    std::set<uint64_t> all;
    for (auto& v : ids) { VN_CHECK(v[0] != 0 || v[1] != 0, "first ids are zero: unseeded generator"); for (auto x : v) VN_CHECK(all.insert(x).second, "two threads drew the same id " << x); }
  }
  // fork: children differ from the parent and from each other; forks from used and from unused threads
  auto forks = [](const char* what, bool used) {
    vn::begin(what);
    if (used) GenerateId();
    std::set<uint64_t> all; int n = 0;
    for (int c = 0; c < 3; ++c) {
      int fd[2]; if (pipe(fd)) return;
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) { auto ids = GenerateIds<4>(); (void)!write(fd[1], ids.data(), 32); _exit(0); }
      close(fd[1]);
      uint64_t ids[4] = {0, 0, 0, 0}; ssize_t k = read(fd[0], ids, 32); close(fd[0]);
      int st; waitpid(p, &st, 0);
      VN_CHECK(k == 32, "child did not answer");
      for (auto x : ids) { ++n; VN_CHECK(all.insert(x).second, "two forked children drew the same id"); }
    }
    for (auto x : GenerateIds<4>()) VN_CHECK(all.insert(x).second, "parent and forked child drew the same id");
  };
  forks("fork from a thread that used its generator", true);
  forks("fork again", true);
  { std::thread t([&] { forks("fork from a thread that has not used its generator", false); }); t.join(); }
  { std::thread t([&] { forks("fork from a second thread that used its generator", true); }); t.join(); }
  // grandchild
  {
    vn::begin("grandchild");
    GenerateId();
    int fd[2]; if (pipe(fd)) return 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      pid_t q = fork();
      uint64_t x = GenerateId(); (void)!write(fd[1], &x, 8);
      if (q) { int st; waitpid(q, &st, 0); }
      _exit(0);
    }
    close(fd[1]); std::set<uint64_t> all; uint64_t x; int st; waitpid(p, &st, 0);
    int n = 0; while (read(fd[0], &x, 8) == 8) { ++n; VN_CHECK(all.insert(x).second, "child and grandchild drew the same id"); }
    VN_CHECK(n == 2, "missing answers"); VN_CHECK(all.insert(GenerateId()).second, "parent drew a child's id"); close(fd[0]);
  }
  return vn::done();
}
