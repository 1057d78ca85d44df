#include "common/circular_buffer_range.h"
#include "vnative.h"
template <class E> static void run(vn::Rng& r, const char* ty) {
  std::vector<E> buf(r.range(1, 12)); int N = buf.size();
  int a1 = r.below(N), n1 = r.below(N - a1 + 1), n2 = n1 ? r.below(N + 1) : 0, a2 = r.below(N - n2 + 1); bool nul = n2 == 0 && r.chance(50), none = n1 == 0 && r.chance(50);
  std::vector<E*> want; for (int i = 0; i < n1; ++i) want.push_back(&buf[a1 + i]); for (int i = 0; i < n2; ++i) want.push_back(&buf[a2 + i]);
  E* d = buf.data();
  using R = lightstep::CircularBufferRange<E>;
  R rg = none ? R{} : R{d + a1, d + a1 + n1, nul ? nullptr : d + a2, nul ? nullptr : d + a2 + n2};
  std::ostringstream o; o << ty << " buffer " << N << " parts [" << a1 << "+" << n1 << "] [" << a2 << "+" << n2 << "]"; 
  auto check = [&](const R& x, size_t n, const std::string& what) {
    vn::begin(o.str() + " " + what);
    VN_CHECK(x.size() == n, what << ": size " << x.size() << " instead of " << n);
    VN_CHECK(x.empty() == (n == 0), what << ": empty() is wrong");
    for (int stop = -1; stop <= (int)n; ++stop) {
      std::vector<E*> got; int k = 0;
      bool ok = x.ForEach([&](E& e) noexcept { got.push_back(&e); return k++ != stop; });
      size_t m = stop < 0 || stop >= (int)n ? n : stop + 1;
      VN_CHECK(got.size() == m && std::equal(got.begin(), got.end(), want.begin()), what << ": visited " << got.size() << " elements (or wrong ones) instead of " << m << " stopping at " << stop);
      VN_CHECK(ok == (m == n && !(stop >= 0 && stop < (int)n)), what << ": reported " << ok << " stopping at " << stop);
    }
  };
  check(rg, want.size(), "range");
  for (size_t n = 0; n <= want.size(); ++n) { R t = rg.Take(n); check(t, n, "Take(" + std::to_string(n) + ")"); for (size_t k = 0; k <= n; k += 1 + r.below(3)) check(t.Take(k), k, "Take of Take"); }
  lightstep::CircularBufferRange<const E> c = rg; size_t k = 0;
  bool all = c.ForEach([&](const E& e) noexcept { bool ok = k < want.size() && &e == want[k]; ++k; return ok; });
  VN_CHECK(all && k == want.size() && c.size() == want.size() && c.empty() == want.empty(), "conversion to a constant range");
}
struct Big { long a, b, c; };
int main(int argc, char** argv) {
  vn::init(argc, argv, "random two-part ranges (empty, one part, both parts, null parts) of 1-, 8- and 24-byte elements; every stop position; every Take and Take of Take");
  vn::Rng r(vn::seed);
  for (long round = 0; round < 5000000 && vn::time_left(); ++round) { run<char>(r, "char"); run<long>(r, "long"); run<Big>(r, "24-byte"); if (vn::fails) break; }
  return vn::done();
}
