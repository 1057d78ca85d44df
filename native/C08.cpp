#include "network/vector_write.h"
#include <cerrno>
#include <memory>
#include <stdexcept>
#include <sys/uio.h>
#include "common/fragment_array_input_stream.h"
#include "streams.h"
// the socket: accepts bytes according to a plan, records what it accepted
static vn::Rng* R; static std::string sink; static int mode, calls, wantfd; static bool refused, hard; static std::string problem; static long total_budget;
extern "C" ssize_t __wrap_writev(int fd, const struct iovec* iov, int n) {
  ++calls;
  if (fd != wantfd) problem = "wrong socket";
  if (refused) problem = "written again after the socket accepted less than it was offered";
  if (n <= 0 || n > 1024) { problem = "batch of " + std::to_string(n) + " buffers"; errno = EINVAL; refused = hard = true; return -1; }
  std::string batch;
  for (int i = 0; i < n; ++i) batch.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
  int m = mode;
  if (m == 3) m = R->chance(70) ? 0 : R->range(0, 2);
  if (m == 1 && R->chance(50)) { static const int errs[] = {EAGAIN, EWOULDBLOCK}; errno = errs[R->below(2)]; refused = true; return -1; }
  if (m == 2 && R->chance(40)) { static const int errs[] = {EPIPE, ECONNRESET, EBADF, ENOBUFS, EIO}; errno = errs[R->below(5)]; refused = hard = true; return -1; }
  size_t take = batch.size();
  if (m == 1 || m == 2 || total_budget < (long)take) {
    if (m) { take = R->chance(30) ? take : R->below(take + 1); if (R->chance(30)) { size_t s = 0; int k = R->below(n + 1); for (int i = 0; i < k; ++i) s += iov[i].iov_len; take = s; } }
    if ((long)take > total_budget) take = total_budget;
    if (take < batch.size()) refused = true;
    if (take == 0 && batch.size()) { errno = EAGAIN; return -1; }
  }
  total_budget -= take;
  sink.append(batch, 0, take);
  return (ssize_t)take;
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random lists of 0-4 streams (0 to 3000 fragments, zero-size fragments, empty streams; reference streams and fragment arrays), sockets that accept everything, part, nothing, or fail with a hard error; repeated writes until everything is sent");
  vn::Rng r(vn::seed); R = &r;
  for (int round = 0; round < 2000000 && vn::time_left(); ++round) {
    RefStream s[4]; int k = r.below(5); std::ostringstream o; bool zero = r.chance(30);
    for (int i = 0; i < k; ++i) {
      int n = r.chance(8) ? (r.chance(50) ? r.range(1020, 1030) : r.range(100, 3000)) : r.below(5);
      if (round % 50 == 0 && i == 0) n = 1024 * r.range(1, 2);
      o << n << " ";
      for (int j = 0; j < n; ++j) s[i].f.push_back(rnd(r, r.range(zero ? 0 : 1, n > 100 ? 3 : 12)));
    }
    std::string all; for (int i = 0; i < k; ++i) all += join(s[i].f);
    sink.clear(); mode = r.below(4); wantfd = r.range(3, 1000);
    for (int step = 0; step < 40; ++step) {
      total_budget = r.chance(50) ? 1 << 30 : (long)r.below(all.size() + 2);
      std::ostringstream t; t << "fragments " << o.str() << (zero ? "with empty ones" : "") << " mode " << mode << " step " << step << " sent " << sink.size() << " of " << all.size(); vn::begin(t.str());
      refused = hard = false; problem.clear(); calls = 0;
      for (int i = 0; i < k; ++i) s[i].seeks = s[i].clears = 0;
      bool res = false, thrown = false;
      size_t before = sink.size();
      try {
        if (k == 0) res = lightstep::Write(wantfd, {}); else if (k == 1) res = lightstep::Write(wantfd, {&s[0]}); else if (k == 2) res = lightstep::Write(wantfd, {&s[0], &s[1]});
        else if (k == 3) res = lightstep::Write(wantfd, {&s[0], &s[1], &s[2]}); else res = lightstep::Write(wantfd, {&s[0], &s[1], &s[2], &s[3]});
      } catch (const std::runtime_error&) { thrown = true; }
      VN_CHECK(problem.empty(), problem);
      VN_CHECK(thrown == hard, (thrown ? "an error was raised without a hard error" : "a hard error was not raised"));
      VN_CHECK(sink == all.substr(0, sink.size()), "the socket received wrong bytes (after " << before << ")");
      std::string left; for (int i = 0; i < k; ++i) left += join(s[i].f);
      VN_CHECK(left == all.substr(std::min(all.size(), sink.size())), "the streams hold " << left.size() << " bytes after " << sink.size() << " of " << all.size() << " were accepted");
      if (!thrown) VN_CHECK(res == left.empty(), "reported " << res << " with " << left.size() << " bytes left");
      if (!thrown && !res) VN_CHECK(refused, "stopped although the socket accepted everything offered");
      if (vn::fails) return vn::done();
      if (res || (left.empty() && step > 1)) break;
    }
    std::string a = rnd(r, 5), b = rnd(r, 7); lightstep::FragmentArrayInputStream fa{Fragment{(void*)a.data(), 5}, Fragment{(void*)b.data(), 7}};
    sink.clear(); mode = 0; total_budget = r.below(14); refused = hard = false; problem.clear(); vn::begin("fragment array, budget " + std::to_string(total_budget));
    bool res = lightstep::Write(wantfd, {&fa}); Frags g; enumerate(fa, g);
    VN_CHECK(sink + join(g) == a + b && res == g.empty() && problem.empty(), "fragment array write " << problem);
  }
  return vn::done();
}
