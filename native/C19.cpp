// C19: separating endpoints against a plain model, over random lists with duplicates and letter case
#include "vnative.h"
#include "recorder/stream_recorder/utility.h"
#include <set>
#include <strings.h>
using namespace lightstep;
using In = std::vector<std::pair<std::string, uint16_t>>;

static void check(const In& in) {
  std::string d = "endpoints";
  for (auto& e : in) d += " '" + e.first + "':" + std::to_string(e.second);
  vn::begin(d);
  const In before = in;
  auto r = SeparateEndpoints(in);
  VN_CHECK(in == before, "the input is unchanged");
  VN_CHECK(r.second.size() == in.size(), "one indexed endpoint per input");
  for (size_t i = 0; i < r.first.size(); ++i)
    for (size_t j = 0; j < i; ++j) VN_CHECK(strcasecmp(r.first[i], r.first[j]) != 0, "the hosts are pairwise different ignoring case");
  for (size_t i = 0; i < r.second.size() && i < in.size(); ++i) {
    VN_CHECK(r.second[i].second == in[i].second, "the ports are those of the input, in order");
    int k = r.second[i].first;
    bool ok = k >= 0 && static_cast<size_t>(k) < r.first.size();
    VN_CHECK(ok, "every index designates a host");
    if (ok) VN_CHECK(strcasecmp(r.first[k], in[i].first.c_str()) == 0, "the host designated equals the input's host ignoring case");
  }
}

int main(int argc, char** argv) {
  vn::init(argc, argv, "SeparateEndpoints keeps every endpoint and merges equal hosts");
  check({});
  check({{"localhost", 1}});
  check({{"a", 1}, {"A", 2}, {"b", 3}, {"a", 4}});
  check({{"", 1}, {"a", 2}, {"", 3}});
  check({{"Z", 1}, {"_", 2}, {"a", 3}, {"z", 4}, {"[", 5}, {"A", 6}});
  vn::Rng r(vn::seed);
  static const char* pool[] = {"", "a", "A", "b", "B", "ab", "aB", "AB", "_", "Z", "z", "[", "10.0.0.1", "10.0.0.2", "host.example", "HOST.example", "host.Example", "\xc3\xa9", "~", "-"};
  while (vn::time_left()) {
    In in;
    size_t n = r.below(r.chance(10) ? 200 : 12);
    for (size_t i = 0; i < n; ++i) {
      std::string h;
      if (r.chance(70)) h = pool[r.below(sizeof(pool) / sizeof(*pool))];
      else for (size_t k = r.below(30); k > 0; --k) h += static_cast<char>(r.chance(50) ? 'a' + r.below(4) : 'A' + r.below(4));
      in.emplace_back(h, static_cast<uint16_t>(r.below(65536)));
    }
    check(in);
  }
  return vn::done();
}
