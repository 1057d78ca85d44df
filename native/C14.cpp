// C14: the flat map against std::map
#include <map>
#include <memory>
#include "common/flat_map.h"
#include "vnative.h"
struct MoveOnly {
  std::unique_ptr<int> p; explicit MoveOnly(int v) : p(new int(v)) {}
  MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default;
};
template <class K> K key(int n);
template <> int key<int>(int n) { return n; }
template <> std::string key<std::string>(int n) { static const char* S[] = {"", "a", "A", "ab", "b", "long key with many characters in it that does not fit inline "}; return std::string(S[((n % 6) + 6) % 6]) + (n / 6 ? std::to_string(n / 6) : ""); }
template <class K> static void run(vn::Rng& r, const char* kind) {
  lightstep::FlatMap<K, MoveOnly> m; std::map<K, int> ref;
  std::ostringstream o; o << kind;
  int ops = r.range(1, 40), range = r.range(1, 60), mode = r.below(4);
  for (int k = 0; k < ops && !vn::fails; ++k) {
    int n = mode == 0 ? k : mode == 1 ? -k : (int)r.below(range) - range / 2, v = (int)r.below(1000000);
    K want = key<K>(n);
    o << " " << n; vn::begin(o.str());
    K given = want;
    auto it = m.insert_or_assign(std::move(given), MoveOnly(v));
    bool fresh = !ref.count(want); ref[want] = v;
    VN_CHECK(it >= m.begin() && it < m.end() && it->first == want && it->second.p && *it->second.p == v, "the returned entry is not the entry of the key" << (fresh ? " (new)" : " (assigned)"));
    VN_CHECK(m.as_vector().size() == ref.size() && !m.empty() && m.end() - m.begin() == (long)ref.size(), m.as_vector().size() << " entries instead of " << ref.size());
    auto x = m.begin();
    for (auto& e : ref) { if (x == m.end()) break; VN_CHECK(x->first == e.first && x->second.p && *x->second.p == e.second, "an entry is wrong, misplaced or missing"); ++x; }
    for (int q = -range / 2 - 2; q < range / 2 + 2; ++q) {
      K w = key<K>(q); auto f = m.find(w); auto g = ref.find(w);
      VN_CHECK((f == m.end()) == (g == ref.end()), "find(" << q << ") " << (f == m.end() ? "misses" : "invents") << " a key");
      if (f != m.end()) VN_CHECK(f->first == w && *f->second.p == g->second, "find(" << q << ") returns another entry");
    }
  }
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random insert-or-assign sequences of up to 40 operations (ascending, descending, random with repeats) on integer and string keys with move-only values; after every operation all entries, their order, and lookups of present and absent keys compared with std::map");
  vn::Rng r(vn::seed);
  { lightstep::FlatMap<int, int> m; vn::begin("empty map"); VN_CHECK(m.empty() && m.begin() == m.end() && m.find(3) == m.end() && m.as_vector().empty(), "a new map is not empty"); }
  for (int round = 0; round < 2000000 && vn::time_left(); ++round) {
    if (round % 2) run<int>(r, "int"); else run<std::string>(r, "string");
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
