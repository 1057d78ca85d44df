// reference model of fragment streams
#pragma once
#include <string>
#include <vector>
#include "common/fragment_input_stream.h"
#include "vnative.h"
using lightstep::Fragment;
using lightstep::FragmentInputStream;
using Frags = std::vector<std::string>;
static std::string show(const Frags& f) { std::ostringstream o; o << "["; for (auto& s : f) o << s.size() << " "; o << "]"; return o.str(); }
static std::string join(const Frags& f) { std::string r; for (auto& s : f) r += s; return r; }
// enumerate, stopping after `stop` fragments (-1: never)
static bool enumerate(const FragmentInputStream& s, Frags& out, int stop = -1) {
  int n = 0;
  return s.ForEachFragment([&](void* d, int size) {
    if (stop >= 0 && n > stop) vn::fail("callback called after it returned false");
    if (size < 0 || size > 1 << 24) { std::ostringstream o; o << "fragment of size " << size; vn::fail(o.str()); size = 0; }
    out.emplace_back(static_cast<const char*>(d), static_cast<size_t>(size));
    return n++ != stop;
  });
}
static void agree(const FragmentInputStream& s, const Frags& want, const char* what) {
  Frags got;
  bool r = enumerate(s, got);
  VN_CHECK(r, what << ": full iteration reported as stopped");
  VN_CHECK(got == want, what << ": enumerates " << show(got) << " instead of " << show(want) << (show(got) == show(want) ? " (bytes differ)" : ""));
  VN_CHECK(s.num_fragments() == (int)want.size(), what << ": num_fragments " << s.num_fragments() << " instead of " << want.size());
  VN_CHECK(s.empty() == want.empty(), what << ": empty() is wrong");
  for (int stop : {0, (int)want.size() / 2, (int)want.size() - 1}) {
    if (stop < 0 || stop >= (int)want.size()) continue;
    Frags part;
    bool p = enumerate(s, part, stop);
    VN_CHECK(!p, what << ": stopped iteration reported as complete (stop at " << stop << ")");
    VN_CHECK((int)part.size() == stop + 1 && std::equal(part.begin(), part.end(), want.begin()), what << ": iteration stopped at " << stop << " saw " << part.size() << " fragments");
  }
  Frags again; enumerate(s, again);
  VN_CHECK(again == want, what << ": iteration changed the stream");
}
// model of Seek(fi, pos) relative to the current position; fi < size, pos < size of that fragment
static void model_seek(Frags& f, int fi, int pos) { f.erase(f.begin(), f.begin() + fi); if (pos) f[0] = f[0].substr(pos); }
static std::string rnd(vn::Rng& r, int n) { std::string s(n, ' '); for (auto& c : s) c = (char)('a' + r.below(26)); return s; }
// an independent implementation, for code that takes any stream
struct RefStream : FragmentInputStream {
  Frags f; int seeks = 0, clears = 0;
  int num_fragments() const noexcept override { return (int)f.size(); }
  bool ForEachFragment(Callback cb) const noexcept override { for (auto& s : f) if (!cb((void*)s.data(), (int)s.size())) return false; return true; }
  void Clear() noexcept override { ++clears; f.clear(); }
  void Seek(int fi, int pos) noexcept override {
    ++seeks;
    if (fi < 0 || fi >= (int)f.size() || pos < 0 || pos >= (int)f[fi].size()) { std::ostringstream o; o << "Seek(" << fi << "," << pos << ") outside " << show(f); vn::fail(o.str()); return; }
    model_seek(f, fi, pos);
  }
};
