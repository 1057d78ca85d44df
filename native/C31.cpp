// C31: random span fields written by the real code into streams of all block sizes, parsed by protobuf
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <cstring>
#include <map>
#include "lightstep-tracer-common/collector.pb.h"
#include "tracer/serialization.h"
#include "vnative.h"
namespace c = lightstep::collector; namespace ot = opentracing;
struct Blocks : google::protobuf::io::ZeroCopyOutputStream {
  std::vector<std::vector<char>> blocks; size_t size, last = 0, backed = 0; explicit Blocks(size_t n) : size(n) {}
  bool Next(void** p, int* n) override { blocks.emplace_back(size); *p = blocks.back().data(); *n = (int)size; return true; }
  void BackUp(int n) override { blocks.back().resize(blocks.back().size() - n); }
  int64_t ByteCount() const override { int64_t n = 0; for (auto& b : blocks) n += b.size(); return n; }
  std::string text() const { std::string s; for (auto& b : blocks) s.append(b.begin(), b.end()); return s; }
};
static uint64_t number(vn::Rng& r) { int b = r.below(65); if (!b) return 0; uint64_t top = b == 64 ? ~0ull : (1ull << b) - 1; switch (r.below(4)) { case 0: return top; case 1: return top ^ (top >> 1); case 2: return top + 1; default: return r.next() & top; } }
static std::string text(vn::Rng& r) {
  size_t n = r.chance(20) ? 0 : r.chance(80) ? r.below(20) : r.chance(70) ? 120 + r.below(20) : r.below(20000); std::string s;
  while (s.size() < n) { if (r.chance(5)) s += "\xc3\xa9"; else s.push_back(char(32 + r.below(95))); }
  return s;
}
static bool same(double a, double b) { return !std::memcmp(&a, &b, 8); }
struct Val { int k; ot::Value v; Val(int k_, ot::Value v_) : k(k_), v(v_) {} bool b = false; double d = 0; int64_t i = 0; std::string s; };
static std::vector<std::string> keep;
static Val value(vn::Rng& r) {
  switch (r.below(9)) {
    case 0: { bool b = r.chance(50); Val x{0, ot::Value(b)}; x.b = b; return x; }
    case 1: { uint64_t n = r.chance(30) ? number(r) : r.next(); double d; std::memcpy(&d, &n, 8); if (d != d) d = -0.0; Val x{1, ot::Value(d)}; x.d = d; return x; }
    case 2: { int64_t i = (int64_t)number(r); if (r.chance(30)) i = (int64_t)(0 - (uint64_t)i); Val x{2, ot::Value(i)}; x.i = i; return x; }
    case 3: { uint64_t u = number(r); Val x{2, ot::Value(u)}; x.i = (int64_t)u; return x; }
    case 4: { std::string s = text(r); Val x{3, ot::Value(s)}; x.s = s; return x; }
    case 5: return Val{0, ot::Value(nullptr)};
    case 6: { keep.push_back(text(r)); Val x{3, ot::Value(keep.back().c_str())}; x.s = keep.back(); return x; }
    case 7: { ot::Values v; std::string s = "["; for (int n = r.below(4), j = 0; j < n; ++j) { int q = r.below(100000); v.emplace_back(q); s += (j ? "," : "") + std::to_string(q); } Val x{4, ot::Value(v)}; x.s = s + "]"; return x; }
    default: { ot::Dictionary d; std::string s = "{"; if (r.chance(80)) { std::string t = "k" + std::to_string(r.below(1000)); d.emplace(t, ot::Value(true)); s += "\"" + t + "\":true"; } Val x{4, ot::Value(d)}; x.s = s + "}"; return x; }
  }
}
static void check(const c::KeyValue& kv, const std::string& key, const Val& v, const char* what) {
  VN_CHECK(kv.key() == key, what << ": key " << kv.key() << " instead of " << key);
  switch (v.k) {
    case 0: VN_CHECK(kv.value_case() == c::KeyValue::kBoolValue && kv.bool_value() == v.b, what << ": a boolean came back as " << kv.ShortDebugString()); break;
    case 1: VN_CHECK(kv.value_case() == c::KeyValue::kDoubleValue && same(kv.double_value(), v.d), what << ": the double " << v.d << " came back as " << kv.ShortDebugString()); break;
    case 2: VN_CHECK(kv.value_case() == c::KeyValue::kIntValue && kv.int_value() == v.i, what << ": the integer " << v.i << " came back as " << kv.ShortDebugString()); break;
    case 3: VN_CHECK(kv.value_case() == c::KeyValue::kStringValue && kv.string_value() == v.s, what << ": a text of " << v.s.size() << " characters came back as one of " << kv.string_value().size()); break;
    default: VN_CHECK(kv.value_case() == c::KeyValue::kJsonValue && kv.json_value() == v.s, what << ": the container " << v.s << " came back as " << kv.ShortDebugString());
  }
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random spans: ids, times and durations of every bit length and their boundaries, texts of 0 to 20000 bytes around the varint boundaries, all nine kinds of values in tags and logs, 0 to 12 fields per log in both forms, 0 to 6 baggage items; written into streams with blocks of 1 to 4096 bytes (reserved directly and not), parsed by protobuf");
  vn::Rng r(vn::seed);
  for (long round = 0; vn::time_left(); ++round) {
    keep.clear(); keep.reserve(200);
    static const size_t B[] = {1, 2, 7, 16, 64, 200, 256, 4096}; size_t block = B[r.below(8)];
    std::ostringstream o; o << "round " << round << " blocks of " << block; vn::begin(o.str());
    Blocks z(block); std::string name = text(r); uint64_t trace = number(r), span = number(r), start = number(r) >> 1, dur = number(r) >> 1;
    std::vector<std::pair<std::string, std::string>> bag; for (int n = r.below(7), j = 0; j < n; ++j) bag.emplace_back("b" + std::to_string(j) + std::string(r.below(30), char(97 + j)), text(r));
    std::vector<std::pair<std::string, Val>> tags; for (int n = r.below(6), j = 0; j < n; ++j) { std::string k = text(r); tags.emplace_back(k, value(r)); }
    struct Ref { bool child; uint64_t t, s; }; std::vector<Ref> refs; for (int n = r.below(4), j = 0; j < n; ++j) refs.push_back({r.chance(50), number(r), number(r)});
    struct L { int64_t t; bool view; std::vector<std::pair<std::string, Val>> f; }; std::vector<L> logs;
    for (int n = r.below(4), j = 0; j < n; ++j) { L l; l.t = number(r) >> 1; l.view = r.chance(50); for (int m = r.below(13); m > 0; --m) { std::string k = text(r); l.f.emplace_back(k, value(r)); } logs.push_back(l); }
    auto sys = [](int64_t n) { return std::chrono::system_clock::time_point{std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds{n})}; };
    {
      google::protobuf::io::CodedOutputStream cs(&z);
      lightstep::WriteSpanContext(cs, trace, span, bag); lightstep::WriteOperationName(cs, name);
      for (auto& x : refs) lightstep::WriteSpanReference(cs, x.child ? ot::SpanReferenceType::ChildOfRef : ot::SpanReferenceType::FollowsFromRef, x.t, x.s);
      lightstep::WriteStartTimestamp(cs, sys(start));
      for (auto& t : tags) lightstep::WriteTag(cs, t.first, t.second.v);
      for (auto& l : logs) {
        if (l.view) { std::vector<std::pair<ot::string_view, ot::Value>> f; for (auto& x : l.f) f.emplace_back(x.first, x.second.v); lightstep::WriteLog(cs, sys(l.t), f.data(), f.data() + f.size()); }
        else { std::vector<std::pair<std::string, ot::Value>> f; for (auto& x : l.f) f.emplace_back(x.first, x.second.v); lightstep::WriteLog(cs, sys(l.t), f.data(), f.data() + f.size()); }
      }
      lightstep::WriteDuration(cs, std::chrono::nanoseconds{(int64_t)dur});
    }
    c::Span p; std::string s = z.text();
    bool ok = p.ParseFromString(s); VN_CHECK(ok, "the span does not parse");
    if (!ok) return vn::done();
    VN_CHECK(p.span_context().trace_id() == trace && p.span_context().span_id() == span, "ids " << p.span_context().trace_id() << "," << p.span_context().span_id() << " instead of " << trace << "," << span);
    VN_CHECK(p.span_context().baggage().size() == bag.size(), "baggage items " << p.span_context().baggage().size());
    for (auto& b : bag) { auto i = p.span_context().baggage().find(b.first); VN_CHECK(i != p.span_context().baggage().end() && i->second == b.second, "baggage item " << b.first << " is missing or different"); }
    VN_CHECK(p.operation_name() == name, "operation name"); VN_CHECK(p.duration_micros() == dur / 1000, "duration " << p.duration_micros() << " instead of " << dur / 1000);
    VN_CHECK((uint64_t)p.start_timestamp().seconds() == start / 1000000000 && (uint64_t)p.start_timestamp().nanos() == start % 1000000000, "start " << p.start_timestamp().ShortDebugString() << " instead of " << start);
    VN_CHECK(p.references_size() == (int)refs.size(), "references");
    for (size_t j = 0; j < refs.size() && j < (size_t)p.references_size(); ++j) { auto& q = p.references(j); VN_CHECK(q.relationship() == (refs[j].child ? c::Reference::CHILD_OF : c::Reference::FOLLOWS_FROM) && q.span_context().trace_id() == refs[j].t && q.span_context().span_id() == refs[j].s, "reference " << j << ": " << q.ShortDebugString()); }
    VN_CHECK(p.tags_size() == (int)tags.size(), "tags");
    for (size_t j = 0; j < tags.size() && j < (size_t)p.tags_size(); ++j) check(p.tags(j), tags[j].first, tags[j].second, "tag");
    VN_CHECK(p.logs_size() == (int)logs.size(), "logs");
    for (size_t j = 0; j < logs.size() && j < (size_t)p.logs_size(); ++j) {
      auto& q = p.logs(j); VN_CHECK(q.timestamp().seconds() == logs[j].t / 1000000000 && q.timestamp().nanos() == logs[j].t % 1000000000, "log time " << q.timestamp().ShortDebugString());
      VN_CHECK(q.fields_size() == (int)logs[j].f.size(), "log fields " << q.fields_size() << " instead of " << logs[j].f.size());
      for (int m = 0; m < q.fields_size() && m < (int)logs[j].f.size(); ++m) check(q.fields(m), logs[j].f[m].first, logs[j].f[m].second, "log field");
    }
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
