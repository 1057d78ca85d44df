// C12: frames decoded by hand and by protobuf
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include "common/protobuf.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "recorder/serialization/embedded_metrics_message.h"
#include "vnative.h"
namespace c = lightstep::collector;
static size_t vlen(uint64_t v) { size_t n = 1; while (v >>= 7) ++n; return n; }
static bool varint(const std::string& s, size_t& at, uint64_t& v) {
  v = 0;
  for (int k = 0; k < 10 && at < s.size(); ++k) { unsigned char b = s[at++]; v |= uint64_t(b & 127) << (7 * k); if (!(b & 128)) return true; }
  return false;
}
static size_t hint(vn::Rng& r, int top) { int b = r.below(top); size_t base = size_t(1) << b; return r.chance(40) ? base - 1 + r.below(3) : base + r.below(base); }
static void frame(const std::string& s, uint32_t field, const std::string& body, const char* what) {
  size_t at = 0; uint64_t k = 0, n = 0;
  VN_CHECK(varint(s, at, k) && k == (uint64_t(field) << 3 | 2) && at == vlen(k), what << ": key " << k << " for field " << field);
  size_t at2 = at;
  VN_CHECK(varint(s, at, n) && n == body.size() && at - at2 == vlen(n), what << ": length " << n << " for a message of " << body.size() << " bytes");
  VN_CHECK(at <= s.size() && s.substr(at) == body, what << ": the message does not follow its length");
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random field numbers (all bit lengths and varint boundaries up to 2^29-1), messages of all size classes up to 2^21 bytes around varint boundaries, written in one and several output blocks, decoded by hand; sizes computed in advance for every bit length; metrics messages for boundary and random counts, rebuilt after changes");
  vn::Rng r(vn::seed);
  for (int round = 0; round < 4000000 && vn::time_left(); ++round) {
    uint32_t field = std::max<size_t>(1, hint(r, 29) & ((1u << 29) - 1));
    size_t want = r.chance(97) ? hint(r, 12) : hint(r, 21); std::ostringstream o; o << "field " << field << " size about " << want; vn::begin(o.str());
    c::KeyValue m; m.set_string_value(std::string(want, 'x'));
    if (want > 3) { size_t extra = m.ByteSizeLong() - want; m.set_string_value(std::string(want - std::min(want, extra), 'x')); }
    if (r.chance(10)) m.Clear();
    std::string body = m.SerializeAsString();
    for (int sized = 0; sized < 2; ++sized) {
      std::string out;
      { google::protobuf::io::StringOutputStream z(&out); google::protobuf::io::CodedOutputStream cs(&z);
        c::KeyValue copy(m);
        if (sized) { size_t n = copy.ByteSizeLong(); lightstep::WriteEmbeddedMessage(cs, field, n, copy); } else lightstep::WriteEmbeddedMessage(cs, field, copy); }
      frame(out, field, body, sized ? "WriteEmbeddedMessage(size)" : "WriteEmbeddedMessage");
      size_t a = lightstep::ComputeEmbeddedMessageSerializationSize(field, body.size()), b = lightstep::ComputeEmbeddedMessageSerializationSize(field, m);
      VN_CHECK(a == out.size() && b == out.size(), "size computed in advance " << a << "/" << b << " but " << out.size() << " bytes written");
    }
    { size_t n = hint(r, 62); size_t a = lightstep::ComputeEmbeddedMessageSerializationSize(field, n), b = vlen(uint64_t(field) << 3 | 2) + vlen(n) + n;
      VN_CHECK(a == b, "size computed for a message of " << n << " bytes: " << a << " instead of " << b); }
    static const int D[] = {0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 2147483647, -1, -2147483647 - 1};
    lightstep::EmbeddedMetricsMessage e;
    VN_CHECK(e.num_dropped_spans() == 0, "initial count " << e.num_dropped_spans());
    for (int k = 0; k < 3; ++k) {
      int d = r.chance(50) ? D[r.below(13)] : (int)hint(r, 31);
      std::ostringstream q; q << "metrics with count " << d; vn::begin(q.str());
      e.set_num_dropped_spans(d);
      VN_CHECK(e.num_dropped_spans() == d, "reports " << e.num_dropped_spans());
      auto f = e.MakeFragment();
      VN_CHECK(f.first != nullptr && f.second > 0, "empty fragment");
      std::string s(static_cast<char*>(f.first), f.second);
      c::InternalMetrics im; auto x = im.add_counts(); x->set_name("spans.dropped"); x->set_int_value(d);
      frame(s, c::ReportRequest::kInternalMetricsFieldNumber, im.SerializeAsString(), "MakeFragment");
      c::ReportRequest p;
      VN_CHECK(p.ParseFromString(s) && p.internal_metrics().counts_size() == 1 && p.internal_metrics().counts(0).name() == "spans.dropped" && p.internal_metrics().counts(0).int_value() == d, "the fragment does not parse as internal metrics with the count");
    }
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
