// C32: random values are converted to JSON; an independent parser must read back exactly the value.
#include "vnative.h"
#include "common/utility.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <locale>
using namespace opentracing;
static std::string text(vn::Rng& r) {
  static const char odd[] = {'"', '\\', '\b', '\f', '\n', '\r', '\t', '\0', '\x01', '\x1f', '\x7f', '\x80', '\xc3', '\xff', '/', 'u', ' '};
  std::string s; size_t n = r.chance(20) ? 0 : r.below(r.chance(5) ? 300 : 9);
  for (size_t i = 0; i < n; ++i) s += r.chance(50) ? odd[r.below(sizeof odd)] : static_cast<char>(r.below(256));
  return s;
}
static std::vector<std::string> keep;      // char pointers point here
static Value value(vn::Rng& r, int depth) {
  switch (r.below(depth > 3 ? 7 : 11)) {
    case 0: return Value(r.chance(50));
    case 1: {
      static const double d[] = {0.0, -0.0, 1.5, -2.25, 1e300, -1e-300, 123456789.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e-320, 1234.5};
      if (r.chance(60)) return Value(d[r.below(sizeof d / sizeof *d)]);
      return Value(std::ldexp(static_cast<double>(static_cast<int64_t>(r.next())), static_cast<int>(r.below(200)) - 130));
    }
    case 2: return r.chance(50) ? Value(static_cast<int64_t>(r.next())) : r.chance(20) ? Value(std::numeric_limits<int64_t>::min()) : Value(static_cast<int64_t>(r.below(3000)) - 1500);
    case 3: return r.chance(50) ? Value(r.next()) : Value(static_cast<uint64_t>(r.below(3000)));
    case 4: return Value(text(r));
    case 5: return Value(nullptr);
    case 6: { std::string s = text(r); keep.push_back(std::string(s.c_str())); return Value(keep.back().c_str()); }
    case 7: case 8: { Values v; for (size_t n = r.below(5); n > 0; --n) v.push_back(value(r, depth + 1)); return Value(std::move(v)); }
    default: { Dictionary d; for (size_t n = r.below(5); n > 0; --n) d[text(r)] = value(r, depth + 1); return Value(std::move(d)); }
  }
}
// strict JSON reader that compares against the value as it reads
struct Reader {
  const std::string& s; size_t p = 0; std::string why;
  explicit Reader(const std::string& t) : s(t) {}
  bool bad(const char* w) { if (why.empty()) why = w; return false; }
  bool lit(const char* t) { size_t n = std::strlen(t); if (s.compare(p, n, t) != 0) return bad("a literal is wrong"); p += n; return true; }
  bool str(std::string& out) {
    out.clear(); if (p >= s.size() || s[p] != '"') return bad("no string where one is expected");
    for (++p; p < s.size(); ++p) {
      unsigned char c = static_cast<unsigned char>(s[p]);
      if (c == '"') { ++p; return true; }
      if (c < 0x20) return bad("a raw control character in a string");
      if (c != '\\') { out += static_cast<char>(c); continue; }
      if (++p >= s.size()) return bad("string cut off");
      const char* e = "\"\\/bfnrt"; const char* v = "\"\\/\b\f\n\r\t"; const char* q = std::strchr(e, s[p]);
      if (q && s[p]) { out += v[q - e]; continue; }
      if (s[p] != 'u' || p + 4 >= s.size()) return bad("a bad escape");
      unsigned x = 0;
      for (int i = 1; i <= 4; ++i) { char h = s[p + i]; if (!std::isxdigit(static_cast<unsigned char>(h))) return bad("a bad \\u escape"); x = 16 * x + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); }
      if (x >= 0x80) return bad("a \\u escape for a byte beyond ASCII");
      out += static_cast<char>(x); p += 4;
    }
    return bad("string not terminated");
  }
  bool number(std::string& out) {
    size_t b = p; if (p < s.size() && s[p] == '-') ++p;
    size_t d = p; while (p < s.size() && std::isdigit(static_cast<unsigned char>(s[p]))) ++p;
    if (p == d || (s[d] == '0' && p > d + 1)) return bad("a bad number");
    if (p < s.size() && s[p] == '.') { size_t f = ++p; while (p < s.size() && std::isdigit(static_cast<unsigned char>(s[p]))) ++p; if (p == f) return bad("a bad fraction"); }
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { ++p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p; size_t f = p; while (p < s.size() && std::isdigit(static_cast<unsigned char>(s[p]))) ++p; if (p == f) return bad("a bad exponent"); }
    out = s.substr(b, p - b); return true;
  }
  template <class T> bool integer(T v) { std::string t; return number(t) && (t == std::to_string(v) || bad("an integer is not itself")); }
  bool operator()(bool v) { return lit(v ? "true" : "false"); }
  bool operator()(std::nullptr_t) { return lit("null"); }
  bool operator()(int64_t v) { return integer(v); }
  bool operator()(uint64_t v) { return integer(v); }
  bool operator()(double v) {
    std::string t;
    if (std::isnan(v)) return str(t) && (t == "NaN" || bad("NaN"));
    if (std::isinf(v)) return str(t) && (t == (v > 0 ? "+Inf" : "-Inf") || bad("an infinity"));
    if (!number(t)) return false;
    double x = std::strtod(t.c_str(), nullptr); return std::fabs(x - v) <= std::fabs(v) * 6e-6 || (std::fabs(v) < 1e-300 && std::fabs(x - v) < 1e-305) || bad("a double is not itself to six digits");
  }
  bool same(const std::string& v) { std::string t; return str(t) && (t == v || bad("a text is not itself")); }
  bool operator()(const std::string& v) { return same(v); }
  bool operator()(const char* v) { return same(v); }
  bool operator()(const Values& v) {
    if (!lit("[")) return false;
    for (size_t i = 0; i < v.size(); ++i) { if (i && !lit(",")) return bad("no comma"); if (!apply_visitor(*this, v[i])) return false; }
    return lit("]");
  }
  bool operator()(const Dictionary& d) {
    if (!lit("{")) return false;
    std::vector<std::string> seen;
    for (size_t i = 0; i < d.size(); ++i) {
      std::string k; if (i && !lit(",")) return bad("no comma"); if (!str(k) || !lit(":")) return false;
      auto it = d.find(k); if (it == d.end()) return bad("a key the dictionary does not have");
      for (auto& o : seen) if (o == k) return bad("a key twice");
      seen.push_back(k); if (!apply_visitor(*this, it->second)) return false;
    }
    return lit("}");
  }
};
struct Grouped : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ','; }
};
using lightstep::collector::KeyValue;
struct Expect {
  const KeyValue& kv; std::string key;
  bool operator()(bool v) { return kv.value_case() == KeyValue::kBoolValue && kv.bool_value() == v; }
  bool operator()(double v) { double x = kv.double_value(); return kv.value_case() == KeyValue::kDoubleValue && std::memcmp(&x, &v, 8) == 0; }
  bool operator()(int64_t v) { return kv.value_case() == KeyValue::kIntValue && kv.int_value() == v; }
  bool operator()(uint64_t v) { return kv.value_case() == KeyValue::kIntValue && kv.int_value() == static_cast<int64_t>(v); }
  bool operator()(const std::string& v) { return kv.value_case() == KeyValue::kStringValue && kv.string_value() == v; }
  bool operator()(const char* v) { return kv.value_case() == KeyValue::kStringValue && kv.string_value() == v; }
  bool operator()(std::nullptr_t) { return kv.value_case() == KeyValue::kBoolValue && !kv.bool_value(); }
  bool operator()(const Values& v) { Reader r(kv.json_value()); return kv.value_case() == KeyValue::kJsonValue && r(v) && r.p == r.s.size(); }
  bool operator()(const Dictionary& v) { Reader r(kv.json_value()); return kv.value_case() == KeyValue::kJsonValue && r(v) && r.p == r.s.size(); }
};
static std::string show(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s.substr(0, 120)) if (c >= 32 && c < 127) o += static_cast<char>(c); else { std::snprintf(b, 8, "<%02x>", c); o += b; } return o; }
int main(int argc, char** argv) {
  vn::init(argc, argv, "value-json");
  std::locale plain = std::locale::classic(), grouped(plain, new Grouped);
  vn::Rng r(vn::seed);
  auto one = [&](const Value& v, bool g) {
    std::locale::global(g ? grouped : plain);
    std::string j = lightstep::ToJson(v), k = text(r);
    KeyValue kv = lightstep::ToKeyValue(k, v);
    std::locale::global(plain);
    vn::begin("ToJson gave " + show(j) + (g ? " under a global locale with digit grouping" : ""));
    Reader rd(j); bool ok = apply_visitor(rd, v);
    if (!ok) vn::fail("not the JSON of the value: " + rd.why);
    else if (rd.p != j.size()) vn::fail("more text than the value");
    Expect e{kv, k};
    if (kv.key() != k) vn::fail("the key of the key-value is another");
    if (!apply_visitor(e, v)) vn::fail("the key-value does not hold the value");
  };
  for (int g = 0; g < 2; ++g) {
    one(Value(Values{Value("\x01"), Value(255), Value(static_cast<uint64_t>(4096)), Value(-1)}), g);
    one(Value(Values{}), g); one(Value(Dictionary{}), g);
    one(Value(Values{Value(1234567), Value(1234.5), Value(1e6), Value(123456.0)}), g);
    one(Value(Dictionary{{std::string("k\x02", 2), Value(1000000)}}), g);
    for (int c = 0; c < 256; ++c) one(Value(Values{Value(std::string(1, static_cast<char>(c))), Value(100000)}), g);
  }
  while (vn::time_left() && vn::fails < 3) { keep.clear(); keep.reserve(4096); one(value(r, 0), r.chance(30)); }
  return vn::done();
}
