// Stand-in for the OpenTracing header (not installed here): the documented interface of opentracing::Value (a variant).
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include "string_view.h"
namespace opentracing {
class Value;
using Dictionary = std::unordered_map<std::string, Value>;
using Values = std::vector<Value>;
class Value {
 public:
  Value() noexcept : which_{0}, bool_{false} {}
  template <class T, typename std::enable_if<std::is_same<T, bool>::value>::type* = nullptr> Value(T t) noexcept : which_{0}, bool_{t} {}
  template <class T, typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value>::type* = nullptr> Value(T t) noexcept : which_{2}, int_{static_cast<int64_t>(t)} {}
  template <class T, typename std::enable_if<std::is_integral<T>::value && std::is_unsigned<T>::value && !std::is_same<T, bool>::value>::type* = nullptr> Value(T t) noexcept : which_{3}, uint_{static_cast<uint64_t>(t)} {}
  template <class T, typename std::enable_if<std::is_floating_point<T>::value>::type* = nullptr> Value(T t) noexcept : which_{1}, double_{static_cast<double>(t)} {}
  Value(const char* s) noexcept : which_{6}, chars_{s} {}
  Value(std::nullptr_t) noexcept : which_{5}, bool_{false} {}
  Value(std::string s) : which_{4}, bool_{false}, string_(std::make_shared<std::string>(std::move(s))) {}
  Value(string_view s) : Value(std::string(s)) {}
  Value(Values v) : which_{7}, bool_{false}, values_(std::make_shared<Values>(std::move(v))) {}
  Value(Dictionary d) : which_{8}, bool_{false}, dictionary_(std::make_shared<Dictionary>(std::move(d))) {}
  template <class V> auto visit(V& v) const -> decltype(v(true)) {
    switch (which_) {
      case 0: return v(bool_);
      case 1: return v(double_);
      case 2: return v(int_);
      case 3: return v(uint_);
      case 4: return v(static_cast<const std::string&>(*string_));
      case 5: return v(nullptr);
      case 6: return v(chars_);
      case 7: return v(static_cast<const Values&>(*values_));
      default: return v(static_cast<const Dictionary&>(*dictionary_));
    }
  }
  friend bool operator==(const Value& a, const Value& b) noexcept {
    if (a.which_ != b.which_) return false;
    switch (a.which_) {
      case 0: return a.bool_ == b.bool_;
      case 1: return a.double_ == b.double_;
      case 2: return a.int_ == b.int_;
      case 3: return a.uint_ == b.uint_;
      case 4: return *a.string_ == *b.string_;
      case 5: return true;
      case 6: return a.chars_ == b.chars_;
      case 7: return *a.values_ == *b.values_;
      default: return *a.dictionary_ == *b.dictionary_;
    }
  }
  friend bool operator!=(const Value& a, const Value& b) noexcept { return !(a == b); }
 private:
  int which_;
  union { bool bool_; double double_; int64_t int_; uint64_t uint_; const char* chars_; };
  std::shared_ptr<const std::string> string_;
  std::shared_ptr<const Values> values_;
  std::shared_ptr<const Dictionary> dictionary_;
};
template <class V> auto apply_visitor(V& v, const Value& x) -> decltype(x.visit(v)) { return x.visit(v); }
template <class V> auto apply_visitor(V&& v, const Value& x) -> decltype(x.visit(v)) { return x.visit(v); }
}  // namespace opentracing
