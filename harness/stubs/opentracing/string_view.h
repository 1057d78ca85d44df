// Stand-in for the OpenTracing header (not installed here): the documented interface of opentracing::string_view.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstring>
#include <ostream>
#include <stdexcept>
#include <string>
namespace opentracing {
class string_view {
 public:
  string_view() noexcept : data_{nullptr}, length_{0} {}
  string_view(const char* c_str) noexcept : data_{c_str}, length_{std::strlen(c_str)} {}
  string_view(const char* data, size_t length) noexcept : data_{data}, length_{length} {}
  string_view(const std::string& str) noexcept : data_{str.data()}, length_{str.size()} {}
  operator std::string() const { return {data_, length_}; }
  const char* data() const noexcept { return data_; }
  bool empty() const noexcept { return length_ == 0; }
  size_t size() const noexcept { return length_; }
  size_t length() const noexcept { return length_; }
  const char* begin() const noexcept { return data(); }
  const char* end() const noexcept { return data() + length(); }
  const char& operator[](size_t i) const { return *(data() + i); }
 private:
  const char* data_;
  size_t length_;
};
inline bool operator==(string_view lhs, string_view rhs) noexcept { return lhs.length() == rhs.length() && std::equal(lhs.data(), lhs.data() + lhs.length(), rhs.data()); }
inline bool operator!=(string_view lhs, string_view rhs) noexcept { return !(lhs == rhs); }
inline std::ostream& operator<<(std::ostream& os, string_view ref) { return os.write(ref.data(), static_cast<std::streamsize>(ref.length())); }
}  // namespace opentracing
