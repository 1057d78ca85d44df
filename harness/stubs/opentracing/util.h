// Stand-in for the OpenTracing header (not installed here): the documented interface of opentracing::expected.
#pragma once
#include <chrono>
#include <cstdint>
#include <limits>
#include <string>
#include <system_error>
#include <type_traits>
#include <utility>
namespace opentracing {
using SystemClock = std::chrono::system_clock;
using SteadyClock = std::chrono::steady_clock;
using SystemTime = SystemClock::time_point;
using SteadyTime = SteadyClock::time_point;
struct unexpected_error { std::error_code error; };
inline unexpected_error make_unexpected(std::error_code e) noexcept { return {e}; }
template <class T> class expected {
 public:
  expected() : value_(), has_{true} {}
  expected(const T& v) : value_(v), has_{true} {}
  expected(T&& v) : value_(std::move(v)), has_{true} {}
  template <class U, class = typename std::enable_if<std::is_convertible<U, T>::value && !std::is_same<typename std::decay<U>::type, T>::value && !std::is_same<typename std::decay<U>::type, expected>::value>::type> expected(U&& v) : value_(std::forward<U>(v)), has_{true} {}
  expected(unexpected_error e) : value_(), error_{e.error}, has_{false} {}
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  bool valid() const noexcept { return has_; }
  T& operator*() { return value_; }
  const T& operator*() const { return value_; }
  T* operator->() { return &value_; }
  const T* operator->() const { return &value_; }
  T& value() { return value_; }
  const std::error_code& error() const noexcept { return error_; }
 private:
  T value_; std::error_code error_; bool has_;
};
template <> class expected<void> {
 public:
  expected() noexcept : has_{true} {}
  expected(unexpected_error e) noexcept : error_{e.error}, has_{false} {}
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  const std::error_code& error() const noexcept { return error_; }
 private:
  std::error_code error_; bool has_;
};
}  // namespace opentracing
