// Stand-in for the OpenTracing header (not installed here): the documented span interface.
#pragma once
#include <chrono>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "string_view.h"
#include "util.h"
#include "value.h"
namespace opentracing {
class Tracer;
class SpanContext {
 public:
  virtual ~SpanContext() = default;
  virtual void ForeachBaggageItem(std::function<bool(const std::string& key, const std::string& value)> f) const = 0;
};
struct LogRecord { SystemTime timestamp; std::vector<std::pair<std::string, Value>> fields; };
struct FinishSpanOptions { SteadyTime finish_steady_timestamp; std::vector<LogRecord> log_records; };
class FinishSpanOption { public: virtual ~FinishSpanOption() = default; virtual void Apply(FinishSpanOptions& options) const noexcept = 0; };
class Span {
 public:
  virtual ~Span() = default;
  void Finish(std::initializer_list<std::pair<int, int>> = {}) noexcept { FinishWithOptions({SteadyClock::now(), {}}); }
  virtual void FinishWithOptions(const FinishSpanOptions& options) noexcept = 0;
  virtual void SetOperationName(string_view name) noexcept = 0;
  virtual void SetTag(string_view key, const Value& value) noexcept = 0;
  virtual void SetBaggageItem(string_view restricted_key, string_view value) noexcept = 0;
  virtual std::string BaggageItem(string_view restricted_key) const noexcept = 0;
  virtual void Log(std::initializer_list<std::pair<string_view, Value>> fields) noexcept = 0;
  virtual const SpanContext& context() const noexcept = 0;
  virtual const Tracer& tracer() const noexcept = 0;
};
}  // namespace opentracing
