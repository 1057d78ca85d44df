// Stand-in for the OpenTracing header (not installed here): the documented carrier interfaces.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <system_error>
#include "string_view.h"
#include "util.h"
#include "value.h"
namespace opentracing {
class Tracer; class SpanContext;
enum class SpanReferenceType { ChildOfRef = 1, FollowsFromRef = 2 };
inline const std::error_category& propagation_error_category() {
  struct category : std::error_category {
    const char* name() const noexcept override { return "OpenTracingPropagationError"; }
    std::string message(int) const override { return "propagation"; }
  };
  static const category c; return c;
}
const std::error_code invalid_span_context_error(1, propagation_error_category());
const std::error_code invalid_carrier_error(2, propagation_error_category());
const std::error_code span_context_corrupted_error(3, propagation_error_category());
const std::error_code key_not_found_error(4, propagation_error_category());
const std::error_code lookup_key_not_supported_error(5, propagation_error_category());
class TextMapReader {
 public:
  virtual ~TextMapReader() = default;
  virtual expected<string_view> LookupKey(string_view) const { return make_unexpected(lookup_key_not_supported_error); }
  virtual expected<void> ForeachKey(std::function<expected<void>(string_view key, string_view value)> f) const = 0;
};
class TextMapWriter {
 public:
  virtual ~TextMapWriter() = default;
  virtual expected<void> Set(string_view key, string_view value) const = 0;
};
class HTTPHeadersReader : public TextMapReader {};
class HTTPHeadersWriter : public TextMapWriter {};
class CustomCarrierReader { public: virtual ~CustomCarrierReader() = default; virtual expected<std::unique_ptr<SpanContext>> Extract(const Tracer& tracer) const = 0; };
class CustomCarrierWriter { public: virtual ~CustomCarrierWriter() = default; virtual expected<void> Inject(const Tracer& tracer, const SpanContext& sc) const = 0; };
}  // namespace opentracing
