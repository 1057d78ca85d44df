// Stand-in for the OpenTracing header (not installed here): the documented tracer interface.
#pragma once
#include <chrono>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "propagation.h"
#include "span.h"
#include "string_view.h"
#include "util.h"
#include "value.h"
namespace opentracing {
struct StartSpanOptions {
  SystemTime start_system_timestamp;
  SteadyTime start_steady_timestamp;
  std::vector<std::pair<SpanReferenceType, const SpanContext*>> references;
  std::vector<std::pair<std::string, Value>> tags;
};
class Tracer {
 public:
  virtual ~Tracer() = default;
  virtual std::unique_ptr<Span> StartSpanWithOptions(string_view operation_name, const StartSpanOptions& options) const noexcept = 0;
  virtual expected<void> Inject(const SpanContext& sc, std::ostream& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const TextMapWriter& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const HTTPHeadersWriter& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const CustomCarrierWriter& writer) const { return writer.Inject(*this, sc); }
  virtual expected<std::unique_ptr<SpanContext>> Extract(std::istream& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const TextMapReader& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const HTTPHeadersReader& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const CustomCarrierReader& reader) const { return reader.Extract(*this); }
  virtual void Close() noexcept {}
};
}  // namespace opentracing
