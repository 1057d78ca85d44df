// Stand-in for the OpenTracing header (not installed here).
#pragma once
#include "tracer.h"
namespace opentracing {
class TracerFactory {
 public:
  virtual ~TracerFactory() = default;
  virtual expected<std::shared_ptr<Tracer>> MakeTracer(const char* configuration, std::string& error_message) const noexcept = 0;
};
inline const std::error_category& tracer_factory_error_category() {
  struct category : std::error_category {
    const char* name() const noexcept override { return "OpenTracingTracerFactoryError"; }
    std::string message(int) const override { return "factory"; }
  };
  static const category c; return c;
}
const std::error_code configuration_parse_error(1, tracer_factory_error_category());
const std::error_code invalid_configuration_error(2, tracer_factory_error_category());
}  // namespace opentracing
