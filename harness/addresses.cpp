// What C37 needs beside the sources under contract: classes seen by contract only.
#include <exception>

#include "network/dns_resolver.h"
#include "recorder/stream_recorder/satellite_endpoint_manager.h"
#include "recorder/stream_recorder/satellite_dns_resolution_manager.h"
using namespace lightstep;

struct VfError : std::exception {
  virtual void vf_key() const;
  const char* what() const noexcept override;
};
void VfError::vf_key() const {}
const char* VfError::what() const noexcept { return "error"; }
struct VfResolver : DnsResolver {
  virtual void vf_key();
  void Resolve(const char*, int, DnsResolutionCallback&) noexcept override;
};
void VfResolver::vf_key() {}
struct VfResolution : DnsResolution {
  virtual void vf_key();
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>&) const override;
};
void VfResolution::vf_key() {}
