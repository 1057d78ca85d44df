// What C40 needs beside the sources under contract: classes seen by contract only, and ways in.
#include <exception>

#include "network/ares_dns_resolver/ares_dns_resolver.h"
using namespace lightstep;
struct VfError : std::exception { virtual void vf_key() const; const char* what() const noexcept override; };
void VfError::vf_key() const {}
const char* VfError::what() const noexcept { return "error"; }
struct VfCallback : DnsResolutionCallback { virtual void vf_key(); void OnDnsResolution(const DnsResolution&, opentracing::string_view) noexcept override; };
void VfCallback::vf_key() {}
bool vf_visit(void*, const IpAddress&);
extern "C" {
void vf_resolve(DnsResolver& r, const char* name, int family, DnsResolutionCallback& c) { r.Resolve(name, family, c); }
bool vf_each(const DnsResolution& r) { struct V { bool operator()(const IpAddress& a) const { return vf_visit(nullptr, a); } } v; return r.ForeachIpAddress(v); }
void vf_delete(DnsResolver* r) { delete r; }
void vf_make(std::unique_ptr<DnsResolver>& out, Logger& l, EventBase& b, const DnsResolverOptions& o) { out = MakeDnsResolver(l, b, o); }
}
