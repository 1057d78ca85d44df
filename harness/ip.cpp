#include <new>
#include "network/ip_address.h"
using A = lightstep::IpAddress;
extern "C" {
void vf_default(void* p) { new (p) A{}; }
void vf_v4(void* p, const in_addr& a) { new (p) A{a}; }
void vf_v6(void* p, const in6_addr& a) { new (p) A{a}; }
void vf_sockaddr(void* p, const sockaddr& a) { new (p) A{a}; }
void vf_text(void* p, const char* s) { new (p) A{s}; }
void vf_text_port(void* p, const char* s, uint16_t port) { new (p) A{s, port}; }
void vf_set_port(A& a, uint16_t port) { a.set_port(port); }
bool vf_eq(const A& a, const A& b) { return a == b; }
bool vf_ne(const A& a, const A& b) { return a != b; }
int vf_family(const A& a) { return a.family(); }
const void* vf_addr(const A& a) { return &a.addr(); }
const void* vf_ipv4(const A& a) { return &a.ipv4_address(); }
const void* vf_ipv6(const A& a) { return &a.ipv6_address(); }
void vf_print(std::ostream& o, const A& a) { o << a; }
}
