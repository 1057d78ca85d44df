// C17: addresses byte for byte
#include <arpa/inet.h>
#include <new>
#include <stdexcept>
#include "network/ip_address.h"
#include "vnative.h"
using lightstep::IpAddress;
struct Ref { int fam; unsigned char a[16]; uint16_t port; };
static std::string hex(const unsigned char* p, int n) { std::string s; char b[4]; for (int i = 0; i < n; ++i) { snprintf(b, sizeof b, "%02x", p[i]); s += b; } return s; }
static std::string bytes(const Ref& r) {
  std::string s(128, '\0');
  uint16_t f = r.fam; memcpy(&s[0], &f, 2); s[2] = (char)(r.port >> 8); s[3] = (char)(r.port & 255);
  memcpy(&s[r.fam == AF_INET ? 4 : 8], r.a, r.fam == AF_INET ? 4 : 16);
  return s;
}
static void same(const IpAddress& x, const Ref& r, const char* what) {
  std::string got(reinterpret_cast<const char*>(&x.addr()), 128), want = bytes(r);
  VN_CHECK(x.family() == r.fam, what << ": family " << x.family());
  VN_CHECK(got == want, what << ": holds " << hex((const unsigned char*)got.data(), 28) << " instead of " << hex((const unsigned char*)want.data(), 28) << (got.substr(28) == want.substr(28) ? "" : " (and bytes behind it)"));
}
template <class... A> static IpAddress* make(void* mem, A&&... a) { memset(mem, 0xa5, sizeof(IpAddress)); return new (mem) IpAddress(std::forward<A>(a)...); }
static Ref ref(vn::Rng& r) {
  Ref x{r.chance(50) ? AF_INET : AF_INET6, {}, 0};
  for (auto& b : x.a) b = r.chance(40) ? 0 : r.chance(20) ? 255 : (unsigned char)r.below(256);
  static const int P[] = {0, 1, 80, 255, 256, 443, 8080, 32768, 65280, 65535};
  x.port = r.chance(50) ? P[r.below(10)] : (uint16_t)r.below(65536);
  return x;
}
static std::string text(const Ref& r) { char b[64]; inet_ntop(r.fam, r.a, b, sizeof b); return b; }
static IpAddress* build(vn::Rng& r, void* mem, const Ref& x, const char*& how) {
  Ref zero = x; zero.port = 0; IpAddress* p;
  switch (r.below(5)) {
    case 0: { how = "in-memory + set_port"; if (x.fam == AF_INET) { in_addr a; memcpy(&a, x.a, 4); p = make(mem, a); } else { in6_addr a; memcpy(&a, x.a, 16); p = make(mem, a); } same(*p, zero, "from an in-memory address"); p->set_port(x.port); break; }
    case 1: how = "text + set_port"; p = make(mem, text(x).c_str()); same(*p, zero, "from text"); p->set_port((uint16_t)r.below(65536)); p->set_port(x.port); break;
    case 2: how = "text and port"; p = make(mem, text(x).c_str(), x.port); break;
    case 3: { how = "copy"; IpAddress y(text(x).c_str(), x.port); p = make(mem, y); break; }
    default: { how = "sockaddr"; std::string b = bytes(x); sockaddr_storage s; memcpy(&s, b.data(), 128); p = make(mem, reinterpret_cast<const sockaddr&>(s)); break; }
  }
  return p;
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random IPv4 and IPv6 addresses (runs of 0 and 255), boundary and random ports, built in every way into memory filled with garbage and compared byte for byte; comparisons of addresses that differ in nothing, one bit of the address, the port or the family; texts that are no addresses");
  vn::Rng r(vn::seed);
  static const char* bad[] = {"", " ", "1", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4 ", " 1.2.3.4", "01.2.3.400", "::g", ":::", "1::2::3", "12345::", "::1%lo", "[::1]", "localhost", "1.2.3.4:80", "0x7f.1", "::ffff:1.2.3"};
  for (auto s : bad) {
    vn::begin(std::string("text '") + s + "'");
    bool threw = false; try { IpAddress x(s); } catch (const std::runtime_error&) { threw = true; }
    VN_CHECK(threw, "accepted as an address");
    threw = false; try { IpAddress x(s, 80); } catch (const std::runtime_error&) { threw = true; }
    VN_CHECK(threw, "accepted as an address (with a port)");
  }
  { alignas(16) char m[sizeof(IpAddress)]; vn::begin("default"); auto p = make(m); same(*p, Ref{AF_INET, {}, 0}, "default address"); }
  for (int round = 0; round < 4000000 && vn::time_left(); ++round) {
    alignas(16) char m1[sizeof(IpAddress)], m2[sizeof(IpAddress)]; const char *h1 = "", *h2 = "";
    Ref x = ref(r), y = x;
    int n = x.fam == AF_INET ? 4 : 16;
    switch (r.below(6)) {
      case 0: y = ref(r); break;
      case 1: y.a[r.below(n)] ^= 1 << r.below(8); break;
      case 2: y.port ^= 1 << r.below(16); break;
      case 3: y.fam = x.fam == AF_INET ? AF_INET6 : AF_INET; break;
    }
    std::ostringstream o; o << text(x) << " port " << x.port << " and " << text(y) << " port " << y.port; vn::begin(o.str());
    auto p = build(r, m1, x, h1); same(*p, x, h1);
    auto q = build(r, m2, y, h2); same(*q, y, h2);
    bool eq = x.fam == y.fam && x.port == y.port && !memcmp(x.a, y.a, n);
    VN_CHECK((*p == *q) == eq && (*q == *p) == eq && (*p != *q) == !eq, "compare " << ((*p == *q) ? "equal" : "different") << " (built by " << h1 << ", " << h2 << ")");
    VN_CHECK(ToString(*p) == text(x), "printed as " << ToString(*p));
    if (x.fam == AF_INET) VN_CHECK((const void*)&p->ipv4_address() == &p->addr(), "ipv4_address is elsewhere"); else VN_CHECK((const void*)&p->ipv6_address() == &p->addr(), "ipv6_address is elsewhere");
    if (vn::fails) return vn::done();
  }
  return vn::done();
}
