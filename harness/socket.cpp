#include <new>
#include "network/socket.h"
using S = lightstep::Socket;
extern "C" {
void vf_default(void* p) { new (p) S{}; }
void vf_make(void* p, int family, int type) { new (p) S{family, type}; }
void vf_adopt(void* p, int fd) { new (p) S{fd}; }
void vf_move(void* p, S& o) { new (p) S{std::move(o)}; }
void vf_destroy(S& s) { s.~S(); }
void vf_assign(S& s, S& o) { s = std::move(o); }
int vf_fd(const S& s) { return s.file_descriptor(); }
void vf_nonblocking(S& s) { s.SetNonblocking(); }
void vf_reuse(S& s) { s.SetReuseAddress(); }
int vf_connect(S& s, const sockaddr& a, size_t n) { return s.Connect(a, n); }
void vf_open(void* p, const lightstep::IpAddress& a) { new (p) S(lightstep::Connect(a)); }
}
