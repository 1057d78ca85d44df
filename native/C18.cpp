// C18: sockets over a simulated kernel (the system calls are replaced; no real descriptor is used)
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <map>
#include <memory>
#include <stdexcept>
#include "network/socket.h"
#include "vnative.h"
using lightstep::Socket;
struct Sim { std::map<int, int> open; int next = 1000; std::map<int, int> flags; std::map<int, bool> reuse; int closes = 0; std::string fail; int err = 0; bool sim = false; const void* addr = nullptr; size_t len = 0; int connects = 0, family = 0; } K;
extern "C" {
int __real_close(int); int __real_fcntl(int, int, ...); int __real_socket(int, int, int);
static int give_up(const char* n) { if (K.fail != n) return 0; errno = K.err; return -1; }
int __wrap_socket(int f, int t, int) { if (give_up("socket")) return -1; K.family = f; if (t != SOCK_STREAM) vn::fail("socket of another type"); K.open[K.next] = 1; K.flags[K.next] = O_RDWR; return K.next++; }
int __wrap_close(int fd) {
  if (fd >= 0 && fd < 1000 && !K.sim) return __real_close(fd);
  ++K.closes;
  if (!K.open.count(fd)) { std::ostringstream o; o << "close(" << fd << ") of a descriptor that is not open"; vn::fail(o.str()); errno = EBADF; return -1; }
  K.open.erase(fd); errno = EIO; return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list v; va_start(v, cmd); int a = va_arg(v, int); va_end(v);
  if (!K.open.count(fd)) { vn::fail("fcntl on a descriptor that is not open"); return -1; }
  if (cmd == F_GETFL) return K.flags[fd];
  if (cmd == F_SETFL) { if (give_up("fcntl")) return -1; if ((a | O_NONBLOCK) != (K.flags[fd] | O_NONBLOCK)) vn::fail("other flags changed"); K.flags[fd] = a; return 0; }
  return 0;
}
int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t n) {
  if (!K.open.count(fd)) { vn::fail("setsockopt on a descriptor that is not open"); return -1; }
  if (give_up("setsockopt")) return -1;
  if (level == SOL_SOCKET && name == SO_REUSEADDR && n == sizeof(int)) K.reuse[fd] = *(const int*)v != 0;
  return 0;
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t n) {
  if (!K.open.count(fd)) { vn::fail("connect on a descriptor that is not open"); return -1; }
  ++K.connects; K.addr = a; K.len = n;
  return give_up("connect");
}
}
int main(int argc, char** argv) {
  vn::init(argc, argv, "random sequences of socket creations, adoptions, moves, move-assignments and destructions over a simulated kernel; Connect to IPv4 and IPv6 addresses with every system call failing in turn with various error codes; open descriptors compared with the owners after every operation");
  vn::Rng r(vn::seed); K.sim = true;
  static const int E[] = {EINPROGRESS, EAGAIN, ECONNREFUSED, EINVAL, EINTR, EALREADY, ENETUNREACH, EISCONN, ETIMEDOUT, EMFILE, 0};
  static const char* C[] = {"", "socket", "fcntl", "setsockopt", "connect"};
  for (int fam = 0; fam < 2; ++fam) for (auto c : C) for (int e : E) {
    std::ostringstream o; o << "Connect to IPv" << (fam ? 6 : 4) << (*c ? " with " : "") << c << (*c ? " failing with " + std::to_string(e) : std::string()); vn::begin(o.str());
    K.open.clear(); K.reuse.clear(); K.fail = c; K.err = e; K.connects = 0; K.closes = 0;
    lightstep::IpAddress a(fam ? "::1" : "127.0.0.1", 80);
    bool ok = !*c || (K.fail == "connect" && (e == EINPROGRESS || e == EAGAIN)), threw = false;
    try {
      Socket s = lightstep::Connect(a); int fd = s.file_descriptor();
      VN_CHECK(K.open.count(fd) && K.open.size() == 1, "returned a socket without its descriptor");
      VN_CHECK(K.flags[fd] & O_NONBLOCK, "returned a blocking socket"); VN_CHECK(K.reuse[fd], "returned a socket whose address is not reusable");
      VN_CHECK(K.connects == 1 && K.addr == &a.addr() && K.len == (fam ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)) && K.family == a.family(), "connected with another address, length or family");
    } catch (const std::runtime_error&) { threw = true; }
    VN_CHECK(threw == !ok, (threw ? "raised an error" : "raised no error"));
    VN_CHECK(K.open.empty() && K.closes == (K.fail != "socket"), K.open.size() << " descriptors left open, " << K.closes << " closed");
  }
  K.fail = "";
  for (int round = 0; round < 1000000 && vn::time_left(); ++round) {
    K.open.clear(); K.closes = 0; std::vector<std::unique_ptr<Socket>> v; std::vector<int> own; std::ostringstream o;
    int ops = r.range(1, 30);
    for (int k = 0; k < ops && !vn::fails; ++k) {
      int i = v.empty() ? -1 : (int)r.below(v.size()), j = v.empty() ? -1 : (int)r.below(v.size());
      switch (i < 0 ? r.below(2) : r.below(6)) {
        case 0: o << " new"; vn::begin(o.str()); v.emplace_back(r.chance(50) ? new Socket : new Socket(AF_INET6, SOCK_STREAM)); own.push_back(K.next - 1); break;
        case 1: { o << " adopt"; vn::begin(o.str()); int fd = r.chance(80) ? K.next++ : -1; if (fd >= 0) K.open[fd] = 1; v.emplace_back(new Socket(fd)); own.push_back(fd); break; }
        case 2: o << " move#" << i; vn::begin(o.str()); { int fd = own[i]; own[i] = -1; v.emplace_back(new Socket(std::move(*v[i]))); own.push_back(fd); } break;
        case 3: if (i == j) break; o << " #" << i << "=#" << j; vn::begin(o.str()); *v[i] = std::move(*v[j]); own[i] = own[j]; own[j] = -1; break;
        default: o << " ~#" << i; vn::begin(o.str()); v.erase(v.begin() + i); own.erase(own.begin() + i);
      }
      std::map<int, int> want; for (size_t q = 0; q < v.size(); ++q) { VN_CHECK(v[q]->file_descriptor() == own[q], "socket #" << q << " holds " << v[q]->file_descriptor() << " instead of " << own[q]); if (own[q] >= 0) want[own[q]] = 1; }
      VN_CHECK(want == K.open, K.open.size() << " descriptors open, " << want.size() << " owned");
    }
    v.clear(); VN_CHECK(K.open.empty(), "descriptors leaked");
    if (vn::fails) break;
  }
  K.sim = false;
  return vn::done();
}
