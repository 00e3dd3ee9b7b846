// Wrappers of the network system calls. The executable is linked with
// -rdynamic, so the library's calls arrive here; the harness itself talks to
// sockets through namespace sys, which goes straight to the real functions.
//
// The wrappers watch the library's calls and, when a case asks for it, make
// the kernel's legal variations happen: reads and writes that transfer less
// than possible, interrupted waits, delays, and single failing calls.
#ifndef SHIM_H
#define SHIM_H

#include "vh.h"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>

#include <algorithm>

namespace sys {
template <class F> F* next(const char* name, F*)
{
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "no %s\n", name); _exit(3); }
  return reinterpret_cast<F*>(p);
}
#define SYS_NEXT(name) static auto* f = next(#name, &::name)
inline ssize_t recv(int fd, void* b, size_t n, int fl) { SYS_NEXT(recv); return f(fd, b, n, fl); }
inline ssize_t send(int fd, const void* b, size_t n, int fl) { SYS_NEXT(send); return f(fd, b, n, fl); }
inline ssize_t read(int fd, void* b, size_t n) { SYS_NEXT(read); return f(fd, b, n); }
inline ssize_t write(int fd, const void* b, size_t n) { SYS_NEXT(write); return f(fd, b, n); }
inline int poll(struct pollfd* p, nfds_t n, int t) { SYS_NEXT(poll); return f(p, n, t); }
inline int accept(int fd, sockaddr* a, socklen_t* l) { SYS_NEXT(accept); return f(fd, a, l); }
inline int accept4(int fd, sockaddr* a, socklen_t* l, int fl) { SYS_NEXT(accept4); return f(fd, a, l, fl); }
inline int connect(int fd, const sockaddr* a, socklen_t l) { SYS_NEXT(connect); return f(fd, a, l); }
inline int socket(int d, int t, int p) { SYS_NEXT(socket); return f(d, t, p); }
inline int listen(int fd, int n) { SYS_NEXT(listen); return f(fd, n); }
inline int bind(int fd, const sockaddr* a, socklen_t l) { SYS_NEXT(bind); return f(fd, a, l); }
inline int close(int fd) { SYS_NEXT(close); return f(fd); }
inline ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l) { SYS_NEXT(recvfrom); return f(fd, b, n, fl, a, l); }
inline ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l) { SYS_NEXT(sendto); return f(fd, b, n, fl, a, l); }
inline ssize_t recvmsg(int fd, msghdr* m, int fl) { SYS_NEXT(recvmsg); return f(fd, m, fl); }
inline ssize_t sendmsg(int fd, const msghdr* m, int fl) { SYS_NEXT(sendmsg); return f(fd, m, fl); }
inline ssize_t readv(int fd, const iovec* v, int n) { SYS_NEXT(readv); return f(fd, v, n); }
inline ssize_t writev(int fd, const iovec* v, int n) { SYS_NEXT(writev); return f(fd, v, n); }
inline int ppoll(struct pollfd* p, nfds_t n, const timespec* t, const sigset_t* m) { SYS_NEXT(ppoll); return f(p, n, t, m); }
inline int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t) { SYS_NEXT(select); return f(n, r, w, e, t); }
inline int epoll_wait(int fd, epoll_event* e, int n, int t) { SYS_NEXT(epoll_wait); return f(fd, e, n, t); }
} // namespace sys

namespace shim {

enum Op { RECV, SEND, POLL, ACCEPT, CONNECT, SOCKET, LISTEN, BIND, NOPS };
inline const char* op_name(int o)
{
  static const char* n[] = {"recv", "send", "poll", "accept", "connect", "socket", "listen", "bind"};
  return n[o];
}

struct State {
  std::atomic<long> calls[NOPS];
  std::atomic<long> fail_at[NOPS];      // fail when calls reaches this value
  std::atomic<int> fail_errno[NOPS];
  std::atomic<long> failed[NOPS];
  std::atomic<long> fail_len[NOPS];     // calls that fail in a row, 0 counts as 1
  std::atomic<int> target_port;         // when set, only calls on sockets of this local port count and fail
  std::atomic<int> failed_peer;         // port of the peer of the last socket whose call failed
  std::atomic<int> listen_port;         // of the last listener on all addresses, or of the wanted one
  std::atomic<int> wanted_port;
  std::atomic<unsigned> frag;           // percent of reads that are cut
  std::atomic<unsigned> cut;            // percent of writes that are cut
  std::atomic<unsigned> eintr;          // percent of waits that are interrupted
  std::atomic<unsigned> delay;          // percent of calls that are delayed
  std::atomic<unsigned> delay_us;
  std::atomic<unsigned> instant;        // percent of connection attempts that are decided at once
  std::atomic<long> instant_connects;
  std::atomic<uint64_t> rnd;
  std::atomic<long> cut_reads, cut_writes, interrupted, delayed;
  std::atomic<long> bytes_in, bytes_out;
  // a fixed plan of read sizes, used up by reads of more than 16 bytes
  std::atomic<const std::vector<int>*> plan;
  std::atomic<size_t> plan_pos;
  State() { memset((void*)this, 0, sizeof *this); for (int i = 0; i < NOPS; ++i) fail_at[i] = -1; }
};
inline State& st() { static State* s = new State; return *s; }

inline void seed(uint64_t s) { st().rnd = s; }
inline uint64_t random()
{
  uint64_t z = st().rnd.fetch_add(0x9e3779b97f4a7c15ull) + 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline bool percent(unsigned p) { return p && random() % 100 < p; }

inline void calm()
{
  State& s = st();
  s.frag = s.cut = s.eintr = s.delay = s.instant = 0;
  s.plan = nullptr;
  s.plan_pos = 0;
  s.target_port = 0;
  for (int i = 0; i < NOPS; ++i) { s.fail_at[i] = -1; s.fail_len[i] = 0; }
}

//! The n-th call (from 1) of `op` from now on fails with `err`.
inline void fail_nth(Op op, long n, int err, long len = 1)
{
  st().fail_len[op] = len;
  st().fail_errno[op] = err;
  st().failed[op] = 0;
  st().fail_at[op] = st().calls[op] + n;
}

inline int port_of(int fd, bool peer)
{
  sockaddr_in a;
  memset(&a, 0, sizeof a);
  socklen_t l = sizeof a;
  if ((peer ? getpeername(fd, (sockaddr*)&a, &l) : getsockname(fd, (sockaddr*)&a, &l)) != 0 || a.sin_family != AF_INET) return 0;
  return ntohs(a.sin_port);
}

inline bool enter(Op op, int fd = -1)
{
  State& s = st();
  int target = s.target_port;
  bool counts = !target || fd < 0 || port_of(fd, false) == target;
  long n = counts ? ++s.calls[op] : -100;
  if (percent(s.delay)) {
    s.delayed++;
    unsigned us = s.delay_us;
    if (us) usleep(random() % us + 1); else sched_yield();
  }
  long at = s.fail_at[op];
  if (at >= 0 && n >= at && n < at + std::max(1L, s.fail_len[op].load())) {
    s.failed[op]++;
    if (fd >= 0) s.failed_peer = port_of(fd, true);
    errno = s.fail_errno[op];
    return false;
  }
  return true;
}

inline size_t read_size(size_t n)
{
  State& s = st();
  if (n <= 16) return n;
  const std::vector<int>* p = s.plan;
  if (p) {
    size_t i = s.plan_pos++;
    if (i < p->size() && (*p)[i] > 0 && (size_t)(*p)[i] < n) { s.cut_reads++; return (*p)[i]; }
    return n;
  }
  if (percent(s.frag)) {
    s.cut_reads++;
    uint64_t r = random();
    size_t k = r % 4 == 0 ? 1 : r % 4 == 1 ? 1 + (r >> 8) % 16 : 1 + (r >> 8) % 700;
    return k < n ? k : n;
  }
  return n;
}

inline size_t write_size(size_t n)
{
  State& s = st();
  if (n > 1 && percent(s.cut)) {
    s.cut_writes++;
    uint64_t r = random();
    size_t k = r % 3 == 0 ? 1 : r % 3 == 1 ? 1 + (r >> 8) % 64 : 1 + (r >> 8) % 5000;
    return k < n ? k : n;
  }
  return n;
}

inline bool is_inet(int fd)
{
  int d = 0;
  socklen_t l = sizeof d;
  return getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &d, &l) == 0 && (d == AF_INET || d == AF_INET6);
}

//! The part of a vector of buffers that is transferred (1 reading, 2 writing).
struct Part {
  std::vector<iovec> v;
  Part(const iovec* w, size_t n, int how): v(w, w + n)
  {
    size_t all = 0;
    for (auto& x : v) all += x.iov_len;
    size_t left = how == 1 ? read_size(all) : how == 2 ? write_size(all) : all;
    for (auto& x : v) { x.iov_len = std::min(x.iov_len, left); left -= x.iov_len; }
  }
};

inline bool is_socket(int fd)
{
  struct stat b;
  return fstat(fd, &b) == 0 && S_ISSOCK(b.st_mode);
}

} // namespace shim

extern "C" {

ssize_t recv(int fd, void* b, size_t n, int fl)
{
  if (!shim::enter(shim::RECV, fd)) return -1;
  ssize_t r = sys::recv(fd, b, fl & MSG_PEEK ? n : shim::read_size(n), fl);
  if (r > 0) shim::st().bytes_in += r;
  return r;
}

ssize_t send(int fd, const void* b, size_t n, int fl)
{
  if (!shim::enter(shim::SEND, fd)) return -1;
  ssize_t r = sys::send(fd, b, shim::write_size(n), fl);
  if (r > 0) shim::st().bytes_out += r;
  return r;
}

ssize_t read(int fd, void* b, size_t n)
{
  if (!shim::is_socket(fd)) return sys::read(fd, b, n);
  if (!shim::enter(shim::RECV, fd)) return -1;
  ssize_t r = sys::read(fd, b, shim::read_size(n));
  if (r > 0) shim::st().bytes_in += r;
  return r;
}

ssize_t write(int fd, const void* b, size_t n)
{
  if (!shim::is_socket(fd)) return sys::write(fd, b, n);
  if (!shim::enter(shim::SEND, fd)) return -1;
  ssize_t r = sys::write(fd, b, shim::write_size(n));
  if (r > 0) shim::st().bytes_out += r;
  return r;
}

int poll(struct pollfd* p, nfds_t n, int t)
{
  if (!shim::enter(shim::POLL)) return -1;
  if (shim::percent(shim::st().eintr)) { shim::st().interrupted++; errno = EINTR; return -1; }
  return sys::poll(p, n, t);
}

// The library uses none of the following today, but might.

ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l)
{
  if (!shim::enter(shim::RECV, fd)) return -1;
  ssize_t r = sys::recvfrom(fd, b, fl & MSG_PEEK ? n : shim::read_size(n), fl, a, l);
  if (r > 0) shim::st().bytes_in += r;
  return r;
}

ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l)
{
  if (!shim::enter(shim::SEND, fd)) return -1;
  ssize_t r = sys::sendto(fd, b, shim::write_size(n), fl, a, l);
  if (r > 0) shim::st().bytes_out += r;
  return r;
}

ssize_t recvmsg(int fd, msghdr* m, int fl)
{
  if (!shim::is_inet(fd)) return sys::recvmsg(fd, m, fl);
  if (!shim::enter(shim::RECV, fd)) return -1;
  shim::Part part(m->msg_iov, m->msg_iovlen, fl & MSG_PEEK ? 0 : 1);
  msghdr h = *m;
  h.msg_iov = part.v.data();
  h.msg_iovlen = part.v.size();
  ssize_t r = sys::recvmsg(fd, &h, fl);
  m->msg_namelen = h.msg_namelen;
  m->msg_controllen = h.msg_controllen;
  m->msg_flags = h.msg_flags;
  if (r > 0) shim::st().bytes_in += r;
  return r;
}

ssize_t sendmsg(int fd, const msghdr* m, int fl)
{
  if (!shim::is_inet(fd)) return sys::sendmsg(fd, m, fl);
  if (!shim::enter(shim::SEND, fd)) return -1;
  shim::Part part(m->msg_iov, m->msg_iovlen, 2);
  msghdr h = *m;
  h.msg_iov = part.v.data();
  h.msg_iovlen = part.v.size();
  ssize_t r = sys::sendmsg(fd, &h, fl);
  if (r > 0) shim::st().bytes_out += r;
  return r;
}

ssize_t readv(int fd, const iovec* v, int n)
{
  if (!shim::is_inet(fd)) return sys::readv(fd, v, n);
  if (!shim::enter(shim::RECV, fd)) return -1;
  shim::Part part(v, n, 1);
  ssize_t r = sys::readv(fd, part.v.data(), (int)part.v.size());
  if (r > 0) shim::st().bytes_in += r;
  return r;
}

ssize_t writev(int fd, const iovec* v, int n)
{
  if (!shim::is_inet(fd)) return sys::writev(fd, v, n);
  if (!shim::enter(shim::SEND, fd)) return -1;
  shim::Part part(v, n, 2);
  ssize_t r = sys::writev(fd, part.v.data(), (int)part.v.size());
  if (r > 0) shim::st().bytes_out += r;
  return r;
}

int ppoll(struct pollfd* p, nfds_t n, const timespec* t, const sigset_t* m)
{
  if (!shim::enter(shim::POLL)) return -1;
  if (shim::percent(shim::st().eintr)) { shim::st().interrupted++; errno = EINTR; return -1; }
  return sys::ppoll(p, n, t, m);
}

int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t)
{
  if (n <= 0) return sys::select(n, r, w, e, t);
  if (!shim::enter(shim::POLL)) return -1;
  if (shim::percent(shim::st().eintr)) { shim::st().interrupted++; errno = EINTR; return -1; }
  return sys::select(n, r, w, e, t);
}

int epoll_wait(int fd, epoll_event* e, int n, int t)
{
  if (!shim::enter(shim::POLL)) return -1;
  if (shim::percent(shim::st().eintr)) { shim::st().interrupted++; errno = EINTR; return -1; }
  return sys::epoll_wait(fd, e, n, t);
}

int accept(int fd, sockaddr* a, socklen_t* l)
{
  if (!shim::enter(shim::ACCEPT, fd)) return -1;
  return sys::accept(fd, a, l);
}

int accept4(int fd, sockaddr* a, socklen_t* l, int fl)
{
  if (!shim::enter(shim::ACCEPT, fd)) return -1;
  return sys::accept4(fd, a, l, fl);
}

int connect(int fd, const sockaddr* a, socklen_t l)
{
  if (!shim::enter(shim::CONNECT, fd)) return -1;
  int r = sys::connect(fd, a, l);
  if (r == -1 && errno == EINPROGRESS && shim::percent(shim::st().instant)) {
    // as a kernel that is done with the attempt before it returns
    struct pollfd q = {fd, POLLOUT, 0};
    int err = 0;
    socklen_t n = sizeof err;
    if (sys::poll(&q, 1, 500) == 1 && getsockopt(fd, SOL_SOCKET, SO_ERROR, &err, &n) == 0) {
      shim::st().instant_connects++;
      errno = err;
      return err ? -1 : 0;
    }
    errno = EINPROGRESS;
  }
  return r;
}

int socket(int d, int t, int p)
{
  if (!shim::enter(shim::SOCKET)) return -1;
  return sys::socket(d, t, p);
}

int bind(int fd, const sockaddr* a, socklen_t l)
{
  if (!shim::enter(shim::BIND, fd)) return -1;
  return sys::bind(fd, a, l);
}

int listen(int fd, int n)
{
  if (!shim::enter(shim::LISTEN, fd)) return -1;
  int r = sys::listen(fd, n);
  sockaddr_in a;
  socklen_t l = sizeof a;
  if (r == 0 && getsockname(fd, (sockaddr*)&a, &l) == 0 && a.sin_family == AF_INET && (a.sin_addr.s_addr == INADDR_ANY || ntohs(a.sin_port) == shim::st().wanted_port))
    shim::st().listen_port = ntohs(a.sin_port);
  return r;
}

} // extern "C"

#endif
