// Virtual kernel under the tools: sockets, epoll, clocks and name resolution, all driven by the operations of one run.
// The tools and Boost.Asio run unmodified on top of it: the C library's entry points are replaced at link time.
#include "tools.hh"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <deque>
#include <iostream>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/uio.h>

namespace sim {
Kernel K;

int Kernel::fresh(VFd::Type t) {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
  if (fd < 0) { errno = EMFILE; return -1; }
  VFd v; v.type = t; v.order = ++counter;
  fds[fd] = v;
  return fd;
}
VFd* Kernel::of(int fd) { auto it = fds.find(fd); return it == fds.end() ? nullptr : &it->second; }

void Kernel::wake(VFd& f) { f.ready = true; }

int Kernel::socket_of(bool a) {
  for (auto& kv : fds) if (kv.second.type == VFd::sock && kv.second.bound && ((kv.second.port == from_port) == a)) return kv.first;
  return -1;
}
void Kernel::arrive(bool a, Dgram d) {
  int fd = socket_of(a);
  if (fd < 0) return;
  VFd& f = fds[fd];
  f.in.push_back(std::move(d));
  wake(f);
}

// Executes one operation. Returns false when there are none left.
bool Kernel::step() {
  if (pos >= ops->size()) return false;
  const Op& o = (*ops)[pos];
  r->at = pos;
  ++pos;
  ++r->ops;
  if (r->verbose) fprintf(stderr, "%s\n", o.text().c_str());
  switch (o.k) {
    case 'a': case 'b': {
      if (o.k == 'b' && !client_known) { r->n["skipped"]++; break; }
      Dgram d = make_datagram(o);
      if (seen_salt.count((uint64_t)o.a[3])) r->n["fault.duplicate"]++;
      seen_salt.insert((uint64_t)o.a[3]);
      arrive(o.k == 'a', std::move(d));
      break;
    }
    case 't': {
      int64_t dt = o.a[0];
      if (o.a[1]) r->n["fault.overslept"]++;
      if (deadline >= 0 && !o.a[1] && now + dt > deadline) dt = std::max<int64_t>(0, deadline - now);
      now += dt;
      break;
    }
    case 'c': wall += o.a[0]; r->n["fault.wall_clock_jump"]++; break;
    case 'e': eintr = true; break;
    case 's': spurious = true; break;
    case 'w': eagain_send += (int)o.a[0]; break;
    case 'x': drop_recv[o.a[0] & 1] += 1; break;
    case 'r': reverse = !reverse; r->n["fault.event_order"]++; break;
    case 'i': mid += 1; break;
    case '.': barrier = true; break;
    default: break;
  }
  return true;
}
// One more operation may happen while the program is between two system calls.
void Kernel::midcall() {
  while (mid > 0) { --mid; if (pos < ops->size() && strchr("abtrwc", (*ops)[pos].k)) { int64_t d = deadline; deadline = -1; step(); deadline = d; r->n["fault.event_inside_handler"]++; } }
}

[[noreturn]] void Kernel::end() { oracle_end(); r->sim_ns = now - 1000000000; finish(*r); }

void Kernel::idle_check() { oracle_idle(); if (r->bad()) end(); }

int Kernel::collect(int epfd, struct epoll_event* ev, int max) {
  std::vector<std::pair<uint64_t, int>> order;
  for (auto& kv : fds) if (kv.second.epfd == epfd && kv.second.ready) order.push_back({kv.second.order, kv.first});
  std::sort(order.begin(), order.end());
  if (reverse) std::reverse(order.begin(), order.end());
  int n = 0;
  for (auto& p : order) {
    VFd& f = fds[p.second];
    if (n >= max) break;
    f.ready = false;
    uint32_t have = EPOLLOUT;
    if (f.type == VFd::event) have = f.count ? EPOLLIN : 0;
    else if (!f.in.empty()) have |= EPOLLIN;
    have &= f.mask;
    if (!(f.mask & EPOLLET) && have) f.ready = true;  // level-triggered
    if (!have) continue;
    ev[n].events = have; ev[n].data = f.data; ++n;
  }
  if (spurious) { // a readiness report for which nothing can be read any more
    spurious = false;
    for (auto& kv : fds) {
      VFd& f = kv.second;
      if (f.epfd != epfd || f.type != VFd::sock || n >= max) continue;
      bool there = false;
      for (int i = 0; i < n; ++i) if (memcmp(&ev[i].data, &f.data, sizeof f.data) == 0) there = true;
      if (there) continue;
      ev[n].events = EPOLLIN; ev[n].data = f.data; ++n;
      r->n["fault.spurious_event"]++;
    }
  }
  return n;
}

int Kernel::wait_events(int epfd, struct epoll_event* ev, int max, int timeout) {
  oracle_turn();
  barrier = false;
  if (timeout != 0) idle_check();
  deadline = timeout < 0 ? -1 : now + (int64_t)timeout * 1000000;
  int64_t limit = -1;
  for (;;) {
    while (!barrier && step()) {
      if (eintr) break;
      if (deadline >= 0 && timeout && now >= deadline) break;
    }
    barrier = false;
    if (eintr) { eintr = false; r->n["fault.eintr"]++; errno = EINTR; return -1; }
    int n = collect(epfd, ev, max);
    if (n) { r->n["events"] += (uint64_t)n; if (n > 1) r->n["probe.several_sockets_ready"]++; uint64_t h = state(); r->states.insert(h); return n; }
    if (timeout == 0 || (deadline >= 0 && now >= deadline)) return 0;
    if (pos >= ops->size()) {
      if (limit < 0) { if (end_at < 0) end_at = now + 60000000000ll; limit = end_at; }
      if (deadline < 0 || deadline > limit) end();
      now = deadline;
      return 0;
    }
  }
}

uint64_t Kernel::state() {
  uint64_t h = 7;
  for (auto& kv : fds) if (kv.second.type == VFd::sock) h = mix64(h, kv.second.in.size() * 4 + (kv.second.ready ? 1 : 0) + (kv.second.port == from_port ? 2 : 0));
  return mix64(mix64(h, oracle_state()), (uint64_t)(reverse ? 1 : 0) + (uint64_t)eagain_send * 2);
}

ssize_t Kernel::recv(int fd, const struct iovec* iov, size_t niov, void* addr, socklen_t* len, int flags, bool* trunc) {
  VFd& f = fds[fd];
  midcall();
  bool block = !f.nonblock && !(flags & MSG_DONTWAIT);
  bool a = f.port == from_port;
  for (;;) {
    if (!f.in.empty() && drop_recv[a ? 0 : 1] > 0) { --drop_recv[a ? 0 : 1]; oracle_discard(a, f.in.front()); f.in.pop_front(); r->n["fault.bad_checksum"]++; continue; }
    if (!f.in.empty()) break;
    if (!block) { errno = EAGAIN; return -1; }
    oracle_turn();
    idle_check();
    deadline = -1;
    if (pos >= ops->size()) { now += 60000000000ll; end(); }
    step();
    eintr = spurious = barrier = false;
  }
  Dgram d = f.in.front();
  if (!(flags & MSG_PEEK)) f.in.pop_front();
  size_t off = 0;
  for (size_t i = 0; i < niov && off < d.data.size(); ++i) { size_t k = std::min(iov[i].iov_len, d.data.size() - off); memcpy(iov[i].iov_base, d.data.data() + off, k); off += k; }
  if (trunc) *trunc = off < d.data.size();
  if (addr && len) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(d.ip); s.sin_port = htons(d.port); memcpy(addr, &s, std::min<size_t>(*len, sizeof s)); *len = sizeof s; }
  r->note(1); r->note(d.data.data(), off); r->note(d.port); r->note((uint64_t)now);
  if (!(flags & MSG_PEEK)) { if (d.data.size() > 4096) d.data.resize(std::max<size_t>(off, 4096)); oracle_received(a, d, f.in.size()); }
  if (r->bad()) end();
  return (ssize_t)((flags & MSG_TRUNC) ? std::max(off, d.full) : off);
}

ssize_t Kernel::send(int fd, const std::string& data, const void* addr, socklen_t len, int flags) {
  VFd& f = fds[fd];
  midcall();
  bool block = !f.nonblock && !(flags & MSG_DONTWAIT);
  if (eagain_send > 0 && !block) { --eagain_send; r->n["fault.send_would_block"]++; errno = EAGAIN; return -1; }
  struct sockaddr_in s; memset(&s, 0, sizeof s);
  if (addr && len >= sizeof s) memcpy(&s, addr, sizeof s); else if (f.connected) { s.sin_addr.s_addr = htonl(f.peer_ip); s.sin_port = htons(f.peer_port); } else { errno = EDESTADDRREQ; return -1; }
  if (s.sin_port == 0) { errno = EINVAL; return -1; }
  if (data.size() > 65507) { errno = EMSGSIZE; return -1; }
  r->note(2); r->note(data.data(), data.size()); r->note(s.sin_addr.s_addr); r->note(s.sin_port); r->note((uint64_t)now);
  oracle_sent(fd, f.port == from_port, data, ntohl(s.sin_addr.s_addr), ntohs(s.sin_port));
  if (r->bad()) end();
  return (ssize_t)data.size();
}
} // namespace sim

using namespace sim;
extern "C" {
int socket(int domain, int, int) { if (domain != AF_INET) { errno = EAFNOSUPPORT; return -1; } return K.fresh(VFd::sock); }
int bind(int fd, const struct sockaddr* a, socklen_t) {
  VFd* f = K.of(fd);
  if (!f) { errno = EBADF; return -1; }
  f->port = ntohs(((const struct sockaddr_in*)a)->sin_port); f->bound = true;
  if (f->port == 0) f->port = 40000 + ++K.ports;
  return 0;
}
int connect(int fd, const struct sockaddr* a, socklen_t) {
  VFd* f = K.of(fd);
  if (!f) { errno = EBADF; return -1; }
  f->connected = true; f->peer_ip = ntohl(((const struct sockaddr_in*)a)->sin_addr.s_addr); f->peer_port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  if (!f->bound) { f->bound = true; f->port = 40000 + ++K.ports; }
  return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  VFd* f = K.of(fd);
  if (!f) { errno = EBADF; return -1; }
  struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons((uint16_t)f->port);
  memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; return 0;
}
int setsockopt(int fd, int, int, const void*, socklen_t) { if (!K.of(fd)) { errno = EBADF; return -1; } return 0; }
int getsockopt(int fd, int, int, void* v, socklen_t* l) { if (!K.of(fd)) { errno = EBADF; return -1; } if (v && l) memset(v, 0, *l); return 0; }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void* p = va_arg(ap, void*); va_end(ap);
  VFd* f = K.of(fd);
  if (!f) return (int)syscall(SYS_ioctl, fd, req, p);
  if (req == FIONBIO) { f->nonblock = *(int*)p != 0; return 0; }
  if (req == FIONREAD) { *(int*)p = f->in.empty() ? 0 : (int)f->in.front().data.size(); return 0; }
  errno = ENOTTY; return -1;
}
static int do_fcntl(int fd, int cmd, long arg) {
  VFd* f = K.of(fd);
  if (!f) return (int)syscall(SYS_fcntl, fd, cmd, arg);
  if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { f->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
  return 0;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, arg); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, arg); }
int close(int fd) { K.fds.erase(fd); return (int)syscall(SYS_close, fd); }
ssize_t read(int fd, void* b, size_t n) {
  VFd* f = K.of(fd);
  if (!f) return syscall(SYS_read, fd, b, n);
  if (f->type == VFd::event) { if (!f->count) { errno = EAGAIN; return -1; } uint64_t v = f->count; f->count = 0; memcpy(b, &v, std::min<size_t>(n, 8)); return 8; }
  struct iovec v = {b, n};
  return K.recv(fd, &v, 1, nullptr, nullptr, 0, nullptr);
}
ssize_t write(int fd, const void* b, size_t n) {
  VFd* f = K.of(fd);
  if (!f) return syscall(SYS_write, fd, b, n);
  if (f->type == VFd::event) { uint64_t v = 0; memcpy(&v, b, std::min<size_t>(n, 8)); f->count += v; K.wake(*f); return 8; }
  return K.send(fd, std::string((const char*)b, n), nullptr, 0, 0);
}
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { if (!K.of(fd)) { errno = ENOTSOCK; return -1; } struct iovec v = {b, n}; return K.recv(fd, &v, 1, a, l, fl, nullptr); }
ssize_t recv(int fd, void* b, size_t n, int fl) { return recvfrom(fd, b, n, fl, nullptr, nullptr); }
ssize_t recvmsg(int fd, struct msghdr* m, int fl) {
  if (!K.of(fd)) { errno = ENOTSOCK; return -1; }
  bool trunc = false;
  socklen_t l = m->msg_namelen;
  ssize_t k = K.recv(fd, m->msg_iov, m->msg_iovlen, m->msg_name, &l, fl, &trunc);
  if (k >= 0) { m->msg_flags = trunc ? MSG_TRUNC : 0; m->msg_namelen = m->msg_name ? l : 0; m->msg_controllen = 0; }
  return k;
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { if (!K.of(fd)) { errno = ENOTSOCK; return -1; } return K.send(fd, std::string((const char*)b, n), a, l, fl); }
ssize_t send(int fd, const void* b, size_t n, int fl) { return sendto(fd, b, n, fl, nullptr, 0); }
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) {
  if (!K.of(fd)) { errno = ENOTSOCK; return -1; }
  std::string s;
  for (size_t i = 0; i < m->msg_iovlen; ++i) s.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return K.send(fd, s, m->msg_name, m->msg_namelen, fl);
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
  bool any = false;
  for (nfds_t i = 0; i < n; ++i) if (K.of(p[i].fd)) any = true;
  if (!any) { struct timespec ts = {timeout / 1000, (timeout % 1000) * 1000000l}; return (int)syscall(SYS_ppoll, p, n, timeout < 0 ? nullptr : &ts, nullptr, 0); }
  for (;;) {
    int k = 0;
    for (nfds_t i = 0; i < n; ++i) {
      VFd* f = K.of(p[i].fd);
      p[i].revents = 0;
      if (!f) continue;
      if ((p[i].events & POLLIN) && !f->in.empty()) p[i].revents |= POLLIN;
      if ((p[i].events & POLLOUT)) p[i].revents |= POLLOUT;
      if (p[i].revents) ++k;
    }
    if (k || timeout == 0) { K.now += 1000; return k; }
    K.oracle_turn(); K.idle_check();
    if (K.pos >= K.ops->size()) { if (timeout > 0) { K.now += (int64_t)timeout * 1000000; return 0; } K.end(); }
    K.deadline = -1;
    K.step();
    K.eintr = K.spurious = K.barrier = false;
  }
}
int epoll_create1(int) { return K.fresh(VFd::ep); }
int epoll_create(int) { return K.fresh(VFd::ep); }
int epoll_ctl(int ep, int o, int fd, struct epoll_event* ev) {
  VFd* f = K.of(fd);
  if (!f || !K.of(ep)) { errno = EBADF; return -1; }
  if (o == EPOLL_CTL_DEL) { f->epfd = -1; return 0; }
  if (o == EPOLL_CTL_ADD && f->epfd >= 0) { errno = EEXIST; return -1; }
  if (o == EPOLL_CTL_MOD && f->epfd < 0) { errno = ENOENT; return -1; }
  f->epfd = ep; f->mask = ev->events; f->data = ev->data;
  f->ready = true;   // looked at on the next wait
  return 0;
}
int epoll_wait(int ep, struct epoll_event* ev, int max, int timeout) { return K.wait_events(ep, ev, max, timeout); }
int epoll_pwait(int ep, struct epoll_event* ev, int max, int timeout, const sigset_t*) { return K.wait_events(ep, ev, max, timeout); }
int eventfd(unsigned int v, int) { int fd = K.fresh(VFd::event); if (fd >= 0) { K.of(fd)->count = v; K.of(fd)->nonblock = true; } return fd; }
int timerfd_create(int, int) { errno = EINVAL; return -1; } // Asio then passes its timers as time-outs
static int do_clock(clockid_t c, struct timespec* t) {
  if (!K.active) return (int)syscall(SYS_clock_gettime, c, t);
  int64_t v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? K.now + K.wall : K.now;
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
int clock_gettime(clockid_t c, struct timespec* t) { return do_clock(c, t); }
int gettimeofday(struct timeval* t, void*) { struct timespec s; do_clock(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* p) { struct timespec s; do_clock(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
int getaddrinfo(const char* host, const char* service, const struct addrinfo* hints, struct addrinfo** out) {
  auto a = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in));
  auto s = (struct sockaddr_in*)(a + 1);
  s->sin_family = AF_INET; s->sin_port = htons((uint16_t)atoi(service ? service : "0"));
  if (!host || inet_pton(AF_INET, host, &s->sin_addr) != 1) { free(a); return EAI_NONAME; }
  a->ai_family = AF_INET; a->ai_socktype = SOCK_DGRAM; a->ai_protocol = IPPROTO_UDP; a->ai_addrlen = sizeof *s; a->ai_addr = (struct sockaddr*)s;
  (void)hints;
  *out = a;
  return 0;
}
void freeaddrinfo(struct addrinfo* a) { free(a); }
}
