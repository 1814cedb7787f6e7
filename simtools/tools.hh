#pragma once
#include "runner.hh"
#include <deque>
#include <map>
#include <string>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/uio.h>

namespace sim {
struct Dgram { std::string data; size_t full = 0; uint32_t ip = 0; uint16_t port = 0; };
struct VFd {
  enum Type { sock, ep, event } type = sock;
  uint64_t order = 0;
  bool nonblock = false, bound = false, connected = false, ready = false;
  int port = 0, epfd = -1;
  uint32_t mask = 0, peer_ip = 0; uint16_t peer_port = 0;
  epoll_data_t data;
  std::deque<Dgram> in;
  uint64_t count = 0;
};
struct Kernel {
  std::map<int, VFd> fds;
  uint64_t counter = 0;
  int ports = 0;
  bool active = false;
  int from_port = 0;
  const std::vector<Op>* ops = nullptr;
  size_t pos = 0;
  Run* r = nullptr;
  int64_t now = 1000000000, wall = 1700000000000000000ll, deadline = -1, end_at = -1;
  bool eintr = false, spurious = false, reverse = false, barrier = false, client_known = false;
  int eagain_send = 0, mid = 0, drop_recv[2] = {0, 0};
  std::set<uint64_t> seen_salt;

  int fresh(VFd::Type);
  VFd* of(int fd);
  void wake(VFd&);
  int socket_of(bool a);
  void arrive(bool a, Dgram d);
  bool step();
  void midcall();
  [[noreturn]] void end();
  void idle_check();
  int collect(int epfd, struct epoll_event* ev, int max);
  int wait_events(int epfd, struct epoll_event* ev, int max, int timeout);
  uint64_t state();
  ssize_t recv(int fd, const struct iovec*, size_t, void* addr, socklen_t* len, int flags, bool* trunc);
  ssize_t send(int fd, const std::string&, const void* addr, socklen_t len, int flags);

  // the oracle (main.cc)
  Dgram make_datagram(const Op&);
  void oracle_turn();                                        // the program asks for events
  void oracle_idle();                                        // the program is about to block
  void oracle_received(bool a, const Dgram&, size_t left);   // a receive call returned this
  void oracle_discard(bool a, const Dgram&);                 // dropped by the kernel
  void oracle_sent(int fd, bool from_a, const std::string&, uint32_t ip, uint16_t port);
  void oracle_end();
  uint64_t oracle_state();
};
extern Kernel K;
}
int proxy_main(int, char**);
int forwarder_main(int, const char**);
