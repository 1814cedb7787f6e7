// C21 (lossy proxy) and C22 (source forwarder): workloads, faults and oracles.
#include "tools.hh"
#include <iostream>
#include <random>

namespace sim {
const bool isolate = true;
const char* delivered_key() { return "datagrams.forwarded"; }
namespace {
const uint32_t B_IP = 0x0a000002, FROM = 9001, B_PORT = 5001;

// Independent statement of the documented loss models.
struct Loss {
  int kind = 0;                       // 0 file, 1 uniform, 2 burst
  std::vector<int> lines; size_t at = 0;
  unsigned p = 0, good = 0, bad = 0; bool in_bad = false;
  std::default_random_engine gen; std::uniform_int_distribution<unsigned> dist{1, 100};
  bool lose() {
    if (kind == 0) return at < lines.size() ? lines[at++] != 0 : false;
    unsigned x = dist(gen);
    if (kind == 1) return x > 100 - p;
    bool stay = x < (in_bad ? bad : good);
    if (!stay) in_bad = !in_bad;
    return in_bad;
  }
};
struct Dir { Loss loss; std::deque<std::string> due; uint64_t total = 0, lost = 0, total_turn = 0, lost_turn = 0; bool optional_front = false; };
struct Oracle {
  int prop = 21;
  Dir d[2];                            // 0: A to B, 1: B to A
  std::vector<std::pair<uint32_t, uint16_t>> clients;   // acceptable destinations of a reply right now
  size_t settled = 0;
  std::string line; uint64_t reports = 0; uint64_t rep[4] = {0, 0, 0, 0};
  std::deque<std::pair<std::string, bool>> pay;         // C22: payload, optional
} X;

std::string hex(const std::string& s) { std::string o; char b[4]; for (size_t i = 0; i < s.size() && i < 12; ++i) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; } return o + (s.size() > 12 ? ".. " : " ") + "(" + std::to_string(s.size()) + " bytes)"; }
std::string bytes(uint64_t salt, size_t n) { Rng r(salt * 77 + 5); std::string s(n, 0); for (auto& c : s) c = (char)r.next(); return s; }

// The reports of the proxy, judged when they are printed.
struct Out : std::streambuf {
  int overflow(int c) override { if (c == '\n') { full(X.line); X.line.clear(); } else if (c != EOF) X.line += (char)c; return c; }
  void full(const std::string& l) {
    unsigned long long a, b, c, d;
    size_t p = l.find("losses"), q = l.find("total");
    if (p == std::string::npos || q == std::string::npos) return;
    if (sscanf(l.c_str() + p, "losses %llu , %llu", &a, &b) != 2 || sscanf(l.c_str() + q, "total %llu , %llu", &c, &d) != 2) { K.r->fail("report-format", l); return; }
    ++X.reports; K.r->n["reports"]++;
    X.rep[0] = a; X.rep[1] = b; X.rep[2] = c; X.rep[3] = d;
    K.r->note(a); K.r->note(b); K.r->note(c); K.r->note(d);
    auto in = [](uint64_t v, uint64_t lo, uint64_t hi) { return v >= lo && v <= hi; };
    if (!in(a, X.d[0].lost_turn, X.d[0].lost) || !in(b, X.d[1].lost_turn, X.d[1].lost) || !in(c, X.d[0].total_turn, X.d[0].total) || !in(d, X.d[1].total_turn, X.d[1].total))
      K.r->fail("wrong-report", "report \"" + l + "\" when the datagrams dropped were " + std::to_string(X.d[0].lost) + " , " + std::to_string(X.d[1].lost) + " and received " + std::to_string(X.d[0].total) + " , " + std::to_string(X.d[1].total));
  }
} out;
struct Null : std::streambuf { std::string s; int overflow(int c) override { if (c != EOF) s += (char)c; return c; } } errout;
}

Dgram Kernel::make_datagram(const Op& o) {
  Dgram d;
  size_t n = (size_t)std::max<int64_t>(0, std::min<int64_t>(o.a[0], 9000));
  int kind = (int)o.a[1];
  uint64_t salt = (uint64_t)o.a[3];
  d.ip = o.k == 'a' ? 0x0a000100u + (uint32_t)(o.a[2] & 7) : B_IP;
  d.port = o.k == 'a' ? (uint16_t)(6000 + (o.a[2] & 7) * 3) : B_PORT;
  if (X.prop == 21) { if (n > 4096) n = 4096; d.data = bytes(salt, n); }
  else {
    auto be = [&](uint64_t v, int k) { for (int i = k - 1; i >= 0; --i) d.data += (char)(v >> (8 * i)); };
    std::string body = bytes(salt, n);
    switch (kind) {
      case 0: case 1: case 2:            // source; with trailing bytes; announcing more than there is
        be(2, 1); be(o.a[2] >> 3 ? (uint64_t)(o.a[2] >> 3) - 1 : salt, 4); be(kind == 2 ? n + 1 + (size_t)o.a[4] : n, 2); d.data += body;
        if (kind == 1) d.data += bytes(salt + 1, (size_t)o.a[4]);
        break;
      case 3: be(2, 1); be(salt, 4); be(n, 2); d.data.resize((size_t)(o.a[4] % 7) ? (size_t)(o.a[4] % 7) : 1); break; // header cut
      case 4: be(1, 1); be(salt, 4); d.data += body; break;  // repair
      case 5: be(0, 1); d.data += body; break;               // ack
      case 6: be(3 + (uint64_t)(o.a[4] % 253), 1); d.data += body; break;
      default: break;                                        // empty datagram
    }
  }
  d.full = d.data.size();
  return d;
}

void Kernel::oracle_turn() {
  if (X.clients.size() > 1) X.clients.erase(X.clients.begin(), X.clients.end() - 1);
}
void Kernel::oracle_idle() {
  for (int i = 0; i < 2; ++i) {
    X.d[i].total_turn = X.d[i].total; X.d[i].lost_turn = X.d[i].lost;
    if (!X.d[i].due.empty()) r->fail("not-forwarded", std::string(i ? "B to A" : "A to B") + ": waits for events without having forwarded " + hex(X.d[i].due.front()));
  }
  while (!X.pay.empty() && X.pay.front().second) X.pay.pop_front();
  if (!X.pay.empty()) r->fail("not-forwarded", "waits for the next datagram without having forwarded " + hex(X.pay.front().first));
}
void Kernel::oracle_discard(bool, const Dgram&) {}
void Kernel::oracle_received(bool a, const Dgram& d, size_t left) {
  r->n["datagrams.received"]++;
  if (left) r->n["probe.burst_of_datagrams"]++;
  if (r->verbose) fprintf(stderr, "    received at %c %s\n", a ? 'A' : 'B', hex(d.data).c_str());
  if (X.prop == 21) {
    if (a) { client_known = true; std::pair<uint32_t, uint16_t> c{d.ip, d.port}; if (X.clients.empty() || X.clients.back() != c) { if (!X.clients.empty()) r->n["probe.client_changed"]++; X.clients.push_back(c); } }
    if (d.data.empty()) { r->n["probe.empty_datagram"]++; return; }
    Dir& t = X.d[a ? 0 : 1];
    ++t.total;
    if (t.loss.lose()) { ++t.lost; r->n["fault.loss"]++; } else t.due.push_back(d.data);
    if (t.loss.kind == 0 && t.loss.at == t.loss.lines.size()) r->n["probe.loss_file_exhausted"]++;
  } else {
    client_known = true;
    const std::string& s = d.data;
    if (s.empty() || (unsigned char)s[0] != 2) { r->n["fault.foreign_datagram"]++; return; }
    if (s.size() < 7) { r->n["fault.truncated_source"]++; return; }
    size_t n = (size_t)(unsigned char)s[5] * 256 + (unsigned char)s[6];
    bool cut = d.full > s.size();
    if (n > s.size() - 7) { r->n["fault.truncated_source"]++; return; }
    if (cut) r->n["probe.datagram_larger_than_buffer"]++;
    X.pay.push_back({s.substr(7, n), cut});
    r->states.insert(mix64(X.pay.size() * 64 + left, (n * 8191 / 4096) * 16 + (s.size() - 7 > n) * 2 + cut));
  }
}
void Kernel::oracle_sent(int fd, bool from_a, const std::string& s, uint32_t ip, uint16_t port) {
  (void)fd;
  if (r->verbose) fprintf(stderr, "    sent to %08x:%u %s\n", ip, port, hex(s).c_str());
  r->n["datagrams.forwarded"]++;
  if (X.prop == 21) {
    bool to_b = ip == B_IP && port == B_PORT;
    Dir& t = X.d[to_b ? 0 : 1];
    if (!to_b) {
      bool ok = false;
      for (auto& c : X.clients) if (c.first == ip && c.second == port) ok = true;
      if (!ok) { r->fail("wrong-destination", "sent to " + std::to_string(ip & 255) + ":" + std::to_string(port) + ", which is neither the server nor the last known client"); return; }
    }
    if (to_b == from_a) { r->fail("wrong-socket", to_b ? "sent to the server from the clients' port" : "sent to the client from another port than the one it knows"); return; }
    if (t.due.empty()) { r->fail("unexpected-datagram", std::string(to_b ? "A to B" : "B to A") + ": " + hex(s) + " was to be dropped, was already forwarded or was never received"); return; }
    if (t.due.front() != s) { r->fail("altered-datagram", std::string(to_b ? "A to B" : "B to A") + ": " + hex(s) + " instead of " + hex(t.due.front())); return; }
    t.due.pop_front();
  } else {
    if (ip != B_IP || port != B_PORT) { r->fail("wrong-destination", "port " + std::to_string(port)); return; }
    while (!X.pay.empty() && X.pay.front().second && X.pay.front().first != s) X.pay.pop_front();
    if (X.pay.empty()) { r->fail("unexpected-datagram", hex(s) + " is the payload of no source received"); return; }
    if (X.pay.front().first != s) { r->fail("altered-datagram", hex(s) + " instead of " + hex(X.pay.front().first)); return; }
    X.pay.pop_front();
  }
}
void Kernel::oracle_end() {
  if (r->bad()) return;
  oracle_idle();
  for (auto& kv : fds) if (kv.second.type == VFd::sock && !kv.second.in.empty()) r->fail("not-received", std::to_string(kv.second.in.size()) + " datagrams left in a socket while the program waits for ever");
  if (X.prop == 21 && !r->bad()) {
    if (!X.reports) r->fail("no-report", "no report in 60 s");
    else if (X.rep[0] != X.d[0].lost || X.rep[1] != X.d[1].lost || X.rep[2] != X.d[0].total || X.rep[3] != X.d[1].total)
      r->fail("wrong-report", "the last report says losses " + std::to_string(X.rep[0]) + " , " + std::to_string(X.rep[1]) + " total " + std::to_string(X.rep[2]) + " , " + std::to_string(X.rep[3]) + " for " + std::to_string(X.d[0].lost) + " , " + std::to_string(X.d[1].lost) + " of " + std::to_string(X.d[0].total) + " , " + std::to_string(X.d[1].total));
  }
}
uint64_t Kernel::oracle_state() { return mix64(X.d[0].loss.in_bad * 2 + X.d[1].loss.in_bad + X.clients.size() * 8, X.d[0].due.size() * 16 + X.d[1].due.size() + std::min<uint64_t>(X.d[0].lost, 15) * 256 + std::min<uint64_t>(X.d[1].lost, 15) * 4096 + X.pay.size() * 65536); }

void generate(uint64_t seed, int prop, int tier, Config& c, std::vector<Op>& ops) {
  Rng g(mix64(seed, (uint64_t)prop * 1000 + 21));
  c["model"] = (int64_t)g.below(3);
  for (int i = 0; i < 2; ++i) {
    std::string s = i ? "2" : "1";
    c["p" + s] = g.range(1, 99); c["good" + s] = g.range(0, 101); c["bad" + s] = g.range(0, 101);
    c["lines" + s] = g.chance(0.2) ? 0 : g.range(0, 40); c["fsalt" + s] = (int64_t)g.below(1000000); c["fp" + s] = g.range(0, 100);
    c["nonl" + s] = (int64_t)g.below(2);
  }
  int n = (int)g.range(3, tier ? 400 : 120);
  if (g.chance(0.03)) n *= 8;
  bool marathon = seed % 900 == 451;                 // more datagrams than 16 bits count
  if (marathon) n = (int)g.range(66000, 140000);
  double fault = g.chance(0.15) ? 0 : g.unit() * 0.5, pb = g.unit(), tick = g.unit() * 0.4, bar = g.unit();
  int clients = (int)g.range(1, 5), sizes = (int)g.below(4);
  if (marathon) { fault *= 0.02; tick *= 0.002; sizes = 0; bar = bar < 0.5 ? 1 : 0.2; pb = pb < 0.4 ? 0.01 : pb > 0.6 ? 0.99 : pb; }
  int64_t last[2] = {1, 1};
  int cur = 0;
  Op prev = op('.');
  double again = g.chance(0.5) ? g.unit() * 0.3 : 0;
  uint64_t fewids = g.chance(0.3) ? 1 + g.below(6) : 0;   // several senders: the same ids with other payloads
  for (int i = 0; i < n; ++i) {
    if (g.chance(fault)) {
      switch (g.below(7)) {
        case 0: ops.push_back(op('e')); break;
        case 1: ops.push_back(op('s')); break;
        case 2: ops.push_back(op('w', g.range(1, 3))); break;
        case 3: ops.push_back(op('x', (int64_t)g.below(2))); break;
        case 4: ops.push_back(op('r')); break;
        case 5: ops.push_back(op('i')); break;
        case 6: ops.push_back(op('c', g.range(-1000000000000ll, 1000000000000ll))); break;
      }
    }
    if (g.chance(tick)) ops.push_back(op('t', g.chance(0.3) ? g.range(0, 20000000000ll) : g.range(0, 200000000), (int64_t)(g.chance(0.2 * (fault > 0)))));
    int64_t sz = sizes == 0 ? g.range(1, 40) : sizes == 1 ? g.range(1, 1500) : sizes == 2 ? (g.chance(0.5) ? 4096 - g.range(0, 12) : g.range(1, 4096)) : (g.chance(0.3) ? g.range(4000, 4096) : g.range(1, 64));
    int64_t salt = (int64_t)(seed % 100000) * 100000 + i;
    bool b = prop == 21 && g.chance(pb);
    if (prop == 21) {
      if (g.chance(0.04)) sz = 0;
      if (g.chance(0.2)) cur = (int)g.below((uint64_t)clients);
      if (fault > 0 && g.chance(0.06) && !ops.empty()) salt = last[b];   // duplicated by the network
      ops.push_back(op(b ? 'b' : 'a', sz, 0, cur, salt));
      last[b] = salt;
    } else {
      int kind = g.chance(marathon ? 0.98 : 0.5) ? 0 : (int)g.below(8);
      int64_t extra = g.chance(0.5) ? g.range(0, 8) : g.range(0, 3000);
      if (kind != 2 && kind != 3 && !marathon && g.chance(0.03)) sz += 4090;
      int64_t who = (int64_t)g.below(8);
      if (prev.k == 'a' && g.chance(again)) { if (g.chance(0.5)) prev.a[2] = (prev.a[2] & ~7ll) | who; ops.push_back(prev); }  // duplicated by the network
      else ops.push_back(prev = op('a', sz, kind, who | (fewids ? (int64_t)(1 + g.below(fewids)) << 3 : 0), salt, extra));
    }
    if (g.chance(bar)) ops.push_back(op('.'));
  }
}

void execute(const Config& c, const std::vector<Op>& ops, int prop, Run& r) {
  X.prop = prop;
  K.r = &r; K.ops = &ops; K.from_port = FROM; K.active = true;
  std::cout.rdbuf(&out); std::cerr.rdbuf(&errout);
  std::vector<std::string> arg = {"tool", std::to_string(FROM), "10.0.0.2", std::to_string(B_PORT)};
  std::string dir = getenv("SIM_SCRATCH") ? getenv("SIM_SCRATCH") : "/tmp";
  if (prop == 21) {
    int model = (int)get(c, "model") % 3;
    const char* names[] = {"file", "uniform", "burst"};
    arg.push_back(names[model]);
    r.n[std::string("model.") + names[model]]++;
    for (int i = 0; i < 2; ++i) {
      std::string s = i ? "2" : "1";
      Loss& l = X.d[i].loss;
      l.kind = model;
      int64_t p = get(c, ("p" + s).c_str()); l.p = (unsigned)std::max<int64_t>(1, std::min<int64_t>(99, p));
      l.good = (unsigned)get(c, ("good" + s).c_str()); l.bad = (unsigned)get(c, ("bad" + s).c_str());
      if (model == 0) {
        std::string path = dir + "/loss" + s;
        Rng g((uint64_t)get(c, ("fsalt" + s).c_str()));
        std::string text;
        int64_t n = get(c, ("lines" + s).c_str());
        for (int64_t k = 0; k < n; ++k) { int v = g.range(1, 100) <= get(c, ("fp" + s).c_str()); l.lines.push_back(v); text += v ? "1" : "0"; if (k + 1 < n || !get(c, ("nonl" + s).c_str())) text += "\n"; }
        int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        put(fd, text); syscall(SYS_close, fd);
        arg.push_back(path);
      } else if (model == 1) arg.push_back(std::to_string(l.p));
      else { arg.push_back(std::to_string(l.good)); arg.push_back(std::to_string(l.bad)); }
    }
  }
  std::vector<char*> argv;
  for (auto& s : arg) argv.push_back(&s[0]);
  int argc = (int)argv.size();
  argv.push_back(nullptr);
  if (prop == 21) proxy_main(argc, argv.data()); else forwarder_main(argc, (const char**)argv.data());
  r.fail("exited", "the program ended: " + errout.s);
}
} // namespace sim

int main(int argc, char** argv) { return sim::main_loop(argc, argv); }
