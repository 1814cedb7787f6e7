// C19: recording of received packets, reading back, replay tool; disk faults and crashes.
#include "runner.hh"
#include "endpoints.hh"
#include "seams.hh"
#include "reader.hh"
#include <cerrno>
#include <iostream>
#include <memory>
#include <sys/stat.h>
#include <sys/uio.h>

int replay_main(int, const char**);

namespace sim {
const bool isolate = false;
const char* delivered_key() { return "blocks.delivered"; }
namespace {
std::string path;
std::vector<std::string> fed;
Run* R = nullptr;

// ---- the disk under the dump ----
struct Disk { ino_t ino = 0; dev_t dev = 0; bool watch = false; int shortw = 0, eintr = 0; int64_t room = -1; int rshort = 0, reintr = 0; } disk;
bool is_dump(int fd) { struct stat s; return disk.watch && fstat(fd, &s) == 0 && s.st_ino == disk.ino && s.st_dev == disk.dev; }

struct Packets : PacketSink { std::string cur; std::vector<std::string> all; void chunk(const char* p, size_t n) override { cur.append(p, n); } void end() override { all.push_back(cur); cur.clear(); } };
struct Blocks : DataSink { std::vector<std::string> all; void data(const char* p, size_t n) override { all.emplace_back(p, n); } };
std::string bytes(uint64_t salt, size_t n) { Rng r(salt * 31 + 7); std::string s(n, 0); for (auto& c : s) c = (char)r.next(); return s; }
std::string file() { std::string s; int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0); if (fd < 0) return s; char b[65536]; long k; while ((k = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, (size_t)k); syscall(SYS_close, fd); return s; }
void store(const std::string& p, const std::string& s) { int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); put(fd, s); syscall(SYS_close, fd); }

struct Life {
  std::unique_ptr<Dec> d; Packets out; Blocks in; Err e = E_NONE;
  Life(const Config& c, bool as_c) {
    int w = (int)(4 << (get(c, "field") & 3));
    bool o = get(c, "ordered") != 0;
    d = as_c ? make_dec_c(w, o, out, in, e) : make_dec_cpp(w, o, out, in, e);
  }
};
// The records must be the packets given, up to a point; all of them when whole.
void prefix(const char* what, const std::vector<std::string>& got, const std::vector<std::string>& want, bool whole) {
  for (size_t i = 0; i < got.size(); ++i) {
    if (i >= want.size()) { R->fail("invented-packet", std::string(what) + ": " + std::to_string(got.size()) + " packets for " + std::to_string(want.size()) + " received"); return; }
    if (got[i] != want[i]) { R->fail("altered-packet", std::string(what) + ": packet " + std::to_string(i) + " of " + std::to_string(want[i].size()) + " bytes comes back as " + std::to_string(got[i].size()) + " bytes" + (got[i].size() == want[i].size() ? " with another content" : "")); return; }
  }
  if (whole && got.size() != want.size()) R->fail("lost-packet", std::string(what) + ": " + std::to_string(got.size()) + " packets for " + std::to_string(want.size()) + " received");
}
}
}
const char* sim_dump_path() { return sim::path.c_str(); }
void sim_fed(const char* p, std::size_t n) { sim::fed.emplace_back(p, n); }

extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
  using namespace sim;
  if (!is_dump(fd)) return syscall(SYS_write, fd, b, n);
  R->n["disk.writes"]++;
  if (disk.eintr > 0) { --disk.eintr; R->n["fault.write_eintr"]++; errno = EINTR; return -1; }
  if (disk.room == 0) { R->n["fault.disk_full"]++; errno = ENOSPC; return -1; }
  if (disk.shortw > 0 && n > 1) { R->n["fault.short_write"]++; n = std::max<size_t>(1, n * (size_t)(disk.shortw % 100) / 100); disk.shortw = 0; }
  if (disk.room > 0 && (int64_t)n > disk.room) n = (size_t)disk.room;
  long k = syscall(SYS_write, fd, b, n);
  if (disk.room > 0 && k > 0) disk.room -= k;
  return k;
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  using namespace sim;
  if (!is_dump(fd)) return syscall(SYS_writev, fd, v, n);
  std::string s;
  for (int i = 0; i < n; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
  return write(fd, s.data(), s.size());
}
ssize_t read(int fd, void* b, size_t n) {
  using namespace sim;
  if (!is_dump(fd)) return syscall(SYS_read, fd, b, n);
  if (disk.reintr > 0) { --disk.reintr; R->n["fault.read_eintr"]++; errno = EINTR; return -1; }
  if (disk.rshort > 0 && n > 1) { R->n["fault.short_read"]++; n = std::max<size_t>(1, std::min<size_t>(n, (size_t)disk.rshort)); }
  return syscall(SYS_read, fd, b, n);
}
}

namespace sim {
void generate(uint64_t seed, int prop, int tier, Config& c, std::vector<Op>& ops) {
  Rng g(mix64(seed, 1919 + (uint64_t)prop));
  c["field"] = (int64_t)g.below(4); c["ordered"] = (int64_t)g.below(2); c["c"] = (int64_t)g.below(2);
  c["rate"] = g.range(1, 6); c["systematic"] = g.chance(0.8); c["window"] = g.chance(0.5) ? 0 : g.range(1, 20);
  c["cut"] = (int64_t)g.below(1001); c["cut2"] = (int64_t)g.below(1001); c["rshort"] = g.chance(0.2) ? g.range(30, 3000) : 0; c["reintr"] = g.chance(0.3) ? g.range(1, 4) : 0;
  c["old"] = g.chance(0.5) ? 0 : g.range(1, 3);   // what lies at the dump's path beforehand
  bool clean = g.chance(0.4);                 // only packets a receiver accepts
  int n = (int)g.range(1, tier ? 300 : 80), sizes = (int)g.below(5);
  double loss = g.unit() * 0.5, dup = g.unit() * 0.3, bad = clean ? 0 : g.unit() * 0.3, fl = g.chance(0.3) ? 0 : g.unit() * 0.3;
  int64_t count = 0;
  for (int i = 0; i < n; ++i) {
    int64_t sz = sizes == 0 ? g.range(1, 40) : sizes == 1 ? g.range(1, 1500) : sizes == 2 ? g.range(1, 9000) : sizes == 3 ? (g.chance(0.1) ? (g.chance(0.4) ? g.range(65480, 65535) : g.range(20000, 65000)) : g.range(1, 300)) : (g.chance(0.5) ? 8191 + g.range(-30, 10) : g.range(1, 700));
    sz = std::max<int64_t>(4, sz / 4 * 4);
    if (g.chance(0.1)) ops.push_back(op('r')); else ops.push_back(op('s', sz, (int64_t)(seed % 1000000) * 1000 + i, (int64_t)g.below(3)));
    ++count;
    if (!g.chance(loss)) ops.push_back(op('d', 0, (int64_t)g.below(4)));          // everything not yet delivered
    else ops.push_back(op('l'));                                               // lost
    if (g.chance(dup)) ops.push_back(op('o', (int64_t)g.below(1000000), (int64_t)g.below(4)));  // an older one again
    if (g.chance(bad)) {
      switch (g.below(4)) {
        case 0: ops.push_back(op('x', (int64_t)g.below(1000000), (int64_t)g.below(4), 0, g.range(0, 60))); break;
        case 1: ops.push_back(op('x', (int64_t)g.below(1000000), (int64_t)g.below(4), 1, (int64_t)g.below(1000000))); break;
        case 2: ops.push_back(op('x', (int64_t)g.below(1000000), (int64_t)g.below(4), 2, g.range(1, 40))); break;
        case 3: ops.push_back(op('g', g.chance(0.2) ? g.range(1, 2000) : g.range(1, 50), (int64_t)g.below(1000000), (int64_t)g.below(6), (int64_t)g.below(4))); break;
      }
    }
    if (g.chance(0.1)) ops.push_back(op('k', !clean && g.chance(0.2)));
    if (g.chance(0.1)) ops.push_back(op('t', g.range(0, 300000000)));
    if (g.chance(fl)) {
      switch (g.below(5)) {
        case 0: ops.push_back(op('F', 1, g.range(1, 99))); break;
        case 1: ops.push_back(op('F', 2, g.range(1, 3))); break;
        case 2: if (g.chance(0.1)) ops.push_back(op('F', 3, g.range(0, 20000))); break;
        default: ops.push_back(op('C', (int64_t)g.below(1001))); break;
      }
    }
  }
}

void execute(const Config& c, const std::vector<Op>& ops, int prop, Run& r) {
  (void)prop;
  R = &r;
  disk = Disk{}; fed.clear();
  std::string dir = getenv("SIM_SCRATCH") ? getenv("SIM_SCRATCH") : "/tmp";
  std::string main_path = dir + "/dump", cut_path = dir + "/dump.cut", other = dir + "/dump.other";
  path = main_path;
  // The disk as the process finds it: nothing, an earlier session's dump (whole, torn), or other bytes.
  std::string junk = bytes(4711 + (uint64_t)get(c, "cut"), 1 + (size_t)get(c, "cut2") * 7);
  auto before = [&](const std::string& p) {
    unlink(p.c_str());
    int64_t k = get(c, "old");
    if (k == 0) return;
    r.n["fault.stale_file"]++;
    if (k == 3) { store(p, junk); return; }
    std::string keep = path;
    path = p;
    { Life L(c, false); for (int i = 0; i < 3; ++i) { std::string b = std::string(1, (char)(i % 2)) + junk.substr(0, 60); L.d->feed(Bytes(b.begin(), b.end()), 0); } }
    if (k == 2) { std::string t = file(); store(p, t.substr(0, t.size() * 2 / 3)); }
    path = keep;
  };
  seam::mono_ns = 1000000000; seam::wall_ns = 1700000000000000000ll;
  bool as_c = get(c, "c") != 0;
  Packets wire; Err e;
  auto enc = make_enc_cpp((int)(4 << (get(c, "field") & 3)), wire, e);
  enc->set_rate((size_t)std::max<int64_t>(1, get(c, "rate"))); enc->set_systematic(get(c, "systematic") != 0);
  if (get(c, "window") > 0) enc->set_window((size_t)get(c, "window"));
  before(main_path); before(other);
  std::unique_ptr<Life> L(new Life(c, as_c));
  struct stat st;
  if (stat(path.c_str(), &st)) { r.fail("no-dump", "the dump file is not created"); return; }
  disk.ino = st.st_ino; disk.dev = st.st_dev; disk.watch = true;
  std::vector<std::string> given;
  size_t next = 0;
  bool full = false;
  auto give = [&](const std::string& p, int mode) {
    if (p.empty() || p.size() > (as_c ? 65535u : 70000u)) return;   // the C interface cannot carry more
    given.push_back(p);
    Result x = L->d->feed(Bytes(p.begin(), p.end()), mode);
    if (x.err != E_NONE) r.n["fault.rejected_packet"]++;
    r.note(x.n); r.note((uint64_t)x.err);
    r.n["packets.given"]++;
  };
  auto crash = [&](int64_t permille, const char* what) {
    std::string s = file();
    size_t k = permille >= 1000 ? s.size() : s.size() * (size_t)permille / 1000;
    if (permille % 3 && k < s.size()) k += (size_t)permille % std::min<size_t>(s.size() - k, 7 + (size_t)permille % 60) % 9; // not only round positions
    std::istringstream in(s.substr(0, k));
    auto v = read_dump(in);
    prefix(what, v, given, false);
    r.n["fault.crash"]++;
    r.note(v.size()); r.note(k);
    r.states.insert(mix64(v.size() * 131 + given.size(), s.size() - k));
  };
  for (size_t i = 0; i < ops.size() && !r.bad(); ++i) {
    const Op& o = ops[i];
    r.at = i; ++r.ops;
    if (r.verbose) fprintf(stderr, "%s\n", o.text().c_str());
    switch (o.k) {
      case 's': { std::string b = bytes((uint64_t)o.a[1], (size_t)std::max<int64_t>(4, std::min<int64_t>(o.a[0], 65535)) / 4 * 4); enc->submit(Bytes(b.begin(), b.end()), (int)o.a[2]); break; }
      case 'r': enc->repair(); break;
      case 'd': while (next < wire.all.size()) give(wire.all[next++], (int)o.a[1]); break;
      case 'l': if (next < wire.all.size()) { r.n["fault.loss"] += wire.all.size() - next; next = wire.all.size(); } break;
      case 'o': if (!wire.all.empty()) { r.n["fault.duplicate_or_late"]++; give(wire.all[(size_t)o.a[0] % wire.all.size()], (int)o.a[1]); } break;
      case 'x': if (!wire.all.empty()) {
        std::string p = wire.all[(size_t)o.a[0] % wire.all.size()];
        if (o.a[2] == 0) p.resize(std::min<size_t>(p.size(), 1 + (size_t)o.a[3]));
        else if (o.a[2] == 1) p[(size_t)o.a[3] % std::min<size_t>(p.size(), 24)] ^= (char)(1 << (o.a[3] % 8));
        else p += bytes((uint64_t)o.a[0], (size_t)o.a[3]);
        r.n["fault.damaged_packet"]++;
        give(p, (int)o.a[1]);
      } break;
      case 'g': { std::string p = bytes((uint64_t)o.a[1], (size_t)std::max<int64_t>(1, std::min<int64_t>(o.a[0], 60000))); p[0] = (char)o.a[2]; r.n["fault.foreign_packet"]++; give(p, (int)o.a[3]); break; }
      case 'k': {
        L->d->ack();
        if (!L->out.all.empty()) { std::string p = L->out.all.back(); if (o.a[0]) { r.n["fault.misrouted_ack"]++; give(p, 0); } else enc->feed(Bytes(p.begin(), p.end()), 0); }
        break;
      }
      case 't': seam::mono_ns += o.a[0]; break;
      case 'F':
        if (o.a[0] == 1) disk.shortw = (int)o.a[1];
        else if (o.a[0] == 2) disk.eintr = (int)o.a[1];
        else if (!full) { full = true; disk.room = std::max<int64_t>(0, o.a[1]); }
        break;
      case 'C': crash(o.a[0], "dump after a crash"); break;
      default: break;
    }
  }
  r.sim_ns = seam::mono_ns - 1000000000;
  r.n["blocks.delivered"] += L->in.all.size();
  if (r.bad()) return;
  std::vector<std::string> delivered = L->in.all;
  for (auto& b : delivered) r.note(b.data(), b.size());
  L->d.reset();                                  // closes the dump
  bool lost_tail = full && disk.room == 0;
  std::string s = file();
  r.note(s.data(), s.size());
  disk.rshort = (int)get(c, "rshort"); disk.reintr = (int)get(c, "reintr");
  std::vector<std::string> back;
  { std::ifstream in(main_path); back = read_dump(in); }
  std::vector<size_t> ends;
  { std::istringstream in(s); read_dump(in, &ends); }
  prefix("dump", back, given, !full || disk.room > 0);
  if (lost_tail) r.n["probe.dump_cut_by_full_disk"]++;
  r.n["packets.read_back"] += back.size();
  if (r.bad()) return;
  if (back.size() == given.size()) {
    path = other;
    Life again(c, false);
    for (auto& p : back) again.d->feed(Bytes(p.begin(), p.end()), 0);
    path = main_path;
    if (again.in.all != delivered) { r.fail("other-deliveries", "a fresh receiver fed with the dump delivers " + std::to_string(again.in.all.size()) + " blocks, the original " + std::to_string(delivered.size())); return; }
    r.n["probe.whole_session_reproduced"]++;
    again.d.reset();
  }
  // Which packets does a receiver like the replay tool's reject?
  std::vector<bool> rejected;
  { before(other); path = other; Config t = c; t["field"] = 1; t["ordered"] = 1; Life judge(t, false); for (auto& p : back) rejected.push_back(judge.d->feed(Bytes(p.begin(), p.end()), 0).err != E_NONE); judge.d.reset(); path = main_path; }
  struct Null : std::streambuf { int overflow(int ch) override { return ch; } } null;
  auto tool = [&](const std::string& p, const std::vector<std::string>& recs, const char* what) {
    fed.clear();
    auto* o1 = std::cerr.rdbuf(&null); auto* o2 = std::cout.rdbuf(&null);
    const char* argv[] = {"replay", p.c_str(), nullptr};
    disk.rshort = (int)get(c, "rshort"); disk.reintr = (int)get(c, "reintr");
    replay_main(2, argv);
    std::cerr.rdbuf(o1); std::cout.rdbuf(o2);
    size_t k = 0;
    while (k < recs.size() && !rejected[k]) ++k;
    prefix(what, fed, recs, false);
    if (!r.bad() && fed.size() < k) r.fail("lost-packet", std::string(what) + ": " + std::to_string(fed.size()) + " packets fed, " + std::to_string(recs.size()) + " recorded, the first one rejected is " + (k < recs.size() ? std::to_string(k) : "none"));
    if (k < recs.size()) r.n["probe.replay_stopped_by_rejection"]++; else r.n["probe.replay_of_all_packets"]++;
    r.n["packets.replayed"] += fed.size();
    r.note(fed.size());
  };
  tool(main_path, back, "replay tool");
  for (const char* k : {"cut", "cut2"}) {
    if (r.bad()) return;
    std::string t = s.substr(0, s.size() * (size_t)get(c, k) / 1000);
    store(cut_path, t);
    r.n["fault.crash"]++;
    std::istringstream in(t);
    auto v = read_dump(in);
    prefix("dump after a crash", v, given, false);
    if (!r.bad()) tool(cut_path, v, "replay tool on a truncated dump");
    if (r.verbose) fprintf(stderr, "cut at %zu of %zu: %zu packets\n", t.size(), s.size(), v.size());
    // Nothing complete may be missing.
    size_t whole = 0;
    while (whole < ends.size() && ends[whole] <= t.size()) ++whole;
    if (!r.bad() && v.size() < whole) r.fail("lost-packet", "dump after a crash: " + std::to_string(v.size()) + " packets read, " + std::to_string(whole) + " are complete");
    r.states.insert(mix64(v.size() * 131 + given.size(), t.size()));
  }
}
}
int main(int argc, char** argv) { return sim::main_loop(argc, argv); }
