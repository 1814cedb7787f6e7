#pragma once
// Command line shared by the small simulators: seed ranges, recording, minimisation, replay.
// A run is a configuration (named integers) and a list of operations, both drawn from one seed; executing them is a pure
// function of the two. Each run is executed in a child process, so nothing survives from one run to the next.
#include "rng.hh"
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace sim {

struct Op {
  char k = 0;
  int64_t a[5] = {0, 0, 0, 0, 0};
  std::string text() const {
    std::string s(1, k);
    int n = 5;
    while (n > 0 && a[n - 1] == 0) --n;
    for (int i = 0; i < n; ++i) s += " " + std::to_string(a[i]);
    return s;
  }
};
inline Op op(char k, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0, int64_t e = 0) { Op o; o.k = k; o.a[0] = a; o.a[1] = b; o.a[2] = c; o.a[3] = d; o.a[4] = e; return o; }

using Config = std::map<std::string, int64_t>;
inline int64_t get(const Config& c, const char* k, int64_t d = 0) { auto it = c.find(k); return it == c.end() ? d : it->second; }

// What one run leaves behind.
struct Run {
  std::string cls, detail;      // violation, when cls is not empty
  size_t at = 0;                // operation
  uint64_t log = 14695981039346656037ull;
  uint64_t ops = 0;
  int64_t sim_ns = 0;
  std::map<std::string, uint64_t> n;
  std::set<uint64_t> states;
  bool verbose = false;
  bool bad() const { return !cls.empty(); }
  void fail(const std::string& c, const std::string& d) { if (cls.empty()) { cls = c; detail = d; if (verbose) fprintf(stderr, "    !! %s: %s\n", c.c_str(), d.c_str()); } }
  void note(uint64_t x) { log = (log ^ x) * 1099511628211ull; log ^= log >> 29; }
  void note(const void* p, size_t len) { auto b = (const unsigned char*)p; for (size_t i = 0; i < len; ++i) log = (log ^ b[i]) * 1099511628211ull; note(len); }
};

// Provided by each simulator.
void generate(uint64_t seed, int prop, int tier, Config& c, std::vector<Op>& ops);
// May end the process through finish() (see below) or return.
void execute(const Config& c, const std::vector<Op>& ops, int prop, Run& r);
const char* delivered_key();
extern const bool isolate;   // whether each run of a seed range needs a process of its own

inline double real_now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

inline int result_fd = -1;
inline void put(int fd, const std::string& s) { size_t i = 0; while (i < s.size()) { long k = syscall(SYS_write, fd, s.data() + i, s.size() - i); if (k <= 0) break; i += (size_t)k; } }
inline std::string flat(std::string s) { for (char& c : s) if ((unsigned char)c < 32) c = ' '; return s; }
// Sends the result to the parent and ends the child.
[[noreturn]] inline void finish(const Run& r) {
  std::string s;
  s += "cls " + r.cls + "\ndetail " + flat(r.detail) + "\nat " + std::to_string(r.at) + "\nlog " + std::to_string(r.log) + "\nops " + std::to_string(r.ops) + "\nns " + std::to_string(r.sim_ns) + "\n";
  for (auto& kv : r.n) s += "n " + kv.first + " " + std::to_string(kv.second) + "\n";
  for (auto h : r.states) s += "s " + std::to_string(h) + "\n";
  s += "end\n";
  put(result_fd, s);
  fflush(nullptr);
  _exit(0);
}

inline int cpu_limit = 40;
inline void on_alarm(int) { static const char m[] = "SIM-FATAL hang: CPU limit of one run exceeded\n"; (void)!syscall(SYS_write, 2, m, sizeof m - 1); _exit(78); }

inline void arm(int secs) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &t, nullptr); alarm((unsigned)secs * 6); }
// Executes in a child. "crash" and "hang" are classes of violation.
inline Run run_child(const Config& c, const std::vector<Op>& ops, int prop, bool quiet, bool verbose = false) {
  Run r;
  int fd[2];
  if (pipe(fd)) { perror("pipe"); exit(2); }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    close(fd[0]);
    result_fd = fd[1];
    if (quiet) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn); }
    arm(cpu_limit);
    Run x;
    x.verbose = verbose;
    execute(c, ops, prop, x);
    finish(x);
  }
  close(fd[1]);
  std::string s;
  char buf[65536];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  bool whole = false;
  std::istringstream in(s);
  std::string l;
  while (std::getline(in, l)) {
    size_t p = l.find(' ');
    std::string k = l.substr(0, p), v = p == std::string::npos ? "" : l.substr(p + 1);
    if (k == "cls") r.cls = v; else if (k == "detail") r.detail = v; else if (k == "at") r.at = strtoull(v.c_str(), nullptr, 10);
    else if (k == "log") r.log = strtoull(v.c_str(), nullptr, 10); else if (k == "ops") r.ops = strtoull(v.c_str(), nullptr, 10);
    else if (k == "ns") r.sim_ns = strtoll(v.c_str(), nullptr, 10); else if (k == "s") r.states.insert(strtoull(v.c_str(), nullptr, 10));
    else if (k == "n") { size_t q = v.find(' '); r.n[v.substr(0, q)] += strtoull(v.c_str() + q + 1, nullptr, 10); }
    else if (k == "end") whole = true;
  }
  if (WIFSIGNALED(st)) { r.cls = WTERMSIG(st) == SIGALRM ? "hang" : "crash"; r.detail = "killed by signal " + std::to_string(WTERMSIG(st)); }
  else if (WEXITSTATUS(st) == 78) { r.cls = "hang"; r.detail = "CPU limit exceeded"; }
  else if (!whole && r.cls.empty()) { r.cls = "crash"; r.detail = "exit status " + std::to_string(WEXITSTATUS(st)); }
  return r;
}

inline std::string trace_text(const Config& c, const std::vector<Op>& ops, const std::map<std::string, std::string>& meta) {
  std::string s;
  for (auto& kv : meta) s += "# " + kv.first + "=" + flat(kv.second) + "\n";
  s += "config";
  for (auto& kv : c) s += " " + kv.first + "=" + std::to_string(kv.second);
  s += "\n";
  for (auto& o : ops) s += o.text() + "\n";
  return s;
}
inline bool parse_trace(const std::string& t, Config& c, std::vector<Op>& ops, std::map<std::string, std::string>& meta) {
  std::istringstream in(t);
  std::string l;
  bool cfg = false;
  while (std::getline(in, l)) {
    if (l.compare(0, 2, "# ") == 0) { size_t e = l.find('='); if (e != std::string::npos) meta[l.substr(2, e - 2)] = l.substr(e + 1); continue; }
    if (l.compare(0, 6, "config") == 0) {
      std::istringstream w(l.substr(6)); std::string kv;
      while (w >> kv) { size_t e = kv.find('='); c[kv.substr(0, e)] = strtoll(kv.c_str() + e + 1, nullptr, 10); }
      cfg = true;
      continue;
    }
    if (l.empty()) continue;
    Op o; o.k = l[0];
    std::istringstream w(l.substr(1)); int64_t v; int i = 0;
    while (i < 5 && w >> v) o.a[i++] = v;
    ops.push_back(o);
  }
  return cfg;
}
inline std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline std::string esc(const std::string& s) {
  std::string o;
  for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else o += ch; }
  return o;
}

inline void shrink(Config& c, std::vector<Op>& ops, int prop, const std::string& cls, double budget) {
  double end = real_now() + budget;
  auto bad = [&](const Config& cc, const std::vector<Op>& v) { return run_child(cc, v, prop, true).cls == cls; };
  for (int round = 0; round < 4 && real_now() < end; ++round) {
    bool any = false;
    size_t n = 2;
    while (!ops.empty() && real_now() < end) {
      size_t chunk = std::max<size_t>(1, ops.size() / n);
      bool red = false;
      for (size_t i = 0; i < ops.size() && real_now() < end;) {
        std::vector<Op> t(ops.begin(), ops.begin() + (long)i);
        size_t e = std::min(ops.size(), i + chunk);
        t.insert(t.end(), ops.begin() + (long)e, ops.end());
        if (bad(c, t)) { ops.swap(t); red = any = true; } else i = e;
      }
      if (!red) { if (chunk == 1) break; n = std::min(n * 2, ops.size()); }
    }
    for (auto& kv : c) {                       // simpler configuration
      if (real_now() > end) break;
      int64_t old = kv.second;
      for (int64_t v : {(int64_t)0, (int64_t)1}) { if (old == v) break; kv.second = v; if (bad(c, ops)) { any = true; break; } kv.second = old; }
    }
    for (size_t i = 0; i < ops.size() && real_now() < end; ++i)   // simpler arguments
      for (int j = 0; j < 5; ++j) {
        int64_t old = ops[i].a[j];
        for (int64_t v : {(int64_t)0, (int64_t)1, (int64_t)8, old / 2}) { if (old == v || std::abs(v) > std::abs(old)) continue; ops[i].a[j] = v; if (bad(c, ops)) { any = true; break; } ops[i].a[j] = old; }
      }
    if (!any) break;
  }
}

inline int main_loop(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    setenv("SIM_NO_REEXEC", "1", 1);
    if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, int64_t d) { return a.count(k) ? strtoll(a[k].c_str(), nullptr, 0) : d; };
  signal(SIGVTALRM, on_alarm);
  cpu_limit = (int)num("--cpu", 40);
  int prop = (int)num("--prop", 1), tier = (int)num("--tier", 0);
  if (cmd == "run") {
    uint64_t first = (uint64_t)num("--first", 0), stride = (uint64_t)num("--stride", 1), count = (uint64_t)num("--count", 100);
    double secs = (double)num("--secs", 1000000), t0 = real_now();
    volatile uint64_t* status = nullptr;
    if (a.count("--status")) {
      int fd = open(a["--status"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0 && ftruncate(fd, 4096) == 0) status = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    std::map<std::string, uint64_t> n;
    std::unordered_set<uint64_t> states, logs;
    uint64_t done = 0, redo = 0, det_bad = 0, ops_n = 0, hash = 0;
    int64_t ns = 0;
    Run v; uint64_t vseed = 0;
    for (uint64_t i = 0; i < count; ++i) {
      if (i && real_now() - t0 > secs) break;
      uint64_t seed = first + i * stride;
      if (status) { status[0] = 1; status[1] = seed; status[2] = done; }
      Config c; std::vector<Op> ops;
      generate(seed, prop, tier, c, ops);
      Run r;
      if (isolate) r = run_child(c, ops, prop, false); else { arm(cpu_limit); execute(c, ops, prop, r); arm(0); }
      ++done;
      uint64_t faults = 0;
      for (auto& kv : r.n) { n[kv.first] += kv.second; if (kv.first.compare(0, 6, "fault.") == 0) faults += kv.second; }
      states.insert(r.states.begin(), r.states.end());
      ops_n += r.ops; ns += r.sim_ns; hash ^= mix64(r.log, seed);
      if (faults && r.n[delivered_key()]) logs.insert(r.log);
      if (r.bad()) { v = r; vseed = seed; break; }
      if (i % 32 == 0) {
        Run q = run_child(c, ops, prop, false);
        ++redo;
        if (q.log != r.log || q.bad()) { ++det_bad; fprintf(stderr, "nondeterminism: seed %llu\n", (unsigned long long)seed); }
      }
    }
    if (status) status[0] = 2;
    printf("{\"runs\":%llu,\"ops\":%llu,\"sim_ns\":%lld,\"secs\":%.3f,\"states\":%zu,\"logs\":%zu,\"hash\":%llu,\"replayed\":%llu,\"nondeterministic\":%llu,\"n\":{",
           (unsigned long long)done, (unsigned long long)ops_n, (long long)ns, real_now() - t0, states.size(), logs.size(), (unsigned long long)hash, (unsigned long long)redo, (unsigned long long)det_bad);
    bool fk = true;
    for (auto& kv : n) { printf("%s\"%s\":%llu", fk ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second); fk = false; }
    printf("}");
    if (v.bad()) printf(",\"violation\":{\"seed\":%llu,\"cls\":\"%s\",\"op\":%zu,\"detail\":\"%s\"}", (unsigned long long)vseed, esc(v.cls).c_str(), v.at, esc(v.detail).c_str());
    printf("}\n");
    for (auto p : {std::make_pair("--states", &states), std::make_pair("--logs", &logs)})
      if (a.count(p.first)) { FILE* f = fopen(a[p.first].c_str(), "wb"); if (f) { for (auto h : *p.second) fwrite(&h, 8, 1, f); fclose(f); } }
    return v.bad() ? 1 : 0;
  }
  Config c; std::vector<Op> ops; std::map<std::string, std::string> meta;
  if (cmd == "record") {
    generate((uint64_t)num("--seed", 0), prop, tier, c, ops);
    std::ofstream(a["--out"]) << trace_text(c, ops, meta);
    return 0;
  }
  if (cmd == "shrink" || cmd == "replay") {
    if (!parse_trace(slurp(a["--in"]), c, ops, meta)) return 2;
    if (meta.count("property")) prop = atoi(meta["property"].c_str() + 1);
    if (a.count("--prop")) prop = (int)num("--prop", 1);
  }
  if (cmd == "shrink") {
    Run r = run_child(c, ops, prop, true);
    if (!r.bad()) { printf("not reproduced\n"); return 3; }
    size_t before = ops.size();
    shrink(c, ops, prop, r.cls, (double)num("--budget", 20));
    r = run_child(c, ops, prop, true);
    char id[8]; snprintf(id, sizeof id, "C%02d", prop);
    meta["property"] = id; meta["class"] = r.cls; meta["detail"] = r.detail; meta["log"] = std::to_string(r.log);
    meta["operations"] = std::to_string(ops.size()) + " of " + std::to_string(before);
    std::ofstream(a["--out"]) << trace_text(c, ops, meta);
    printf("%s: %s [%zu of %zu operations]\n", r.cls.c_str(), r.detail.c_str(), ops.size(), before);
    return 0;
  }
  if (cmd == "replay") {
    bool verbose = num("--verbose", 0) != 0;
    Run r = run_child(c, ops, prop, !verbose, verbose);
    printf("%s|%llu|%s (operation %zu)\n", r.cls.c_str(), (unsigned long long)r.log, r.detail.c_str(), r.at);
    return r.bad() ? 1 : 0;
  }
  fprintf(stderr, "usage: run|record|shrink|replay --key value ...\n");
  return 2;
}
} // namespace sim
