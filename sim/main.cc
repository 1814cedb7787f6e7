// Runner: seed ranges, recording, replay, minimisation.
#include "world.hh"
#include "seams.hh"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <unordered_set>

namespace sim { void drive_rec(World& w, uint64_t seed, int prop, int tier, std::vector<Op>& ops, std::function<void(const Op&)> rec); }
using namespace sim;

namespace {
int cpu_limit = 40;
void on_alarm(int) { static const char m[] = "SIM-FATAL hang: CPU limit of one run exceeded\n"; (void)!write(2, m, sizeof m - 1); _exit(78); }
void arm_watchdog(int s) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = s; setitimer(ITIMER_VIRTUAL, &t, nullptr); }

struct Outcome { Violation v; uint64_t log = 0, state = 0; };

Outcome run_ops(const Config& c, const std::vector<Op>& ops, int prop, Stats& st, bool verbose = false) {
  Outcome o;
  World w(c, prop, st);
  w.keep_log = verbose;
  size_t shown = 0;
  for (auto& op : ops) {
    if (verbose) printf("%s\n", op.text().c_str());
    w.exec(op);
    if (verbose) { for (; shown < w.logtext.size(); ++shown) printf("    %s\n", w.logtext[shown].c_str());
      for (size_t i = 0; i < w.flows.size(); ++i) { DecStats d = w.flows[i]->dec->stats(); auto& m = w.flows[i]->rx;
        if (d.has) printf("    flow %zu: decoded %zu missing %zu failed %zu useless %zu | model: decoded %llu missing %zu pending %zu dependent %llu oldest %u\n", i, (size_t)d.decoded, (size_t)d.missing, (size_t)d.failed, (size_t)d.useless, (unsigned long long)m.nb_known_decoded, m.missing(), m.eqs.size(), (unsigned long long)m.dependent, m.L); }
      fflush(stdout); }
    if (w.bad()) break;
  }
  w.finish();
  o.v = w.v; o.log = w.log;
  return o;
}
Outcome run_seed(uint64_t seed, int prop, int tier, Stats& st, std::vector<Op>& ops, Config& c, std::unordered_set<uint64_t>* states, FILE* rec = nullptr) {
  Outcome o;
  c = Config{};
  generate(seed, prop, tier, c);
  if (rec) { std::map<std::string, std::string> m; fprintf(rec, "%s", trace_text(c, {}, m).c_str()); fflush(rec); }
  World w(c, prop, st);
  uint64_t path = 0;
  (void)states;
  auto cb = [&](const Op& op) { if (rec) { fprintf(rec, "%s\n", op.text().c_str()); fflush(rec); } if (states) { uint64_t h = w.state_hash(); path = path * 1099511628211ull + h; states->insert(h); } };
  drive_rec(w, seed, prop, tier, ops, cb);
  if (states) { o.state = path; }
  w.finish();
  o.v = w.v; o.log = w.log;
  return o;
}
std::string slurp(const char* p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

// Runs a candidate in a child; the result is its failure class ("" = no failure).
std::string classify(const Config& c, const std::vector<Op>& ops, int prop, std::string* detail = nullptr, uint64_t* log = nullptr) {
  int fd[2];
  if (pipe(fd)) return "";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1); dup2(dn, 2);
    arm_watchdog(cpu_limit);
    Stats st;
    Outcome o = run_ops(c, ops, prop, st);
    std::string s = o.v.prop ? o.v.cls + "\n" + std::to_string(o.v.op) + "\n" + o.v.detail : "";
    s = std::to_string(o.log) + "\n" + s;
    (void)!write(fd[1], s.data(), s.size());
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
  close(fd[0]);
  int stt = 0;
  waitpid(pid, &stt, 0);
  if (WIFSIGNALED(stt)) { if (detail) *detail = "killed by signal " + std::to_string(WTERMSIG(stt)); return "crash"; }
  if (WEXITSTATUS(stt) == 78) { if (detail) *detail = "CPU limit exceeded"; return "hang"; }
  if (WEXITSTATUS(stt) != 0) { if (detail) *detail = "exit status " + std::to_string(WEXITSTATUS(stt)) + " (memory error)"; return "crash"; }
  std::istringstream in(s);
  std::string l, cls, op;
  std::getline(in, l);
  if (log) *log = strtoull(l.c_str(), nullptr, 10);
  if (!std::getline(in, cls)) return "";
  std::getline(in, op);
  std::getline(in, l);
  if (detail) *detail = l + " (operation " + op + ")";
  return cls;
}

void shrink(Config& c, std::vector<Op>& ops, int prop, const std::string& cls, double budget) {
  double end = seam::real_now() + budget;
  auto bad = [&](const Config& cc, const std::vector<Op>& v) { return classify(cc, v, prop) == cls; };
  auto pass = [&] {
    bool any = false;
    size_t n = 2;
    while (ops.size() >= 2 && seam::real_now() < end) {
      size_t chunk = std::max<size_t>(1, ops.size() / n);
      bool red = false;
      for (size_t i = 0; i < ops.size() && seam::real_now() < end;) {
        std::vector<Op> t(ops.begin(), ops.begin() + (long)i);
        size_t e = std::min(ops.size(), i + chunk);
        t.insert(t.end(), ops.begin() + (long)e, ops.end());
        if (!t.empty() && bad(c, t)) { ops.swap(t); red = any = true; } else i = e;
      }
      if (!red) { if (chunk == 1) break; n = std::min(n * 2, ops.size()); }
    }
    return any;
  };
  pass();
  // drop whole submissions together with the link indexes that follow
  for (int round = 0; round < 3 && seam::real_now() < end; ++round) {
    bool any = false;
    for (size_t i = 0; i < ops.size() && seam::real_now() < end; ++i) {
      if (ops[i].k != 'S' && ops[i].k != 'R' && ops[i].k != 'K') continue;
      for (int by = 1; by <= 2; ++by) {
        std::vector<Op> t;
        int dir = ops[i].k == 'K';
        for (size_t j = 0; j < ops.size(); ++j) {
          if (j == i) continue;
          Op o = ops[j];
          if (j > i && strchr("DTXPW", o.k) && o.a[0] == ops[i].a[0] && (o.a[1] & 1) == dir) o.a[2] -= by;
          t.push_back(o);
        }
        if (bad(c, t)) { ops.swap(t); any = true; --i; break; }
      }
    }
    // simpler arguments
    for (size_t i = 0; i < ops.size() && seam::real_now() < end; ++i) {
      if (ops[i].k == 'S') {
        for (int64_t s : {4, 8, 16}) if (ops[i].a[1] > s) { auto t = ops; t[i].a[1] = s; t[i].a[2] = 0; t[i].a[4] = 0; if (bad(c, t)) { ops = t; any = true; break; } }
      } else if (ops[i].k == 'D' && ops[i].a[3]) { auto t = ops; t[i].a[3] = 0; if (bad(c, t)) { ops = t; any = true; } }
    }
    for (size_t f = 0; f < c.flows.size() && seam::real_now() < end; ++f) {
      FlowCfg d;
      auto attempt = [&](std::function<void(FlowCfg&)> g) { Config t = c; g(t.flows[f]); if (t.text() != c.text() && bad(t, ops)) { c = t; any = true; } };
      attempt([](FlowCfg& x) { x.window = 0; });
      attempt([](FlowCfg& x) { x.handler_ns = 0; });
      attempt([](FlowCfg& x) { x.adaptive = 0; });
      attempt([](FlowCfg& x) { x.rate = 1000000; });
      attempt([](FlowCfg& x) { x.period = 0; });
      attempt([](FlowCfg& x) { x.nb = 128; });
      attempt([](FlowCfg& x) { x.enc_kind = x.enc_kind == 1 ? 0 : x.enc_kind; x.dec_kind = x.dec_kind == 1 ? 0 : x.dec_kind; });
    }
    while (c.flows.size() > 1 && seam::real_now() < end) { Config t = c; t.flows.pop_back(); if (bad(t, ops)) { c = t; any = true; } else break; }
    if (pass()) any = true;
    if (!any) break;
  }
}

std::string esc(const std::string& s) {
  std::string o;
  for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else o += ch; }
  return o;
}
}

int main(int argc, char** argv) {
  // Same addresses on every execution, when the system allows it.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    setenv("SIM_NO_REEXEC", "1", 1);
    if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, int64_t d) { return a.count(k) ? strtoll(a[k].c_str(), nullptr, 0) : d; };
  signal(SIGVTALRM, on_alarm);
  cpu_limit = (int)num("--cpu", 40);
  int prop = (int)num("--prop", 1), tier = (int)num("--tier", 0);

  if (cmd == "run") {
    // seeds first, first+stride, ... (count of them), until the deadline
    uint64_t first = (uint64_t)num("--first", 0), stride = (uint64_t)num("--stride", 1), count = (uint64_t)num("--count", 100);
    double secs = (double)num("--secs", 1000000), t0 = seam::real_now();
    volatile uint64_t* status = nullptr;
    if (a.count("--status")) {
      int fd = open(a["--status"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0 && ftruncate(fd, 4096) == 0) status = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    Stats st;
    std::unordered_set<uint64_t> states, logs;
    auto faults_of = [](const Stats& x) { uint64_t k = 0; for (auto& kv : x.n) if (kv.first.compare(0, 6, "fault.") == 0) k += kv.second; return k; };
    auto delivered_of = [](const Stats& x) { auto it = x.n.find("blocks.delivered"); return it == x.n.end() ? (uint64_t)0 : it->second; };
    uint64_t done = 0, xorlog = 0, redo = 0;
    Violation v; uint64_t vseed = 0;
    uint64_t det_bad = 0;
    for (uint64_t i = 0; i < count; ++i) {
      if (i && seam::real_now() - t0 > secs) break;
      uint64_t seed = first + i * stride;
      if (status) { status[0] = 1; status[1] = seed; status[2] = done; }
      arm_watchdog(cpu_limit);
      std::vector<Op> ops; Config c;
      Stats one;
      Outcome o = run_seed(seed, prop, tier, one, ops, c, &states);
      st.add(one);
      ++done;
      if (faults_of(one) && delivered_of(one)) logs.insert(o.log);
      xorlog ^= mix64(o.log, seed);
      if (o.v.prop) { v = o.v; vseed = seed; break; }
      // determinism: the recorded schedule alone must reproduce the run
      if (i % 64 == 0 && seed % 1500 != 3) {
        Stats dummy;
        Outcome p = run_ops(c, ops, prop, dummy);
        ++redo;
        if (p.log != o.log || p.v.prop) { ++det_bad; fprintf(stderr, "nondeterminism: seed %llu\n", (unsigned long long)seed); }
      }
    }
    arm_watchdog(0);
    if (status) status[0] = 2;
    printf("{\"runs\":%llu,\"ops\":%llu,\"sim_ns\":%lld,\"secs\":%.3f,\"states\":%zu,\"logs\":%zu,\"hash\":%llu,\"replayed\":%llu,\"nondeterministic\":%llu,\"n\":{",
           (unsigned long long)done, (unsigned long long)st.ops, (long long)st.sim_ns, seam::real_now() - t0, states.size(), logs.size(), (unsigned long long)xorlog, (unsigned long long)redo, (unsigned long long)det_bad);
    bool firstk = true;
    for (auto& kv : st.n) { printf("%s\"%s\":%llu", firstk ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second); firstk = false; }
    printf("}");
    if (v.prop) printf(",\"violation\":{\"seed\":%llu,\"cls\":\"%s\",\"op\":%zu,\"detail\":\"%s\"}", (unsigned long long)vseed, esc(v.cls).c_str(), v.op, esc(v.detail).c_str());
    printf("}\n");
    if (a.count("--states")) { FILE* f = fopen(a["--states"].c_str(), "wb"); if (f) { for (auto h : states) fwrite(&h, 8, 1, f); fclose(f); } }
    if (a.count("--logs")) { FILE* f = fopen(a["--logs"].c_str(), "wb"); if (f) { for (auto h : logs) fwrite(&h, 8, 1, f); fclose(f); } }
    return v.prop ? 1 : 0;
  }
  if (cmd == "record") { // writes the schedule as it is executed, so that a crash leaves it complete
    FILE* f = fopen(a["--out"].c_str(), "w");
    if (!f) return 2;
    arm_watchdog(cpu_limit);
    Stats st; std::vector<Op> ops; Config c;
    Outcome o = run_seed((uint64_t)num("--seed", 0), prop, tier, st, ops, c, nullptr, f);
    fclose(f);
    printf("log %llu %s %s\n", (unsigned long long)o.log, o.v.prop ? o.v.cls.c_str() : "-", o.v.detail.c_str());
    return 0;
  }
  if (cmd == "shrink") {
    Config c; std::vector<Op> ops; std::map<std::string, std::string> meta;
    if (!parse_trace(slurp(a["--in"].c_str()), c, ops, meta)) return 2;
    std::string detail;
    std::string cls = classify(c, ops, prop, &detail);
    if (cls.empty()) { printf("not reproduced\n"); return 3; }
    size_t before = ops.size();
    shrink(c, ops, prop, cls, (double)num("--budget", 20));
    uint64_t log = 0;
    cls = classify(c, ops, prop, &detail, &log);
    char id[8]; snprintf(id, sizeof id, "C%02d", prop);
    meta["property"] = id; meta["class"] = cls; meta["detail"] = detail; meta["log"] = std::to_string(log);
    meta["operations"] = std::to_string(ops.size()) + " of " + std::to_string(before);
    std::ofstream(a["--out"].c_str()) << trace_text(c, ops, meta);
    printf("%s: %s [%zu of %zu operations]\n", cls.c_str(), detail.c_str(), ops.size(), before);
    return 0;
  }
  if (cmd == "replay") { // exit 0: no failure, 1: failure
    Config c; std::vector<Op> ops; std::map<std::string, std::string> meta;
    if (!parse_trace(slurp(a["--in"].c_str()), c, ops, meta)) return 2;
    if (meta.count("property")) prop = atoi(meta["property"].c_str() + 1);
    if (a.count("--prop")) prop = (int)num("--prop", 1);
    if (num("--verbose", 0)) {
      Stats st;
      arm_watchdog(cpu_limit);
      Outcome o = run_ops(c, ops, prop, st, true);
      printf("log %llu\n%s %s\n", (unsigned long long)o.log, o.v.prop ? o.v.cls.c_str() : "no violation", o.v.detail.c_str());
      return o.v.prop ? 1 : 0;
    }
    std::string detail; uint64_t log = 0;
    std::string cls = classify(c, ops, prop, &detail, &log);
    printf("%s|%llu|%s\n", cls.c_str(), (unsigned long long)log, detail.c_str());
    return cls.empty() ? 0 : 1;
  }
  fprintf(stderr, "usage: sim run|record|shrink|replay --key value ...\n");
  return 2;
}
