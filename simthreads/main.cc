// C18: several sessions under a controlled scheduler. Threads hand a baton over at any basic block or memory access of
// the library (coverage callbacks), or one thread runs other sessions from inside the handlers of a call; what each session
// emits and delivers is compared with what it does alone.
#include "runner.hh"
#include "endpoints.hh"
#include "seams.hh"
#include <cerrno>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <thread>
#include <dlfcn.h>
extern "C" {
#include <gf_complete.h>
int __real_gf_init_easy(gf_t*, int);
int __wrap_gf_init_easy(gf_t*, int);
}

extern "C" char __data_start, _end;
namespace sim {
const bool isolate = true;
const char* delivered_key() { return "blocks.delivered"; }
namespace {
const int MAXS = 5;
std::string bytes(uint64_t salt, size_t n) { Rng r(salt * 131 + 3); std::string s(n, 0); for (auto& c : s) c = (char)r.next(); return s; }

void handler_point(int session);   // a handler of this session was called

struct Session : PacketSink, DataSink {
  int id, w; bool ordered, c_enc, c_dec;
  std::vector<Op> steps; size_t at = 0;
  bool busy = false;
  std::unique_ptr<Enc> enc; std::unique_ptr<Dec> dec;
  struct Out : PacketSink { Session* s = nullptr; std::string cur; std::vector<std::string> all; size_t next = 0; void chunk(const char* p, size_t n) override { cur.append(p, n); handler_point(s->id); } void end() override { s->note("packet", cur); all.push_back(cur); cur.clear(); handler_point(s->id); } } fwd, back;
  std::vector<std::pair<uint64_t, std::string>> log;   // hash after each event, with its description
  uint64_t h = 1469598103934665603ull;
  int64_t mono = 1000000000;
  uint64_t delivered = 0;
  void note(const char* what, const std::string& s) { for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull; h = mix64(h, s.size()); log.push_back({h, std::string(what) + " of " + std::to_string(s.size()) + " bytes in step " + std::to_string(at)}); }
  void num(const char* what, uint64_t v) { h = mix64(h, v + 17); log.push_back({h, std::string(what) + " " + std::to_string(v) + " in step " + std::to_string(at)}); }
  void chunk(const char*, size_t) override {}
  void end() override {}
  void data(const char* p, size_t n) override { ++delivered; note("block", std::string(p, n)); handler_point(id); }
  void make() {
    Err e = E_NONE;
    fwd = Out(); back = Out(); fwd.s = back.s = this;
    enc.reset(); dec.reset();
    enc = c_enc ? make_enc_c(w, fwd, e) : make_enc_cpp(w, fwd, e);
    dec = c_dec ? make_dec_c(w, ordered, back, *this, e) : make_dec_cpp(w, ordered, back, *this, e);
  }
  void step(Run& r) {
    const Op o = steps[at];
    busy = true;
    int64_t saved = seam::mono_ns;
    seam::mono_ns = mono;
    int64_t x = o.a[2], y = o.a[3]; int m = (int)o.a[4];
    auto feed = [&](const std::string& p) { Result q = dec->feed(Bytes(p.begin(), p.end()), m); num("result", q.n * 8 + q.err); };
    switch (o.a[1]) {
      case 0: { std::string b = bytes((uint64_t)y, (size_t)std::max<int64_t>(4, x / 4 * 4)); Result q = enc->submit(Bytes(b.begin(), b.end()), m); num("submitted", q.err); break; }
      case 1: for (int k = 0; k <= x && fwd.next < fwd.all.size(); ++k) feed(std::string(fwd.all[fwd.next++])); break;
      case 2: if (fwd.next < fwd.all.size()) { ++fwd.next; r.n["fault.loss"]++; } break;
      case 3: if (!fwd.all.empty()) { r.n["fault.duplicate_or_late"]++; feed(std::string(fwd.all[(size_t)x % fwd.all.size()])); } break;
      case 4: num("repair", enc->repair().err); break;
      case 5: num("ack", dec->ack().err); break;
      case 6: if (back.next < back.all.size()) { std::string p = back.all[back.next++]; Result q = enc->feed(Bytes(p.begin(), p.end()), m); num("ack result", q.n * 8 + q.err); } break;
      case 7:
        if (y == 0) enc->set_rate((size_t)std::max<int64_t>(1, x)); else if (y == 1) enc->set_window((size_t)std::max<int64_t>(1, x));
        else if (y == 2) enc->set_systematic(x & 1); else if (y == 3) enc->set_adaptive(x & 1); else dec->set_nb((int)std::max<int64_t>(1, x));
        break;
      case 8: mono += x; break;
      case 9: if (!fwd.all.empty()) {
        r.n["fault.damaged_packet"]++;
        std::string p = fwd.all[(size_t)x % fwd.all.size()];
        if (y & 1) p.resize(1 + (size_t)(y / 2) % p.size()); else p[(size_t)(y / 16) % p.size()] ^= (char)(1 << (y / 2 % 8));
        if (p[0] >= 3 || p[0] < 0 || (y & 1)) feed(p);      // only damage that is recognised as such
      } break;
      case 10: make(); num("restart", 0); r.n["fault.restart"]++; break;
      default: break;
    }
    num("window", enc->window());
    auto d = dec->stats(); if (d.has) num("decoded", d.decoded * 65536 + d.missing * 256 + d.useless);
    seam::mono_ns = saved;
    busy = false;
    ++at;
  }
};

std::vector<std::unique_ptr<Session>> build(const Config& c, const std::vector<Op>& ops) {
  std::vector<std::unique_ptr<Session>> v;
  int n = (int)std::max<int64_t>(1, std::min<int64_t>(MAXS, get(c, "sessions")));
  for (int i = 0; i < n; ++i) {
    std::string k = std::to_string(i);
    std::unique_ptr<Session> s(new Session);
    s->id = i; s->w = 4 << (get(c, ("field" + k).c_str()) & 3); s->ordered = get(c, ("ordered" + k).c_str()) != 0;
    s->c_enc = get(c, ("cenc" + k).c_str()) != 0; s->c_dec = get(c, ("cdec" + k).c_str()) != 0;
    for (auto& o : ops) if (o.k == 'S' && o.a[0] == i) s->steps.push_back(o);
    v.push_back(std::move(s));
  }
  return v;
}

// ---- the scheduler ---------------------------------------------------------------------------------
struct Sched {
  bool active = false, nested = false, busy = false;
  std::vector<Op> slices; size_t next = 0;
  int64_t budget = 0, slice = 1000;
  int64_t shared = 0;               // accesses to static storage to wait for before the budget starts running
  uint64_t static_points = 0;
  int cur = -1, n = 0, inside = 0, depth = 0;
  int target = -1;
  bool done[MAXS] = {false};
  sem_t sem[MAXS];
  sem_t main_sem;
  uint64_t switches = 0, points = 0;
  std::vector<std::unique_ptr<Session>>* all = nullptr;
  Run* r = nullptr;
  uint64_t path = 5;
} S;
thread_local int me = -1;

void refill() {
  if (S.next < S.slices.size()) { S.budget = std::max<int64_t>(1, S.slices[S.next].a[0]); S.target = (int)S.slices[S.next].a[1]; S.shared = S.slices[S.next].a[2]; ++S.next; }
  else { S.budget = std::max<int64_t>(100, S.slice); S.target = -1; S.shared = 0; }
}
int choose() {
  int alive = 0;
  for (int i = 0; i < S.n; ++i) if (!S.done[i]) ++alive;
  if (!alive) return -1;
  int k = S.target < 0 ? S.cur + 1 : S.target;
  for (int i = 0; i < S.n; ++i) { int t = (k + i) % S.n; if (!S.done[t]) return t; }
  return -1;
}
void hand_over() {
  S.busy = true;                    // inline functions used here may come from an instrumented object
  int t = choose();
  refill();
  if (t == me) { S.busy = false; return; }
  ++S.switches;
  S.path = mix64(S.path, (uint64_t)t * 1000003 + S.points);
  if (seam::lib_depth) ++S.inside;
  S.cur = t;
  int self = me;
  S.busy = false;
  sem_post(&S.sem[t]);
  while (sem_wait(&S.sem[self]) && errno == EINTR) {}
}
inline void point() {
  if (!S.active || me < 0 || S.nested || S.busy) return;
  ++S.points;
  if (S.shared > 0 || --S.budget > 0) return;
  hand_over();
}
// A memory access of the library: sessions may only meet in static storage, or in what is reached through it.
inline void access_point(uintptr_t a) {
  if (!S.active || me < 0 || S.nested || S.busy) return;
  if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) { ++S.static_points; if (S.shared > 0) --S.shared; }
  point();
}
// Gives the others a chance while this thread cannot go on (lock held elsewhere).
void blocked() {
  if (!S.active || me < 0 || S.nested || S.busy) return;
  S.budget = 0; S.shared = 0; S.target = (me + 1) % S.n;
  hand_over();
}
void handler_point(int session) {
  if (!S.active) return;
  if (!S.nested) { point(); return; }
  if (S.depth > 3 || --S.budget > 0) return;
  int t = S.target < 0 ? session + 1 : S.target;
  refill();
  auto& v = *S.all;
  for (size_t i = 0; i < v.size(); ++i) {
    Session& q = *v[(size_t)(t + (int)i) % v.size()];
    if (q.busy || q.at >= q.steps.size()) continue;
    ++S.depth; ++S.switches; ++S.inside;
    S.path = mix64(S.path, (uint64_t)q.id * 1000003 + q.at);
    q.step(*S.r);
    --S.depth;
    break;
  }
}
void* thread_main(void* p) {
  Session& s = *(Session*)p;
  while (sem_wait(&S.sem[s.id]) && errno == EINTR) {}
  me = s.id;
  s.make();
  while (s.at < s.steps.size()) s.step(*S.r);
  s.num("end", s.delivered);
  s.enc.reset(); s.dec.reset();
  S.done[me] = true;
  me = -1;                          // what this thread does from now on is not scheduled
  int t = choose();
  refill();
  if (t >= 0) { S.cur = t; sem_post(&S.sem[t]); } else sem_post(&S.main_sem);
  return nullptr;
}
}
} // namespace sim

// ---- seams -------------------------------------------------------------------------------------------
extern "C" void __sanitizer_cov_trace_pc() { sim::point(); }
#define ACC(n) extern "C" void __sanitizer_cov_load##n(void* p) { sim::access_point((uintptr_t)p); } extern "C" void __sanitizer_cov_store##n(void* p) { sim::access_point((uintptr_t)p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
extern "C" {
// Function-local statics: only one thread runs at a time, so a plain flag is enough.
int __cxa_guard_acquire(uint64_t* g) {
  auto b = (volatile unsigned char*)g;
  while (!b[0] && b[1]) sim::blocked();
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) { auto b = (volatile unsigned char*)g; b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(uint64_t* g) { ((volatile unsigned char*)g)[1] = 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = nullptr;
  static int (*tr)(pthread_mutex_t*) = nullptr;
  if (!real) { real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); tr = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); }
  if (!sim::S.active || sim::me < 0 || sim::S.nested) return real(m);
  int e;
  while ((e = tr(m)) == EBUSY) sim::blocked();
  return e;
}
// The field library fills the structure it is given word by word, the tables first: other threads may look in between.
int __wrap_gf_init_easy(gf_t* g, int w) {
  gf_t t;
  int r = __real_gf_init_easy(&t, w);
  sim::point();
  if (!r) return r;
  g->scratch = t.scratch;
  for (size_t i = 0; i < sizeof t / sizeof(void*); ++i) { sim::point(); ((void**)g)[i] = ((void**)&t)[i]; }
  sim::point();
  return r;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  auto v = (volatile int*)o;
  while (*v == 1) sim::blocked();
  if (*v == 2) return 0;
  *v = 1;
  try { f(); } catch (...) { *v = 0; throw; }
  *v = 2;
  return 0;
}
}

namespace sim {
void generate(uint64_t seed, int prop, int tier, Config& c, std::vector<Op>& ops) {
  Rng g(mix64(seed, 1818 + (uint64_t)prop));
  int n = (int)g.range(2, g.chance(0.2) ? MAXS : 3);
  c["sessions"] = n; c["nested"] = g.chance(0.25);
  bool same = g.chance(0.6); int64_t f0 = (int64_t)g.below(4);
  for (int i = 0; i < n; ++i) {
    std::string k = std::to_string(i);
    c["field" + k] = same ? f0 : (int64_t)g.below(4); c["ordered" + k] = (int64_t)g.below(2); c["cenc" + k] = g.chance(0.3); c["cdec" + k] = g.chance(0.3);
  }
  int sizes = (int)g.below(4);
  double loss = g.unit() * 0.5;
  int steps = (int)g.range(3, tier ? 150 : 60);
  bool eager = g.chance(0.3);
  for (int i = 0; i < n; ++i) {
    if (!eager) ops.push_back(op('S', i, 7, g.range(1, 5), 0));
    if (g.chance(0.3)) ops.push_back(op('S', i, 7, g.range(1, 12), 1));
    if (g.chance(0.2)) ops.push_back(op('S', i, 7, 0, 2));
    for (int j = 0; j < steps; ++j) {
      int64_t sz = sizes == 0 ? g.range(4, 40) : sizes == 1 ? g.range(4, 1500) : sizes == 2 ? 64 : (g.chance(0.1) ? g.range(3000, 9000) : g.range(4, 200));
      int64_t salt = (int64_t)(seed % 1000000) * 10000 + i * 1000 + j;
      int m = (int)g.below(4);
      double u = g.unit();
      if (u < 0.4) { ops.push_back(op('S', i, 0, sz, salt, m)); ops.push_back(g.chance(loss) ? op('S', i, 2) : op('S', i, 1, 2, 0, (int64_t)g.below(4))); }
      else if (u < 0.6) ops.push_back(op('S', i, 1, (int64_t)g.below(3), 0, m));
      else if (u < 0.65) ops.push_back(op('S', i, 3, (int64_t)g.below(100000), 0, m));
      else if (u < 0.8) { ops.push_back(op('S', i, 4)); if (g.chance(0.6)) ops.push_back(op('S', i, 1, 2, 0, m)); }
      else if (u < 0.86) ops.push_back(op('S', i, 5));
      else if (u < 0.92) ops.push_back(op('S', i, 6, 0, 0, m));
      else if (u < 0.94) ops.push_back(op('S', i, 7, g.range(1, 20), (int64_t)g.below(5)));
      else if (u < 0.96) ops.push_back(op('S', i, 8, g.range(0, 200000000)));
      else if (u < 0.99) ops.push_back(op('S', i, 9, (int64_t)g.below(100000), (int64_t)g.below(1000000), m));
      else ops.push_back(op('S', i, 10));
    }
  }
  static const int64_t means[] = {3, 20, 100, 600, 4000};
  int64_t mean = means[g.below(5)];
  int k = (int)g.range(5, tier ? 2000 : 500);
  if (c["nested"]) mean = g.range(1, 4);
  bool directed = g.chance(0.35);                                  // switch around accesses to static storage
  bool two = g.chance(0.4); int64_t far = g.range(1, 60000);     // a few early switches far into the run, or a uniform mix
  for (int i = 0; i < k; ++i) {
    int64_t b = 1 + (int64_t)g.below((uint64_t)mean * 2);
    if (two && !c["nested"] && g.chance(0.1)) b = 1 + (int64_t)g.below((uint64_t)far);
    if (directed && !c["nested"] && g.chance(0.7)) ops.push_back(op('y', 1 + (int64_t)g.below(g.chance(0.5) ? 2 : 40), (int64_t)g.below((uint64_t)n), 1 + (int64_t)g.below(12)));
    else ops.push_back(op('y', b, (int64_t)g.below((uint64_t)n)));
  }
  c["slice"] = c["nested"] ? g.range(1, 6) : g.range(200, 20000);
}

void execute(const Config& c, const std::vector<Op>& ops, int prop, Run& r) {
  (void)prop;
  r.ops = ops.size();
  seam::wall_ns = 1700000000000000000ll;
  seam::yield_hook = [](seam::Yield) { point(); };
  auto together = build(c, ops);
  S.nested = get(c, "nested") != 0; S.slice = std::max<int64_t>(1, get(c, "slice")); S.n = (int)together.size(); S.all = &together; S.r = &r;
  for (auto& o : ops) if (o.k == 'y') S.slices.push_back(o);
  if (S.nested) {
    refill(); if (!S.slices.empty()) S.target = (int)S.slices[0].a[1];
    S.active = true;
    if (S.budget > 50) S.budget = 1;
    for (auto& s : together) s->make();
    for (bool more = true; more;) { more = false; for (auto& s : together) if (s->at < s->steps.size()) { s->step(r); more = true; } }
    S.active = false;
    for (auto& s : together) { s->num("end", s->delivered); s->enc.reset(); s->dec.reset(); }
    r.n["probe.nested_inside_handler"] += (uint64_t)S.inside;
  } else {
    sem_init(&S.main_sem, 0, 0);
    pthread_t th[MAXS];
    for (int i = 0; i < S.n; ++i) sem_init(&S.sem[i], 0, 0);
    for (int i = 0; i < S.n; ++i) if (pthread_create(&th[i], nullptr, thread_main, together[(size_t)i].get())) { r.fail("harness", "pthread_create"); return; }
    refill();
    S.cur = 0;
    S.active = true;
    sem_post(&S.sem[0]);
    while (sem_wait(&S.main_sem) && errno == EINTR) {}
    S.active = false;
    for (int i = 0; i < S.n; ++i) pthread_join(th[i], nullptr);
    r.n["probe.switch_inside_library"] += (uint64_t)S.inside;
  }
  r.n["fault.context_switch"] += S.switches;
  r.n["schedule.points"] += S.points;
  r.n["schedule.static_storage_accesses"] += S.static_points;
  r.n[S.nested ? "mode.nested" : "mode.threads"]++;
  r.states.insert(S.path);
  // The same sessions, one after the other.
  auto alone = build(c, ops);
  Run scratch;
  for (size_t i = 0; i < alone.size(); ++i) {
    Session& a = *alone[i]; Session& t = *together[i];
    a.make();
    while (a.at < a.steps.size()) a.step(scratch);
    a.num("end", a.delivered);
    a.enc.reset(); a.dec.reset();
    r.n["blocks.delivered"] += a.delivered;
    r.sim_ns += a.mono - 1000000000;
    r.note(t.h); r.note(t.log.size());
    for (size_t k = 0; k < std::max(a.log.size(), t.log.size()) && !r.bad(); ++k) {
      if (k >= a.log.size() || k >= t.log.size()) { r.fail("interference", "session " + std::to_string(i) + ": " + std::to_string(t.log.size()) + " events when interleaved, " + std::to_string(a.log.size()) + " alone"); break; }
      if (a.log[k].first != t.log[k].first) { r.at = k; r.fail("interference", "session " + std::to_string(i) + ": " + t.log[k].second + " when interleaved, " + a.log[k].second + " with another content or value alone"); }
    }
    if (r.bad()) return;
  }
  r.note(S.path);
}
}
int main(int argc, char** argv) { return sim::main_loop(argc, argv); }
