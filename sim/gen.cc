// Seeded generator: swarm configuration per run, then a discrete-event network that decides every delivery and fault.
// It produces a concrete list of primitive operations, which is the replayable schedule.
#include "world.hh"
#include "seams.hh"
#include <algorithm>
#include <queue>

namespace sim {
namespace {
const int WS[] = {4, 8, 8, 8, 16, 32};

struct Prof {
  double loss[2] = {0, 0};        // per direction
  double burst_in = 0, burst_out = 0.3;
  double dup[2] = {0, 0};
  int dup_max = 1;
  int64_t delay = 1000000, jitter = 0;
  double late = 0;                // replays of arbitrary old datagrams
  double part = 0;                // chance per submission that a partition starts
  double trunc = 0, corrupt = 0, garbage = 0, pad = 0, misroute = 0;
  double jump = 0, stall = 0;
  double reconf = 0, force_rep = 0, force_ack = 0, maybe = 0;
  double alloc = 0, hthrow = 0, ctor = 0;
  double restart = 0;
  double drain = 0;
  int64_t gap = 2000000;          // time between submissions
  int nsub = 60;
  int64_t size_max = 40;
  double big = 0;                 // chance of a large block
  int style = 0;
  double src_loss = -1;           // extra loss for sources only
  int mode_feed = 0;              // random packet construction modes
  bool final_drain = true;
};

struct Ev { int64_t t; uint64_t seq; int kind; int f, dir; int64_t idx; };
struct Later { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };

Prof profile(Rng& r, int prop, int tier) {
  Prof p;
  auto some = [&](double q, double lo, double hi) { return r.chance(q) ? lo + r.unit() * (hi - lo) : 0.0; };
  p.loss[0] = some(0.85, 0.02, 0.5);
  p.loss[1] = some(0.6, 0.02, 0.7);
  if (r.chance(0.15)) p.loss[1] = 1.0;
  p.burst_in = some(0.3, 0.01, 0.1);
  p.burst_out = 0.1 + r.unit() * 0.5;
  p.dup[0] = some(0.5, 0.02, 0.4);
  p.dup[1] = some(0.4, 0.02, 0.4);
  p.dup_max = (int)r.range(1, 3);
  p.delay = r.range(0, 30) * 1000000;
  p.jitter = r.chance(0.7) ? r.range(0, 60) * 500000 : 0;
  p.late = some(0.4, 0.01, 0.15);
  p.part = some(0.3, 0.005, 0.05);
  p.jump = some(0.3, 0.005, 0.05);
  p.stall = some(0.25, 0.005, 0.05);
  p.reconf = some(0.5, 0.005, 0.08);
  p.force_rep = some(0.6, 0.02, 0.5);
  p.force_ack = some(0.5, 0.02, 0.3);
  p.maybe = some(0.3, 0.02, 0.2);
  p.drain = some(0.3, 0.005, 0.02);
  p.gap = r.range(1, 40) * 500000;
  p.nsub = (int)(r.chance(0.5) ? r.range(4, 30) : r.chance(0.8) ? r.range(30, 90) : r.range(90, tier ? 400 : 180));
  int sz = (int)r.below(10);
  p.size_max = sz < 3 ? r.range(1, 8) : sz < 8 ? r.range(8, 80) : r.range(80, 1500);
  p.big = some(0.08, 0.01, 0.06);
  p.style = (int)r.below(7);
  p.src_loss = r.chance(0.4) ? 0.2 + 0.6 * r.unit() : -1;
  p.mode_feed = r.chance(0.5);
  switch (prop) {
    case 1: if (r.chance(0.25)) p.restart = 0.02; break;
    case 2: p.dup[0] = 0.1 + 0.5 * r.unit(); p.late = 0.05 + 0.2 * r.unit(); p.dup_max = (int)r.range(1, 4); break;
    case 3: p.jitter = r.range(1, 80) * 1000000; break;
    case 5: p.src_loss = 0.1 + 0.7 * r.unit(); p.force_rep = 0.1 + 0.5 * r.unit(); p.jitter = r.range(0, 80) * 1000000; break;
    case 6: p.part = some(0.6, 0.01, 0.1); p.drain = some(0.6, 0.01, 0.04); break;
    case 7: p.force_ack = 0.1 + 0.5 * r.unit(); break;
    case 8: p.dup[1] = 0.5 * r.unit(); p.loss[1] = r.unit(); p.jitter = r.range(1, 80) * 1000000; p.reconf = some(0.7, 0.02, 0.15); p.force_ack = 0.5 * r.unit(); break;
    case 9: p.reconf = some(0.8, 0.02, 0.2); p.force_rep = 0.5 * r.unit(); break;
    case 11: p.jump = some(0.7, 0.02, 0.2); p.stall = some(0.6, 0.02, 0.2); p.reconf = some(0.7, 0.02, 0.15); p.maybe = some(0.5, 0.02, 0.3); p.gap = r.range(1, 60) * 777777; break;
    case 12: p.loss[0] = some(0.9, 0.005, 0.9); p.loss[1] = some(0.4, 0.02, 0.5); p.dup[0] = some(0.5, 0.05, 0.8); p.dup[1] = some(0.5, 0.05, 0.5); p.force_ack = some(0.8, 0.02, 0.3); break;
    case 13: p.trunc = some(0.8, 0.02, 0.3); p.corrupt = some(0.35, 0.02, 0.3); p.garbage = some(0.5, 0.02, 0.3); break;
    case 14: p.misroute = some(0.8, 0.02, 0.2); p.pad = some(0.8, 0.02, 0.4); p.garbage = some(0.2, 0.01, 0.05); p.trunc = some(0.2, 0.01, 0.05); break;
    case 15: p.trunc = some(0.4, 0.02, 0.1); p.garbage = some(0.2, 0.02, 0.1); p.misroute = some(0.4, 0.02, 0.1); p.pad = some(0.3, 0.02, 0.1); p.mode_feed = 1; break;
    case 16: p.alloc = 0.05 + 0.3 * r.unit(); p.ctor = some(0.4, 0.02, 0.1); p.nsub = (int)std::min<int64_t>(p.nsub, 80); break;
    case 17: p.hthrow = 0.03 + 0.25 * r.unit(); p.nsub = (int)std::min<int64_t>(p.nsub, 80); break;
    case 20: p.trunc = some(0.2, 0.01, 0.05); if (r.chance(0.2)) p.hthrow = 0.01 + 0.1 * r.unit(); break;
    case 23: p.mode_feed = 1; p.pad = some(0.3, 0.02, 0.2); p.trunc = some(0.2, 0.01, 0.05); if (r.chance(0.2)) p.restart = 0.02; break;
    default: break;
  }
  return p;
}
}

static bool outage_seed(uint64_t seed) { return seed % 2400 == 11; }

// a period nobody will live to see: beyond what 64 bits of nanoseconds hold
static int64_t forever(Rng& r) {
  return r.chance(0.4) ? INT64_MAX : r.chance(0.3) ? 18446744073710ll + r.range(0, 30) : r.range(9223372036855ll, INT64_MAX / 2);
}

void generate(uint64_t seed, int prop, int tier, Config& c) {
  Rng r(mix64(seed, 0xC0FF));
  c.seed = seed;
  int pairs = r.chance(0.75) ? 1 : 2;       // a flow pair is a duplex session
  bool duplex = r.chance(0.5) || prop == 14;
  int n = pairs == 2 ? 4 : duplex ? 2 : 1;
  if (prop == 15 || prop == 12) n = r.chance(0.8) ? 1 : 2;
  for (int i = 0; i < n; ++i) {
    FlowCfg f;
    f.w = r.pick(WS);
    if (prop == 5 || prop == 6) f.w = r.chance(0.45) ? 4 : r.pick(WS);
    f.in_order = prop == 3 ? r.chance(0.97) : r.chance(0.55);
    f.sys = r.chance(0.75);
    f.rate = r.chance(0.7) ? r.range(1, 8) : r.chance(0.5) ? r.range(9, 60) : 1000000;
    f.window = r.chance(0.45) ? 0 : r.chance(0.7) ? r.range(1, 12) : r.range(12, 60);
    f.adaptive = prop == 12 ? r.chance(0.85) : r.chance(0.2);
    f.period = r.chance(0.15) ? 0 : r.chance(0.5) ? r.range(1, 40) : r.range(40, 500);
    if (r.chance(0.12)) f.rate = 5;          // the defaults
    if (r.chance(0.12)) f.period = 100;
    // settings beyond 16 and 32 bits: what a narrowing on the way in would turn into a small value
    auto wide = [&](int64_t low) { return (r.chance(0.6) ? 65536ll * r.range(1, 3) : 4294967296ll) + low; };
    double wp = prop == 15 ? 0.25 : 0.04;
    if (r.chance(wp)) f.period = wide(r.range(1, 40));
    if (r.chance(prop == 11 ? 0.05 : 0.01)) f.period = forever(r);
    if (r.chance(wp)) f.rate = wide(r.range(1, 8));
    if (r.chance(wp)) f.window = wide(r.range(1, 12));
    f.nb = (int)(r.chance(0.5) ? r.range(1, 12) : r.chance(0.6) ? r.range(12, 60) : r.range(60, 200));
    if (r.chance(0.12)) f.nb = 50;
    if (prop == 7 && r.chance(0.3)) f.nb = (int)r.range(1, 3);
    f.enc_kind = r.chance(0.7) ? 0 : 1;
    f.dec_kind = r.chance(0.7) ? 0 : 1;
    if (prop == 20 || prop == 11 || prop == 12 || prop == 17) { f.enc_kind = r.chance(0.93) ? 0 : 1; f.dec_kind = r.chance(0.93) ? 0 : 1; }
    if (prop == 10) { int k = (int)r.below(3); if (k == 1) { f.enc_kind = 2; f.splits = r.chance(0.7); if (r.chance(0.5)) f.rid0 = r.chance(0.5) ? r.range(200, 140000) : r.range(0, 0xF0000000ll); } if (k == 2) { f.dec_kind = 2; f.splits = r.chance(0.7); } }
    // far into a session: the sender's ids are around 16, 24, 31 bits, or anywhere
    bool far = prop == 10 ? f.enc_kind == 2 && r.chance(0.35) : (prop <= 7 || prop == 11 || prop == 20) && r.chance(0.05);
    if (far && seed % 1500 != 3 && !outage_seed(seed)) {
      f.enc_kind = 2; f.splits = r.chance(0.3);
      int64_t base = r.chance(0.2) ? 65536 : r.chance(0.25) ? 16777216 : r.chance(0.5) ? 2147483648ll : r.range(65536, 0xFFF00000ll);
      f.sid0 = base - r.range(0, 40);
    }
    if (prop == 14) { f.dispatch = r.chance(0.75); f.enc_kind = f.dec_kind = r.chance(0.85) ? 0 : 1; }
    if (prop == 13) f.dispatch = r.chance(0.2);
    if (prop == 15) { f.twin = 1; f.enc_kind = f.dec_kind = (int)r.below(2); }
    f.handler_ns = r.chance(prop == 11 ? 0.5 : 0.15) ? r.range(1, 30) * 1000000 : 0;
    if (outage_seed(seed) && f.w < 16) f.w = 16;
    c.flows.push_back(f);
  }
  // a relay: what flow 0 delivers is submitted on flow 2 from inside the handler
  if (n == 4 && prop != 15 && prop != 13 && prop != 16 && prop != 17 && r.chance(0.4) && seed % 1500 != 3) {
    c.flows[0].relay = 2; c.flows[2].relay = -1;
  }
}

namespace {
struct Driver {
  World& w; Rng r; Prof p; std::vector<Op>& ops; int prop, tier;
  std::priority_queue<Ev, std::vector<Ev>, Later> q;
  uint64_t seq = 0;
  int64_t now = 0;
  std::vector<size_t> seen[2];
  std::vector<uint8_t> bad_[2];       // burst state
  std::vector<int64_t> cut[2];        // partition end
  std::function<void(const Op&)> rec;
  Driver(World& w_, uint64_t seed, int prop_, int tier_, std::vector<Op>& o) : w(w_), r(mix64(seed, 0xD01E)), ops(o), prop(prop_), tier(tier_) { p = profile(r, prop, tier); }

  void go(char k, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0, int64_t e = 0) {
    Op o; o.k = k; o.a[0] = a; o.a[1] = b; o.a[2] = c; o.a[3] = d; o.a[4] = e;
    ops.push_back(o);
    if (rec) rec(o);
    w.exec(o);
    scan();
  }
  int feed_mode() { return p.mode_feed ? (int)r.below(FEED_MODES) : 0; }
  void faults() {
    if (p.alloc && r.chance(p.alloc)) { int64_t k = r.chance(0.7) ? r.range(1, 6) : r.range(1, 30); rawop('F', k); }
    else if (p.hthrow && r.chance(p.hthrow)) rawop('H', (int64_t)r.below(w.flows.size()), (int64_t)r.below(3), r.chance(0.6) ? r.range(1, 3) : r.range(1, 12));
  }
  void rawop(char k, int64_t a = 0, int64_t b = 0, int64_t c = 0) {
    Op o; o.k = k; o.a[0] = a; o.a[1] = b; o.a[2] = c;
    ops.push_back(o);
    if (rec) rec(o);
    w.exec(o);
  }
  // schedule what was emitted since the last look
  void scan() {
    for (size_t f = 0; f < w.flows.size(); ++f)
      for (int d = 0; d < 2; ++d) {
        auto& L = w.flows[f]->link[d];
        for (size_t i = seen[d][f]; i < L.size(); ++i) {
          if (L[i].empty()) continue;
          if (p.burst_in) { if (bad_[d][f]) { if (r.chance(p.burst_out)) bad_[d][f] = 0; } else if (r.chance(p.burst_in)) bad_[d][f] = 1; }
          bool lost = r.chance(p.loss[d]) || bad_[d][f] || cut[d][f] > now;
          if (!lost && d == 0 && p.src_loss > 0 && L[i][0] == 2) lost = r.chance(p.src_loss);
          if (lost) { ++w.st.n["fault.loss"]; if (cut[d][f] > now) ++w.st.n["fault.partitioned"]; continue; }
          int copies = 1;
          if (r.chance(p.dup[d])) { copies += (int)r.range(1, p.dup_max); w.st.n["fault.duplicate"] += (uint64_t)copies - 1; }
          for (int k = 0; k < copies; ++k) {
            int64_t t = now + p.delay + (p.jitter ? r.range(0, p.jitter) : 0);
            if (p.jitter && r.chance(0.05)) t += p.jitter * r.range(1, 10);
            q.push(Ev{t, seq++, 1, (int)f, d, (int64_t)i});
          }
        }
        seen[d][f] = L.size();
      }
  }
  void advance(int64_t t) {
    if (t > now) { int64_t d = t - now; now = t; go('A', d); }
  }
  void submit(int f) {
    int64_t size = r.range(1, p.size_max);
    if (p.big && r.chance(p.big * 0.5)) size = std::min<int64_t>(65535, std::max<int64_t>(1, (1ll << r.range(7, 16)) * (r.chance(0.7) ? 1 : r.range(1, 3)) + r.range(-17, 17))); // around powers of two
    else if (p.big && r.chance(p.big)) size = r.chance(0.3) ? (r.chance(0.4) ? r.range(65500, 65535) : r.range(20000, 65000)) : r.range(1000, 9000);
    faults();
    go('S', f, size, p.style >= 5 ? (int64_t)r.below(5) : p.style, (int64_t)(r.next() >> 20), r.chance(0.3) ? (int64_t)r.below(SUBMIT_MODES) : 0);
  }
  void reconfigure(int f) {
    int what = (int)r.below(6);
    int64_t v = 0;
    switch (what) {
      case 0: v = r.chance(0.8) ? r.range(1, 10) : r.range(10, 100); break;
      case 1: v = r.chance(0.7) ? r.range(1, 10) : r.range(10, 80); break;
      case 2: case 3: v = (int64_t)r.below(2); break;
      case 4: v = r.chance(0.2) ? 0 : r.range(1, 200); break;
      case 5: v = r.chance(0.7) ? r.range(1, 20) : r.range(20, 400); break;
    }
    if ((what == 0 || what == 1 || what == 4) && r.chance(prop == 15 ? 0.2 : 0.05)) v += r.chance(0.6) ? 65536 * r.range(1, 3) : 4294967296ll;
    if (what == 4 && r.chance(0.05)) v = forever(r);
    go('C', f, what, v);
  }
  void mischief() {
    int f = (int)r.below(w.flows.size());
    if (r.chance(p.reconf)) reconfigure(f);
    if (r.chance(p.force_rep)) { faults(); go('R', f); }
    if (r.chance(p.force_ack)) { faults(); go('K', f); }
    if (r.chance(p.maybe)) { faults(); go('M', f); }
    if (r.chance(p.jump)) { int64_t j = r.chance(0.5) ? r.range(-3600, 3600) * 1000000000ll : r.range(-400, 400) * 1000000; go('J', j); }
    if (r.chance(p.stall)) { int64_t d = r.chance(0.02) ? r.range(20, 130) * 86400000000000ll : r.chance(0.06) ? r.range(60000, 5000000) * 1000000 : r.range(1, 600) * 1000000; now += d; go('A', d); ++w.st.n["fault.stall"]; }
    if (r.chance(p.part)) { int d = (int)r.below(3); int64_t e = now + p.gap * r.range(2, 30); if (d != 1) cut[0][f] = e; if (d != 0) cut[1][f] = e; ++w.st.n["fault.partition"]; }
    if (r.chance(p.late)) {
      int d = (int)r.below(2);
      auto& L = w.flows[f]->link[d];
      if (!L.empty()) { ++w.st.n["fault.late_replay"]; faults(); go('D', f, d, (int64_t)r.below(L.size()), feed_mode()); }
    }
    if (r.chance(p.restart)) go('V', f);
    if (r.chance(p.ctor)) { static const int ws[] = {4, 8, 16, 32}; rawop('N', (int64_t)r.below(4), r.pick(ws), r.range(1, 12)); }
    if (r.chance(p.garbage)) go('G', f, (int64_t)r.below(2), r.chance(0.7) ? r.range(1, 40) : r.range(1, 400), (int64_t)(r.next() >> 20), feed_mode());
    if (r.chance(p.drain)) { go('Z', f); seen[0][f] = w.flows[f]->link[0].size(); seen[1][f] = w.flows[f]->link[1].size(); }
  }
  void deliver(const Ev& e) {
    if (r.chance(p.trunc)) { auto n = (int64_t)w.flows[e.f]->link[e.dir][e.idx].size(); go('T', e.f, e.dir, e.idx, r.chance(0.3) ? n - 1 : r.range(1, std::max<int64_t>(1, n - 1)), feed_mode()); if (r.chance(0.5)) return; }
    if (r.chance(p.corrupt)) { go('X', e.f, e.dir, e.idx, (int64_t)(r.next() >> 20), feed_mode()); if (r.chance(0.5)) return; }
    if (r.chance(p.misroute)) go('W', e.f, e.dir, e.idx, feed_mode());
    faults();
    if (r.chance(p.pad)) {
      auto& L = w.flows[e.f]->link[e.dir];
      int64_t how = r.chance(0.4) ? -(int64_t)(1 + r.below(L.size())) : r.range(1, 60);
      go('P', e.f, e.dir, e.idx, how, (int64_t)(r.next() >> 20));
      return;
    }
    go('D', e.f, e.dir, e.idx, feed_mode());
  }

  void run() {
    size_t nf = w.flows.size();
    for (int d = 0; d < 2; ++d) { seen[d].assign(nf, 0); bad_[d].assign(nf, 0); cut[d].assign(nf, 0); }
    bool marathon = false;
    // rare long runs: identifiers and counters cross 16 bits
    bool mprop = prop == 12 || prop == 7 || prop == 8 || prop == 9 || prop == 10 || prop == 6 || prop == 14 || prop == 1 || prop == 5 || prop == 20 || prop == 15 || (prop >= 2 && prop <= 4);
    if (mprop && w.cfg.seed % 1500 == 3) { run_marathon(); marathon = true; }
    if (mprop && !marathon && prop != 12 && w.cfg.seed % 60 == 13) {
      int f = (int)r.below(nf);
      submit(f);
      go('B', f, r.chance(0.5) ? r.range(200, 3000) : r.chance(0.85) ? r.range(60000, 72000) : r.range(72000, 200000));
    }
    // rare outages: more than 256 blocks are missing at once and rebuilt together
    bool oprop = prop == 1 || prop == 4 || prop == 5 || prop == 6 || prop == 7 || prop == 10 || prop == 20;
    if (oprop && outage_seed(w.cfg.seed)) { run_outage(); marathon = true; }
    if (!marathon && w.cfg.seed % 50 == 27) run_backlog();
    // rare floods: thousands of copies of a datagram, without a delivery in between
    bool flood = !marathon && (prop == 2 || prop == 7 || prop == 11 || prop == 12 || prop == 15 || prop == 20) && w.cfg.seed % 130 == 77;
    // long sessions: thousands of blocks
    bool lng = !marathon && w.cfg.seed % 400 == 207;
    if (lng) { ++w.st.n["event.long_run"]; p.nsub = (int)r.range(600, 3000); p.size_max = std::min<int64_t>(p.size_max, 40); p.big = 0; p.drain = 0; p.reconf = 0;
      for (size_t f = 0; f < nf; ++f) if (w.cfg.flows[f].window == 0 || w.cfg.flows[f].window > 60) go('C', (int64_t)f, 1, r.range(2, 60)); }
    int left = marathon ? (int)r.range(0, 12) : p.nsub;
    std::vector<int> src;
    for (size_t f = 0; f < nf; ++f) { bool relay_target = false; for (size_t g = 0; g < nf; ++g) if (w.cfg.flows[g].relay == (int)f) relay_target = true; if (!relay_target) src.push_back((int)f); }
    q.push(Ev{now, seq++, 0, 0, 0, 0});
    size_t max_ops = marathon ? 300 : lng ? 16000 : tier ? 6000 : 2500;
    while (!q.empty() && !w.bad() && ops.size() < max_ops) {
      Ev e = q.top(); q.pop();
      advance(e.t);
      if (w.bad()) break;
      if (e.kind == 0) {
        submit(src[r.below(src.size())]);
        mischief();
        if (flood && r.chance(0.3)) {
          flood = false;
          int f = (int)r.below(nf);
          int dir = r.chance(0.85) ? 0 : 1;
          if (r.chance(0.7)) { go('C', f, 4, 0); go('C', f, 5, r.chance(0.5) ? 128 : r.range(1, 128)); }
          auto& L = w.flows[f]->link[dir];
          if (!L.empty()) go('E', f, dir, (int64_t)r.below(L.size()), r.chance(0.5) ? r.range(100, 700) : r.chance(0.7) ? r.range(700, 40000) : r.range(65400, 66000));
          if (r.chance(0.3)) go('K', f);
        }
        if (--left > 0) q.push(Ev{now + (r.chance(0.1) ? 0 : r.range(0, 2 * p.gap)), seq++, 0, 0, 0, 0});
      } else if (e.idx < (int64_t)w.flows[e.f]->link[e.dir].size()) {
        deliver(e);
        if (r.chance(0.1)) mischief();
      }
    }
    if (!w.bad() && p.final_drain)
      for (size_t f = 0; f < nf && !w.bad(); ++f) go('Z', (int64_t)f, r.chance(0.3));
  }

  void repair_through(int f) {
    go('R', f);
    if (!w.flows[f]->link[0].empty()) go('D', f, 0, (int64_t)w.flows[f]->link[0].size() - 1, feed_mode());
  }

  // one to three blocks are lost and many newer ones get through; then the old ones arrive, or are rebuilt
  void run_backlog() {
    int f = (int)r.below(w.flows.size());
    if (w.cfg.flows[f].relay >= 0) return;
    ++w.st.n["event.backlog_run"];
    int64_t first = (int64_t)w.flows[f]->link[0].size();
    go('C', f, 3, 0); go('C', f, 0, 1000000); go('C', f, 2, 1); go('C', f, 1, 1000000);
    if (r.chance(0.5)) go('C', f, 5, 128);
    int k = (int)r.range(1, 3);
    for (int i = 0; i < k && !w.bad(); ++i) submit(f);
    if (r.chance(0.2)) repair_through(f);
    while (!q.empty()) q.pop();
    go('Y', f, r.chance(0.7) ? r.range(20, 300) : r.range(300, 3000), r.chance(0.5) ? 1 : 2);
    if (r.chance(0.6)) for (int i = k; i-- > 0 && !w.bad();) { go('D', f, 0, first + i, feed_mode()); if (r.chance(0.3)) go('D', f, 0, first + i, feed_mode()); }
    else for (int i = 0; i < k && !w.bad(); ++i) repair_through(f);
    go('K', f);
    while (!q.empty()) q.pop();
    go('C', f, 1, r.range(2, 60)); go('C', f, 0, r.range(1, 20));
  }

  void run_outage() {
    int f = 0;
    ++w.st.n["event.outage_run"];
    if (r.chance(0.5)) for (int i = (int)r.range(1, 5); i > 0 && !w.bad(); --i) { submit(f); go('D', f, 0, (int64_t)w.flows[f]->link[0].size() - 1); }
    go('C', f, 3, 0); go('C', f, 0, 1000000); go('C', f, 2, 1); go('C', f, 1, 1000000);
    go('C', f, 4, 0); go('C', f, 5, r.range(1, 128));
    int64_t n = r.range(257, 275);
    go('Y', f, n, 0);
    for (int64_t i = 0; i < n + 3 && !w.bad(); ++i) {
      go('R', f);
      go('D', f, 0, (int64_t)w.flows[f]->link[0].size() - 1, feed_mode());
    }
    while (!q.empty()) q.pop();
    go('K', f);
    if (!w.flows[f]->link[1].empty()) go('D', f, 1, (int64_t)w.flows[f]->link[1].size() - 1);
  }

  void run_marathon() {
    int f = 0;
    ++w.st.n["event.marathon_run"];
    int64_t n = r.range(65500, 66200);
    if (prop == 12) {                        // more than 65535 packets between two acks
      go('C', f, 3, 1); go('C', f, 0, 1000000); go('C', f, 1, r.range(4, 30)); go('C', f, 2, 1);
      int how = r.chance(0.5) ? 1 : 0;       // everything is lost, or only the acks are
      go('C', f, 4, 0); go('C', f, 5, 128);
      go('Y', f, n, how);
      if (how && r.chance(0.8)) { go('K', f); go('D', f, 1, (int64_t)w.flows[f]->link[1].size() - 1); }
      return;
    }
    if ((prop == 15 && r.chance(0.6)) || (prop == 8 && r.chance(0.4)) || (prop == 20 && r.chance(0.25))) {       // a window beyond 65535 blocks
      go('C', f, 3, 0); go('C', f, 0, 1000000); go('C', f, 2, 1); go('C', f, 1, 1000000); go('C', f, 4, 0); go('C', f, 5, 128);
      go('Y', f, n, r.chance(0.7) ? 0 : 1);
      submit(f); go('R', f);
      go('D', f, 0, (int64_t)w.flows[f]->link[0].size() - 1, feed_mode());
      go('K', f);
      go('D', f, 1, (int64_t)w.flows[f]->link[1].size() - 1, feed_mode());
      return;
    }
    if (prop == 20) {                        // every counter crosses 16 bits
      go('C', f, 3, 0); go('C', f, 0, 1); go('C', f, 2, 1); go('C', f, 1, r.range(1, 8));
      go('C', f, 4, 0); go('C', f, 5, 1);
      go('Y', f, n, r.chance(0.6) ? 2 : 4);    // 4: every block is rebuilt from a repair
      return;
    }
    if (prop == 14 || r.chance(0.12)) {      // every other block is lost at random: a list with thousands of runs
      go('C', f, 3, 0); go('C', f, 0, 1000000); go('C', f, 2, 1); go('C', f, 1, 1000000); go('C', f, 4, 0); go('C', f, 5, 128);
      go('Y', f, r.range(60000, 95000), 3);
      go('K', f);
      if (!w.flows[f]->link[1].empty()) go('D', f, 1, (int64_t)w.flows[f]->link[1].size() - 1);
      go('R', f);
      while (!q.empty()) q.pop();
      go('C', f, 1, r.range(2, 30));
      return;
    }
    if (r.chance(0.3)) {                     // the receiver holds old and new blocks, nothing in between
      go('C', f, 3, 0); go('C', f, 0, 1000000); go('C', f, 2, 1); go('C', f, 1, r.range(2, 30));
      submit(f);
      go('D', f, 0, 0);
      if (r.chance(0.5)) repair_through(f);
      while (!q.empty()) q.pop();
      for (int k = r.chance(0.5) ? 2 : 1; k > 0 && !w.bad(); --k) { // the same gap once more
        go('Y', f, n, 0);
        submit(f);
        go('D', f, 0, (int64_t)w.flows[f]->link[0].size() - 1);
      }
      if (r.chance(0.5)) { submit(f); go('D', f, 0, (int64_t)w.flows[f]->link[0].size() - 1); }
      go('K', f);
      return;
    }
    // one old block stays unacknowledged while more than 65535 newer ones are acknowledged
    go('C', f, 3, 0); go('C', f, 0, 1000000); go('C', f, 2, 1);
    go('C', f, 4, 0); go('C', f, 5, 128);
    int k = (int)r.range(1, 4);
    for (int i = 0; i < k && !w.bad(); ++i) submit(f);
    if (r.chance(0.3)) repair_through(f);
    while (!q.empty()) q.pop();              // all of them lost
    go('C', f, 1, 1000000);                  // window wide enough to keep the old blocks
    go('Y', f, n, 2);                        // delivered and acknowledged in lock step
    if (prop <= 4 || r.chance(0.4))          // ... then the old ones arrive after all, some of them twice
      for (int i = 0; i < k && !w.bad(); ++i) { go('D', f, 0, i); if (r.chance(0.5)) go('D', f, 0, i); }
    for (int i = 0; i < 3 && !w.bad(); ++i) submit(f);
    while (!q.empty()) q.pop();
    go('R', f);
  }
};
}

void drive(World& w, uint64_t seed, int prop, int tier, std::vector<Op>& ops) { Driver d(w, seed, prop, tier, ops); d.run(); }
void drive_rec(World& w, uint64_t seed, int prop, int tier, std::vector<Op>& ops, std::function<void(const Op&)> rec) { Driver d(w, seed, prop, tier, ops); d.rec = rec; d.run(); }
}
