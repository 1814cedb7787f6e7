#include "world.hh"
#include "seams.hh"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>

namespace sim {

// ------------------------------------------------------------------------------------ text
std::string Op::text() const {
  std::ostringstream o;
  o << k;
  int n = 5;
  while (n > 0 && a[n - 1] == 0) --n;
  for (int i = 0; i < n; ++i) o << ' ' << a[i];
  return o.str();
}
std::string Config::text() const {
  std::ostringstream o;
  for (auto& f : flows)
    o << "flow " << f.w << ' ' << f.in_order << ' ' << f.sys << ' ' << f.rate << ' ' << f.window << ' ' << f.adaptive << ' '
      << f.period << ' ' << f.nb << ' ' << f.enc_kind << ' ' << f.dec_kind << ' ' << f.dispatch << ' ' << f.relay << ' '
      << f.handler_ns << ' ' << f.twin << ' ' << f.splits << ' ' << f.rid0 << ' ' << f.sid0 << '\n';
  return o.str();
}
std::string trace_text(const Config& c, const std::vector<Op>& ops, const std::map<std::string, std::string>& meta) {
  std::ostringstream o;
  for (auto& m : meta) o << "# " << m.first << '=' << m.second << '\n';
  o << "seed " << c.seed << '\n' << c.text();
  for (auto& p : ops) o << p.text() << '\n';
  return o.str();
}
bool parse_trace(const std::string& text, Config& c, std::vector<Op>& ops, std::map<std::string, std::string>& meta) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    if (line[0] == '#') {
      auto e = line.find('=');
      if (e != std::string::npos) meta[line.substr(2, e - 2)] = line.substr(e + 1);
      continue;
    }
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "seed") l >> c.seed;
    else if (w == "flow") {
      FlowCfg f;
      l >> f.w >> f.in_order >> f.sys >> f.rate >> f.window >> f.adaptive >> f.period >> f.nb >> f.enc_kind >> f.dec_kind >> f.dispatch >> f.relay >> f.handler_ns >> f.twin >> f.splits >> f.rid0;
      if (!(l >> f.sid0)) f.sid0 = 0;
      c.flows.push_back(f);
    } else if (w.size() == 1) {
      Op p;
      p.k = w[0];
      for (int i = 0; i < 5 && (l >> p.a[i]); ++i) {}
      ops.push_back(p);
    } else return false;
  }
  return !c.flows.empty();
}

static std::string hexs(const Bytes& b, size_t max = 24) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < b.size() && i < max; ++i) { s += d[(uint8_t)b[i] >> 4]; s += d[b[i] & 15]; }
  if (b.size() > max) s += "..";
  return s + "(" + std::to_string(b.size()) + ")";
}
static std::string S(int64_t v) { return std::to_string(v); }

// ------------------------------------------------------------------------------------ receiver model
void RxModel::source(uint32_t id) {
  newly.clear();
  grow(id);
  if (id < L || known[id]) return;
  known[id] = 1;
  got_source[id] = 1;
  newly.push_back(id);
  for (auto& e : eqs) e.u.erase(id);
  reduce();
}
void RxModel::repair(uint32_t rid, const std::vector<uint32_t>& ids) {
  newly.clear();
  if (ids.empty() || ids.front() < L) return;
  all_repairs.emplace_back(rid, ids);
  for (auto& e : eqs) if (e.rid == rid) return;
  L = ids.front();
  eqs.erase(std::remove_if(eqs.begin(), eqs.end(), [&](const Eq& e) { return !e.u.empty() && e.u.begin()->first < L; }), eqs.end());
  Eq e;
  e.rid = rid;
  for (auto id : ids) { grow(id); if (!known[id]) e.u[id] = ref::field(w).coef(rid, id + sid0); }
  if (e.u.empty()) { ++useless; return; }
  eqs.push_back(e);
  reduce();
}
void RxModel::reduce() {
  for (;;) {
    eqs.erase(std::remove_if(eqs.begin(), eqs.end(), [](const Eq& e) { return e.u.empty(); }), eqs.end());
    if (eqs.empty()) { ambiguous = false; return; }
    std::vector<uint32_t> solved;
    for (auto& e : eqs) if (e.u.size() == 1 && !e.soft) { solved.push_back(e.u.begin()->first); break; }
    if (solved.empty()) {
      std::set<uint32_t> U;
      for (auto& e : eqs) for (auto& kv : e.u) U.insert(kv.first);
      if (U.size() > eqs.size()) return;
      std::vector<std::map<uint32_t, uint32_t>> rows;
      for (auto& e : eqs) rows.push_back(e.u);
      std::vector<bool> involved;
      auto dep = ref::dependent(w, rows, &involved);
      for (size_t i = 0; i < eqs.size(); ++i) if (involved[i]) eqs[i].soft = true;
      for (size_t i = dep.size(); i-- > 0;) { eqs.erase(eqs.begin() + (long)dep[i]); ++dependent; }
      if (eqs.size() < U.size()) { if (!dep.empty()) ambiguous = ever_ambiguous = true; return; }
      solved.assign(U.begin(), U.end());
    }
    for (auto id : solved) {
      grow(id);
      known[id] = 2;
      ++nb_known_decoded;
      newly.push_back(id);
      for (auto& e : eqs) e.u.erase(id);
    }
  }
}
void RxModel::observe(uint32_t id) {
  grow(id);
  if (known[id]) return;
  known[id] = 2;
  ++nb_known_decoded;
  for (auto& e : eqs) e.u.erase(id);
  reduce();
}
size_t RxModel::missing() const {
  std::set<uint32_t> U;
  for (auto& e : eqs) for (auto& kv : e.u) U.insert(kv.first);
  return U.size();
}

// ------------------------------------------------------------------------------------ sinks
void Flow::ESink::chunk(const char* p, size_t n) {
  seam::yield(seam::Y_HANDLER);
  if (!twin) { try { w->maybe_throw(f, dir); } catch (...) { buf.clear(); throw; } }
  buf.append(p, n);
}
void Flow::ESink::end() {
  seam::yield(seam::Y_HANDLER);
  if (!twin) { try { w->maybe_throw(f, dir); } catch (...) { buf.clear(); throw; } }
  Bytes b;
  b.swap(buf);
  w->on_emit(f, dir, std::move(b), twin);
  if (!twin) w->maybe_throw(f, dir);  // handed to the network, then failed
}
void Flow::DSink::data(const char* p, size_t n) {
  seam::yield(seam::Y_HANDLER);
  w->on_data(f, p, n, twin);
}

void World::maybe_throw(int f, int kind) {
  if (!handler_armed || f != throw_flow || kind != throw_kind) return;
  if (++calls_seen == throw_at) {
    handler_armed = false;
    threw = any_threw = true;
    ++st.n["fault.handler_exception"];
    throw HandlerBoom();
  }
}

static uint64_t hash_bytes(uint64_t h, const void* p, size_t n) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
  return h ^ (h >> 29);
}
void World::note(const std::string& s) {
  log = hash_bytes(log * 31 + 7, s.data(), s.size());
  if (keep_log) logtext.push_back(s);
}

void World::on_emit(int fi, int dir, Bytes b, bool twin) {
  Flow& f = F(fi);
  if (twin) { f.out2[dir].push_back(std::move(b)); return; }
  note("emit " + S(fi) + " " + S(dir) + " " + (keep_log ? hexs(b, 64) : b));
  f.link[dir].push_back(b);
  ++st.n[dir ? "packets.ack" : (b.size() && b[0] == 1 ? "packets.repair" : "packets.source")];
  if (dir == 0 && b.size() >= 5) {
    // Whatever failed before, an id is used once.
    uint32_t id = ((uint32_t)(uint8_t)b[1] << 24) | ((uint32_t)(uint8_t)b[2] << 16) | ((uint32_t)(uint8_t)b[3] << 8) | (uint8_t)b[4];
    int64_t& last = b[0] == 1 ? f.last_rid : f.last_sid;
    if ((int64_t)id <= last) for (int p : {9, 16, 17}) fail(p, "id-reused", (b[0] == 1 ? "repair " : "source ") + S(id) + " sent after " + S(last));
    last = id;
  }
  ev.push_back(Event{false, fi, dir, std::move(b), true, seam::mono_ns, false});
}

void World::on_data(int fi, const char* p, size_t n, bool twin) {
  Flow& f = F(fi);
  if (twin) { f.del2.emplace_back(p, n); seam::mono_ns += f.cfg.handler_ns; seam::wall_ns += f.cfg.handler_ns; return; }
  Event e{true, fi, 0, Bytes(p, n), ((uintptr_t)p % 16) == 0, 0, false};
  note("data " + S(fi) + " " + (keep_log ? hexs(e.b, 64) : e.b));
  ++st.n["blocks.delivered"];
  if (f.cfg.handler_ns) { seam::mono_ns += f.cfg.handler_ns; seam::wall_ns += f.cfg.handler_ns; st.sim_ns += f.cfg.handler_ns; }
  e.t = seam::mono_ns;
  ev.push_back(e);
  size_t at = ev.size() - 1;
  try { maybe_throw(fi, 2); } catch (...) { ev[at].thrown = true; throw; }
  if (f.cfg.relay >= 0 && f.cfg.relay < (int)flows.size() && f.cfg.relay != fi) {
    Flow& g = F(f.cfg.relay);
    Bytes b = e.b;
    int m = g.cfg.w == 16 ? 2 : g.cfg.w == 32 ? 4 : 1;
    // blocks are recognised by their contents: never submit the same twice
    if (b.size() % (size_t)m == 0 && !b.empty() && !g.by_content.count(b)) raw_submit(f.cfg.relay, b, 0, true);
  }
}

// ------------------------------------------------------------------------------------ construction
void World::build(Flow& f, int i, bool enc, bool dec) {
  const FlowCfg& c = f.cfg;
  Err e = E_NONE;
  if (enc) {
    f.es.w = this; f.es.f = i; f.es.dir = 0; f.es.twin = false;
    f.es2 = f.es; f.es2.twin = true;
    auto mk = [&](int kind, PacketSink& s) {
      return kind == 0 ? make_enc_cpp(c.w, s, e) : kind == 1 ? make_enc_c(c.w, s, e) : make_enc_ref(c.w, s, c.splits, cfg.seed * 7 + (uint64_t)i, (uint32_t)c.rid0, (uint32_t)c.sid0);
    };
    f.enc = mk(c.enc_kind, f.es);
    if (c.twin) f.enc2 = mk(c.enc_kind == 0 ? 1 : 0, f.es2);
    for (Enc* x : {f.enc.get(), f.enc2.get()}) {
      if (!x) continue;
      // what a fresh sender promises without being told: systematic, a repair every 5 blocks, any window, not adaptive
      bool all = c.enc_kind == 2;
      if (all || !c.sys) x->set_systematic(c.sys);
      if (all || c.rate != 5) x->set_rate((size_t)c.rate);
      if (c.window) x->set_window((size_t)c.window);
      if (all || c.adaptive) x->set_adaptive(c.adaptive);
    }
    if (c.enc_kind == 2) f.next_rid = (uint32_t)c.rid0;
    if (c.sid0) ++st.n["event.far_session"];
    f.sys = c.sys; f.rate = c.rate; f.wlimit = c.window ? c.window : -1; f.adaptive = c.adaptive;
  }
  if (dec) {
    f.as.w = this; f.as.f = i; f.as.dir = 1; f.as.twin = false;
    f.as2 = f.as; f.as2.twin = true;
    f.ds.w = this; f.ds.f = i; f.ds.twin = false;
    f.ds2 = f.ds; f.ds2.twin = true;
    auto mk = [&](int kind, PacketSink& s, DataSink& d) {
      return kind == 0 ? make_dec_cpp(c.w, c.in_order, s, d, e) : kind == 1 ? make_dec_c(c.w, c.in_order, s, d, e) : make_dec_ref(c.w, c.in_order, s, d, c.splits, cfg.seed * 11 + (uint64_t)i);
    };
    f.dec = mk(c.dec_kind, f.as, f.ds);
    if (c.twin) f.dec2 = mk(c.dec_kind == 0 ? 1 : 0, f.as2, f.ds2);
    for (Dec* x : {f.dec.get(), f.dec2.get()}) {
      if (!x) continue;
      // a fresh receiver acknowledges every 50 packets or 100 ms
      bool all = c.dec_kind == 2;
      if (all || f.period != 100) x->set_period(f.period);
      if (all || f.nb != 50) x->set_nb(f.nb);
    }
    f.nb = std::min(f.nb, 128);
    f.last_ack = seam::mono_ns;
    f.rx_since_ack = 0;
    f.tx_acks = 0;
    f.rx = RxModel{};
    f.rx.w = c.w;
    f.rx.sid0 = (uint32_t)c.sid0;
  }
}

World::World(const Config& c, int want_, Stats& s) : cfg(c), st(s), want(want_) {
  seam::mono_ns = 1000000000ll * 3600;
  seam::wall_ns = 1000000000ll * 1700000000;
  live_base = seam::live_blocks;
  for (size_t i = 0; i < c.flows.size(); ++i) {
    flows.emplace_back(new Flow);
    Flow& f = *flows.back();
    f.cfg = c.flows[i];
    f.period = f.cfg.period;
    f.nb = f.cfg.nb;
    build(f, (int)i, true, true);
  }
}
World::~World() { flows.clear(); }

// Which oracles count for a property that speaks about the health of whole sessions.
static bool health(int want, int prop) {
  switch (want) {
    case 10: return prop == 1 || prop == 2 || prop == 3 || prop == 4 || prop == 5 || prop == 6 || prop == 7 || prop == 8 || prop == 9;
    case 13: return prop != 23 && prop != 10 && prop != 14;
    case 14: return prop == 1 || prop == 2 || prop == 3 || prop == 4 || prop == 5 || prop == 7 || prop == 8 || prop == 9;
    case 16: case 17: return prop == 1 || prop == 2 || prop == 3 || prop == 6;
    case 19: return false;
    default: return false;
  }
}
void World::fail(int prop, const std::string& cls, const std::string& detail) {
  if (v.prop) return;
  bool mine = prop == want || health(want, prop);
  if (!mine) return;
  v.prop = want;
  char buf[8];
  snprintf(buf, sizeof buf, "C%02d", prop);
  v.cls = prop == want ? cls : std::string("session-") + buf + "-" + cls;
  v.detail = detail;
  v.op = opno;
}

// ------------------------------------------------------------------------------------ contents
Bytes World::content(Flow& f, int64_t size, int style, uint64_t salt) {
  int m = f.cfg.w == 16 ? 2 : f.cfg.w == 32 ? 4 : 1;
  if (size < 1) size = 1;
  // a source's size has 16 bits; packets of the C interface too, headers included
  bool cpp = true;
  for (auto& x : cfg.flows) if (x.enc_kind == 1 || x.dec_kind == 1 || x.twin) cpp = false;
  int64_t top = cpp ? 65535 / m * m : 65000;
  if (size > top) size = top;
  size = (size + m - 1) / m * m;
  for (int tries = 0;; ++tries) {
    Rng r(mix64(salt, (uint64_t)tries));
    Bytes b((size_t)size, 0);
    switch (style) {
      case 1: break;                                   // zeros but for a tag in front
      case 2: std::fill(b.begin(), b.end(), (char)0xff); break;
      case 3: { char c = (char)r.next(); std::fill(b.begin(), b.end(), c); break; }
      default: for (auto& c : b) c = (char)r.next();
    }
    size_t t = std::min<size_t>(8, b.size());
    if (style == 1 || style == 2) for (size_t i = 0; i < t; ++i) b[i] = (char)r.next();
    if (style == 4) { std::fill(b.begin(), b.end(), 0); for (size_t i = 0; i < t; ++i) b[b.size() - 1 - i] = (char)r.next(); }
    if (!f.by_content.count(b)) return b;
    if (tries > 6) { size += m; style = 0; }
  }
}

// ------------------------------------------------------------------------------------ sender side
void World::model_submit(Flow& f) {
  while (f.wlimit >= 0 && (int64_t)f.win.size() >= f.wlimit) { f.win.pop_front(); ++f.evicted; }
  f.win.push_back((uint32_t)f.sub.size() - 1);
}

bool World::parse(const Flow& f, const Bytes& b, ref::Packet& p) {
  bool ok = ref::parse(b, p);
  if (ok && f.cfg.sid0) { if (p.type == ref::SOURCE) p.id -= (uint32_t)f.cfg.sid0; for (auto& id : p.ids) id -= (uint32_t)f.cfg.sid0; }
  return ok;
}

void World::check_repair_bytes(Flow& f, int fi, const Bytes& b) {
  if (!ck(10) || f.cfg.enc_kind == 2) return;
  ref::Packet p;
  if (!ref::parse(b, p) || p.used != b.size()) { fail(10, "malformed-datagram", "flow " + S(fi) + " emitted " + hexs(b, 64)); return; }
  if (ref::serialize(p) != b) { fail(10, "not-canonical", "flow " + S(fi) + " emitted " + hexs(b, 64) + " expected " + hexs(ref::serialize(p), 64)); return; }
  if (p.type == ref::SOURCE) {
    if (p.id >= f.sub.size() || f.sub[p.id] != p.symbol) fail(10, "source-content", "source " + S(p.id) + " carries " + hexs(p.symbol));
    return;
  }
  if (p.type != ref::REPAIR) { fail(10, "wrong-type", "sender emitted type " + S(p.type)); return; }
  std::vector<std::pair<uint32_t, const Bytes*>> srcs;
  for (auto id : p.ids) {
    if (id >= f.sub.size()) { fail(10, "unknown-id", "repair lists id " + S(id)); return; }
    srcs.emplace_back(id, &f.sub[id]);
  }
  ref::Packet x = ref::combine(f.cfg.w, p.id, srcs);
  if (x.encoded_size != p.encoded_size) fail(10, "encoded-size", "repair " + S(p.id) + " size " + S(p.encoded_size) + " expected " + S(x.encoded_size));
  if (x.symbol != p.symbol) fail(10, "combination", "repair " + S(p.id) + " over " + S((int64_t)p.ids.size()) + " blocks: " + hexs(p.symbol) + " expected " + hexs(x.symbol));
}

// exp_src: 1 a source is expected first, 0 none. min/max repairs afterwards.
void World::check_emissions(int fi, int exp_src, uint32_t src_id, int min_rep, int max_rep, bool fault) {
  Flow& f = F(fi);
  int nsrc = 0, nrep = 0;
  bool first = true;
  for (auto& e : ev) {
    if (e.deliver || e.flow != fi || e.dir != 0 || e.thrown) continue;
    e.thrown = true; // consumed by this check (nested submissions look only at new ones)
    ++f.sent_since;
    ref::Packet p;
    if (!parse(f, e.b, p) || (f.cfg.enc_kind != 2 && p.used != e.b.size())) {
      check_repair_bytes(f, fi, e.b);
      fail(9, "malformed-datagram", "flow " + S(fi) + ": " + hexs(e.b, 64));
      return;
    }
    if (p.type == ref::SOURCE) {
      ++nsrc; ++f.tx_sources;
      if (!exp_src || !first) fail(9, "unexpected-source", "source " + S(p.id));
      else if (p.id != src_id) fail(9, "source-id", "source id " + S(p.id) + " expected " + S(src_id));
      else if (p.symbol != f.sub[src_id]) fail(9, "source-content", hexs(p.symbol));
    } else if (p.type == ref::REPAIR) {
      ++nrep; ++f.tx_repairs;
      if (fault) { if (p.id < f.next_rid) fail(9, "repair-id-reused", S(p.id)); }
      else if (p.id != f.next_rid) fail(9, "repair-id", "repair id " + S(p.id) + " expected " + S(f.next_rid));
      f.next_rid = p.id + 1;
      if (!(p.ids.size() == f.win.size() && std::equal(p.ids.begin(), p.ids.end(), f.win.begin()))) {
        fail(9, "repair-coverage", "repair " + S(p.id) + " lists " + S((int64_t)p.ids.size()) + " ids (first " + S(p.ids.empty() ? -1 : (int64_t)p.ids[0]) + "), window has " + S((int64_t)f.win.size()));
        fail(8, "window-content", "repair lists other blocks than the window holds");
      }
      if (f.win.size() > 1) ++st.n["probe.repair_multi"];
    } else fail(9, "unexpected-ack", "sender emitted an ack");
    check_repair_bytes(f, fi, e.b);
    first = false;
  }
  if (fault) return;
  if (nsrc != exp_src) fail(9, "missing-source", "expected " + S(exp_src) + " sources, got " + S(nsrc));
  if (nrep < min_rep || nrep > max_rep) {
    fail(9, "repair-cadence", "expected " + S(min_rep) + ".." + S(max_rep) + " repairs, got " + S(nrep) + " (rate " + S(f.rate) + ", id " + S(src_id) + ")");
    if (f.adaptive) fail(12, "repair-cadence", "expected " + S(min_rep) + ".." + S(max_rep) + " repairs at adaptive rate " + S(f.rate) + ", got " + S(nrep));
  }
  if (!f.es.buf.empty()) { fail(9, "unterminated-datagram", "bytes without end mark"); f.es.buf.clear(); }
}

void World::check_sender(int fi) {
  Flow& f = F(fi);
  size_t n = f.enc->window();
  if (n != f.win.size()) fail(8, "window-size", "window() is " + S((int64_t)n) + ", blocks neither acknowledged nor evicted: " + S((int64_t)f.win.size()));
  EncStats s = f.enc->stats();
  if (s.has) {
    if ((int64_t)s.rate != f.rate && f.rate_known && !f.fault_enc) {
      if (f.adaptive) fail(12, "rate", "rate is " + S((int64_t)s.rate) + " expected " + S(f.rate));
      else { fail(12, "rate-changed", "rate is " + S((int64_t)s.rate) + " expected " + S(f.rate)); fail(9, "rate-changed", "rate is " + S((int64_t)s.rate) + " expected " + S(f.rate)); }
    }
  }
}

void World::check_counters(int fi) {
  if (!(ck(20) || want == 13)) return;
  Flow& f = F(fi);
  {                                      // settings read back as last set
    EncStats s = f.enc->stats();
    if (s.has) {
      if (f.wlimit > 0 && s.window_size != (size_t)f.wlimit) fail(20, "setting-window-size", S((int64_t)s.window_size) + " vs " + S(f.wlimit));
      if (s.adaptive != f.adaptive) fail(20, "setting-adaptive", S(s.adaptive) + " vs " + S(f.adaptive));
      if (s.systematic != f.sys) fail(20, "setting-code-type", S(s.systematic) + " vs " + S(f.sys));
      if (s.w != f.cfg.w) fail(20, "setting-field", S(s.w) + " vs " + S(f.cfg.w));
      if ((int64_t)s.rate != f.rate && f.rate_known && !f.fault_enc && !f.forged_ack) fail(20, "setting-rate", S((int64_t)s.rate) + " vs " + S(f.rate));
    }
    DecStats d = f.dec->stats();
    if (d.has) {
      if (d.period != f.period) fail(20, "setting-ack-period", S(d.period) + " vs " + S(f.period));
      if (d.nb != f.nb) fail(20, "setting-ack-packets", S(d.nb) + " vs " + S(f.nb));
    }
  }
  if (f.faulted || any_threw) {          // what was being emitted is unsettled, what was received is not
    if (any_fired || f.forged || f.forged_ack) return;
    EncStats s = f.enc->stats();
    if (s.has && s.acks != f.rx_acks) fail(20, "received-acks", S((int64_t)s.acks) + " vs " + S((int64_t)f.rx_acks));
    DecStats d = f.dec->stats();
    if (d.has && d.sources != f.rx.rx_sources) fail(20, "received-sources", S((int64_t)d.sources) + " vs " + S((int64_t)f.rx.rx_sources) + " (a handler threw)");
    if (d.has && d.repairs != f.rx.rx_repairs) fail(20, "received-repairs", S((int64_t)d.repairs) + " vs " + S((int64_t)f.rx.rx_repairs) + " (a handler threw)");
    return;
  }
  EncStats s = f.enc->stats();
  if (s.has) {
    if (s.acks != f.rx_acks) fail(20, "received-acks", S((int64_t)s.acks) + " vs " + S((int64_t)f.rx_acks));
    if (s.repairs != f.tx_repairs) fail(20, "sent-repairs", S((int64_t)s.repairs) + " vs " + S((int64_t)f.tx_repairs));
    if (s.sources != f.tx_sources) fail(20, "sent-sources", S((int64_t)s.sources) + " vs " + S((int64_t)f.tx_sources));
  }
  if (f.forged) return;
  DecStats d = f.dec->stats();
  if (d.has) {
    if (d.sources != f.rx.rx_sources) fail(20, "received-sources", S((int64_t)d.sources) + " vs " + S((int64_t)f.rx.rx_sources));
    if (d.repairs != f.rx.rx_repairs) fail(20, "received-repairs", S((int64_t)d.repairs) + " vs " + S((int64_t)f.rx.rx_repairs));
    if (d.acks != f.tx_acks) fail(20, "sent-acks", S((int64_t)d.acks) + " vs " + S((int64_t)f.tx_acks));
    if (f.restarts == 0) {
      bool held = false;
      if (f.cfg.in_order) for (uint32_t i = f.rx.next; i < f.rx.known.size() && !held; ++i) held = f.rx.known[i] == 2 && !f.rx.delivered[i];
      bool unsure = f.rx.ever_ambiguous && f.cfg.in_order;
      if (unsure) ++st.n["probe.ambiguous_dependency"];
      else if (d.decoded < f.rx.delivered_decoded) fail(20, "decoded", S((int64_t)d.decoded) + " < delivered without source " + S((int64_t)f.rx.delivered_decoded));
      else if (!held && d.decoded != f.rx.delivered_decoded) fail(20, "decoded", S((int64_t)d.decoded) + " vs " + S((int64_t)f.rx.delivered_decoded));
      else if (held && d.decoded != f.rx.nb_known_decoded) fail(20, "decoded", S((int64_t)d.decoded) + " vs " + S((int64_t)f.rx.nb_known_decoded));
      if (!f.rx.ever_ambiguous && d.useless != f.rx.useless) fail(20, "useless-repairs", S((int64_t)d.useless) + " vs " + S((int64_t)f.rx.useless));
      size_t m = f.rx.missing();
      if (d.missing != m && !f.rx.ambiguous) fail(20, "missing", S((int64_t)d.missing) + " vs " + S((int64_t)m));
    }
  }
}

void World::twin_compare(int fi, const char* what, const Result& a, const Result& b) {
  Flow& f = F(fi);
  if (a.err != b.err) fail(15, std::string(what) + "-error", std::string(err_name(a.err)) + " vs " + err_name(b.err));
  if (a.n != b.n) fail(15, std::string(what) + "-result", S((int64_t)a.n) + " vs " + S((int64_t)b.n));
  for (int dir = 0; dir < 2; ++dir) {
    std::vector<const Bytes*> x;
    for (auto& e : ev) if (!e.deliver && e.flow == fi && e.dir == dir) x.push_back(&e.b);
    bool same = x.size() == f.out2[dir].size();
    for (size_t i = 0; same && i < x.size(); ++i) same = *x[i] == f.out2[dir][i];
    if (!same) fail(15, std::string(what) + (dir ? "-acks" : "-datagrams"), "the two interfaces emitted different datagrams (" + S((int64_t)x.size()) + " vs " + S((int64_t)f.out2[dir].size()) + ")");
  }
  std::vector<const Bytes*> x;
  for (auto& e : ev) if (e.deliver && e.flow == fi) x.push_back(&e.b);
  bool same = x.size() == f.del2.size();
  for (size_t i = 0; same && i < x.size(); ++i) same = *x[i] == f.del2[i];
  if (!same) fail(15, std::string(what) + "-deliveries", "the two interfaces delivered different blocks");
  if (f.enc->window() != f.enc2->window()) fail(15, std::string(what) + "-window", S((int64_t)f.enc->window()) + " vs " + S((int64_t)f.enc2->window()));
  f.out2[0].clear(); f.out2[1].clear(); f.del2.clear();
}

Result World::raw_submit(int fi, const Bytes& b, int mode, bool nested) {
  Flow& f = F(fi);
  uint32_t id = (uint32_t)f.sub.size();
  bool fault = armed_alloc || handler_armed || fault_window_;
  size_t before = ev.size();
  (void)before;
  if (!nested && armed_alloc) seam::arm_alloc(arm_k);
  Result r = f.enc->submit(b, mode);
  bool fired = false;
  if (!nested && armed_alloc) { fired = seam::alloc_fired > 0; seam::disarm_alloc(); armed_alloc = false; if (fired) { ++st.n["fault.alloc"]; } }
  if (threw || fired) { f.faulted = f.fault_enc = true; }
  Result r2;
  if (f.enc2) r2 = f.enc2->submit(b, mode);
  if (r.err == E_NONE) {
    f.sub.push_back(b);
    f.by_content.emplace(b, id);
    model_submit(f);
    int extra = 0;
    bool due = ((uint64_t)id + 1) % (uint64_t)f.rate == 0;
    extra = due ? 1 : 0;
    int base = f.sys ? 0 : 1;
    int lo = base + extra, hi = base + extra;
    if (!f.rate_known) { lo = base; hi = base + 1; }
    if (fault || f.fault_enc) { lo = 0; hi = 99; }
    check_emissions(fi, f.sys ? 1 : 0, id, lo, hi, fault || f.fault_enc);
    check_sender(fi);
  } else {
    // The call failed: find out whether the block was taken, by looking at a repair.
    if (!fault && !threw && !fired) { fail(9, "submit-failed", err_name(r.err)); fail(1, "submit-failed", err_name(r.err)); }
    if (fired && r.err != E_NOMEM) fail(16, "error-code", std::string("allocation failure reported as ") + err_name(r.err));
    if (threw && !fired && r.err != E_HANDLER) fail(17, "error", std::string("handler exception surfaced as ") + err_name(r.err));
    handler_armed = false;
    f.faulted = f.fault_enc = true;
    size_t n0 = ev.size();
    Result rr = f.enc->repair();
    bool taken = false;
    std::vector<uint32_t> ids;
    if (rr.err == E_NONE && ev.size() > n0) {
      ref::Packet p;
      if (parse(f, ev.back().b, p)) { ids = p.ids; taken = !p.ids.empty() && p.ids.back() == id; }
    }
    if (taken) { f.sub.push_back(b); f.by_content.emplace(b, id); model_submit(f); }
    // Some datagrams of the failed call may have been handed over before.
    for (auto& e : ev) if (!e.deliver && e.flow == fi && e.dir == 0 && !e.thrown) {
      e.thrown = true;
      ref::Packet p;
      if (parse(f, e.b, p) && p.type == ref::REPAIR) f.next_rid = std::max(f.next_rid, p.id + 1);
      if (parse(f, e.b, p) && p.type == ref::SOURCE && p.id == id && !taken) fail(want, "source-sent-but-not-kept", "source " + S(id) + " was sent but is not in the window");
    }
    if (!(ids.size() == f.win.size() && std::equal(ids.begin(), ids.end(), f.win.begin())))
      fail(want == 17 ? 17 : 16, "accepted-block-lost", "after a failed submission the window is not what was accepted: " + S((int64_t)ids.size()) + " ids listed, " + S((int64_t)f.win.size()) + " expected");
  }
  if (f.enc2) twin_compare(fi, "submit", r, r2);
  return r;
}

void World::do_submit(int fi, int64_t size, int style, uint64_t salt, int mode) {
  Flow& f = F(fi);
  Bytes b = content(f, size, style, salt);
  note("submit " + S(fi) + " " + S((int64_t)b.size()));
  Result r = raw_submit(fi, b, mode, false);
  note(std::string("-> ") + err_name(r.err) + " " + S((int64_t)f.enc->window()));
  check_counters(fi);
}

void World::do_repair(int fi) {
  Flow& f = F(fi);
  note("force-repair " + S(fi));
  bool fault = armed_alloc || handler_armed;
  if (armed_alloc) seam::arm_alloc(arm_k);
  Result r = f.enc->repair();
  bool fired = false;
  if (armed_alloc) { fired = seam::alloc_fired > 0; seam::disarm_alloc(); armed_alloc = false; if (fired) ++st.n["fault.alloc"]; }
  handler_armed = false;
  if (threw || fired) { f.faulted = f.fault_enc = true; }
  Result r2;
  if (f.enc2) r2 = f.enc2->repair();
  if (r.err != E_NONE) {
    if (!threw && !fired) { fail(9, "repair-failed", err_name(r.err)); fail(13, "repair-failed", err_name(r.err)); }
    if (fired && r.err != E_NOMEM) fail(16, "error-code", err_name(r.err));
    if (threw && !fired && r.err != E_HANDLER) fail(17, "error", err_name(r.err));
  }
  int n = f.win.empty() ? 0 : 1;
  if (f.win.empty()) ++st.n["probe.repair_on_empty_window"];
  bool relaxed = fault || f.fault_enc;
  check_emissions(fi, 0, 0, relaxed ? 0 : n, relaxed ? 99 : n, relaxed);
  check_sender(fi);
  if (f.enc2) twin_compare(fi, "repair", r, r2);
  check_counters(fi);
}

// ------------------------------------------------------------------------------------ receiver side
void World::delivered_block(int fi, const Event& e, const ref::Packet* cur) {
  (void)cur;
  Flow& f = F(fi);
  if (!e.aligned) fail(23, "misaligned", "block of " + S((int64_t)e.b.size()) + " bytes");
  if (f.forged) return;
  auto it = f.by_content.find(e.b);
  if (it == f.by_content.end()) { fail(1, "not-submitted", "delivered " + hexs(e.b, 48) + " which was never submitted"); return; }
  uint32_t id = it->second;
  RxModel& m = f.rx;
  m.grow(id);
  if (f.excused.size() <= id) f.excused.resize(id + 64, 0);
  if (m.delivered[id] && !f.excused[id]) fail(2, "duplicate", "block " + S(id) + " delivered again");
  if (f.cfg.in_order) {
    if ((int64_t)id <= m.last_delivered && !f.excused[id]) fail(3, "order", "block " + S(id) + " after block " + S(m.last_delivered));
    for (int64_t j = m.last_delivered + 1; j < (int64_t)id; ++j) {
      bool ex = (size_t)j < f.excused.size() && f.excused[(size_t)j];
      if (!m.dl((uint32_t)j) && (uint32_t)j >= m.L && !ex) { fail(3, "skip", "block " + S(id) + " delivered while block " + S(j) + " is still covered by the sender (oldest covered " + S(m.L) + ")"); break; }
      if (!m.dl((uint32_t)j)) ++st.n["probe.inorder_skip"];
    }
    m.last_delivered = std::max(m.last_delivered, (int64_t)id);
  }
  if (!m.delivered[id] && !m.got_source[id]) { ++m.delivered_decoded; ++st.n["probe.rebuilt"]; }
  m.delivered[id] = 1;
  if (m.ambiguous && !m.known[id] && id >= m.L) m.observe(id);
  if (e.thrown) f.excused[id] = 1;
}

void World::check_one_ack(int fi, const Bytes& b, bool forced, const std::vector<uint8_t>& known_before, uint32_t L, const ref::Packet* cur) {
  (void)cur;
  Flow& f = F(fi);
  ++f.tx_acks;
  ref::Packet p;
  if (!ref::parse(b, p) || (f.cfg.dec_kind != 2 && p.used != b.size()) || p.type != ref::ACK) {
    fail(7, "malformed-ack", hexs(b, 64));
    fail(10, "malformed-ack", hexs(b, 64));
    return;
  }
  if (f.cfg.dec_kind != 2 && ref::serialize(p) != b) fail(10, "ack-not-canonical", hexs(b, 64) + " expected " + hexs(ref::serialize(p), 64));
  parse(f, b, p);
  if (f.forged) return;
  uint32_t prev = 0;
  bool first = true;
  for (auto id : p.ids) {
    if (!first && id <= prev) fail(7, "unsorted", "ids not increasing");
    first = false;
    prev = id;
    if (id >= f.sub.size()) { fail(7, "unknown-id", "ack lists " + S(id) + " but only " + S((int64_t)f.sub.size()) + " blocks exist"); return; }
    if (f.acked.size() <= id) f.acked.resize(id + 256, 0);
    f.acked[id] = 1;
    bool held = f.rx.dl(id);
    if (!held && f.cfg.in_order) {
      held = (id < f.rx.got_source.size() && f.rx.got_source[id]) || f.rx.kn(id);
      if (!held && ck(7)) {
        // upper bound: everything that could be deduced from all packets given so far
        std::vector<std::map<uint32_t, uint32_t>> rows;
        for (auto& r : f.rx.all_repairs) {
          std::map<uint32_t, uint32_t> row;
          for (auto x : r.second) if (!(x < f.rx.got_source.size() && f.rx.got_source[x])) row[x] = ref::field(f.cfg.w).coef(r.first, x + f.rx.sid0);
          if (!row.empty()) rows.push_back(row);
        }
        auto d = ref::determined(f.cfg.w, rows);
        held = std::find(d.begin(), d.end(), id) != d.end();
      }
    }
    if (!held && !f.faulted) { fail(7, "acked-but-not-held", "ack lists " + S(id) + " which the receiver neither delivered nor holds"); return; }
  }
  if (f.faulted) return;
  if (f.cfg.dec_kind != 2) {
    size_t k = 0;
    for (uint32_t id = L; id < known_before.size(); ++id) {
      if (!known_before[id]) continue;
      while (k < p.ids.size() && p.ids[k] < id) ++k;
      if (k == p.ids.size() || p.ids[k] != id) { fail(7, "held-but-not-acked", "block " + S(id) + " is held but not listed" + (forced ? " (forced ack)" : "")); break; }
    }
    if (p.nb_packets != std::min<uint64_t>(f.rx_since_ack, 65535)) fail(7, "packet-count", "ack counts " + S(p.nb_packets) + " packets, " + S((int64_t)f.rx_since_ack) + " were received since the previous one");
  }
  if (p.ids.size() > 1 && p.ids.back() - p.ids.front() + 1 != p.ids.size()) ++st.n["probe.sparse_ack"];
}

// Walks through the events of one receiver call in order.
void World::check_receiver_events(int fi, const ref::Packet* p, bool from_packet, bool fault) {
  Flow& f = F(fi);
  bool any_ack = false;
  for (auto& e : ev) if (!e.deliver && e.flow == fi && e.dir == 1) any_ack = true;
  std::vector<uint8_t> before;
  if (any_ack) before = f.rx.known;
  if (from_packet && p && !f.forged) {
    f.rx.newly.clear();
    if (p->type == ref::SOURCE) { ++f.rx.rx_sources; f.rx.source(p->id); }
    else { ++f.rx.rx_repairs; f.rx.repair(p->id, p->ids); }
  }
  if (from_packet) ++f.rx_since_ack;
  bool exact = !fault && !f.faulted && f.cfg.dec_kind != 2;
  int due = 0; // 0 nothing expected, 1 ack expected next, -1 no ack allowed
  due = -1;
  for (auto& e : ev) {
    if (e.flow != fi || (!e.deliver && e.dir == 0)) continue;
    if (e.deliver) {
      if (exact && due == 1) fail(11, "ack-missing", "an ack was due before the next block at t=" + S(e.t));
      delivered_block(fi, e, p);
      due = ((int64_t)f.rx_since_ack >= f.nb || (f.period != 0 && (e.t - f.last_ack) / 1000000 >= f.period)) ? 1 : -1;
      if (due == 1) ++st.n[(int64_t)f.rx_since_ack >= f.nb ? "probe.ack_by_count" : "probe.ack_by_period"];
    } else {
      if (exact && due != 1) fail(11, "ack-unexpected", "ack after " + S((int64_t)f.rx_since_ack) + "/" + S(f.nb) + " packets and " + S((e.t - f.last_ack) / 1000) + "us/" + S(f.period) + "ms");
      check_one_ack(fi, e.b, false, before, f.rx.L, p);
      f.rx_since_ack = 0;
      f.last_ack = e.t;
      due = -1;
    }
  }
  if (exact && due == 1) fail(11, "ack-missing", "an ack was due after " + S((int64_t)f.rx_since_ack) + "/" + S(f.nb) + " packets");
  if (!f.as.buf.empty()) { fail(9, "unterminated-datagram", "ack bytes without end mark"); f.as.buf.clear(); }
  if (!fault && !f.faulted) must_deliver(fi, true);
}

void World::must_deliver(int fi, bool) {
  Flow& f = F(fi);
  if (f.forged) return;
  RxModel& m = f.rx;
  if (!f.cfg.in_order) {
    for (auto id : m.newly) if (!m.dl(id)) {
      if (m.kn(id) == 1) fail(4, "withheld", "received block " + S(id) + " was not delivered");
      else fail(5, "not-recovered", "block " + S(id) + " is determined by what was received (w=" + S(f.cfg.w) + ") but was not delivered");
    }
    return;
  }
  while (m.next < m.L || m.kn(m.next)) {
    uint32_t id = m.next;
    if (m.kn(id) && !m.dl(id)) {
      if (m.kn(id) == 1) fail(4, "withheld", "received block " + S(id) + " was not delivered although all earlier ones were or are given up");
      else fail(5, "not-recovered", "block " + S(id) + " is determined by what was received (w=" + S(f.cfg.w) + ") but was not delivered");
    }
    ++m.next;
  }
}

void World::do_ack(int fi, bool forced) {
  Flow& f = F(fi);
  if (!forced && (f.cfg.dec_kind != 0 || f.cfg.twin)) return;
  note((forced ? "force-ack " : "maybe-ack ") + S(fi));
  bool fault = armed_alloc || handler_armed;
  if (armed_alloc) seam::arm_alloc(arm_k);
  Result r = forced ? f.dec->ack() : f.dec->maybe();
  bool fired = false;
  if (armed_alloc) { fired = seam::alloc_fired > 0; seam::disarm_alloc(); armed_alloc = false; if (fired) ++st.n["fault.alloc"]; }
  handler_armed = false;
  if (threw || fired) { f.faulted = f.fault_dec = true; }
  Result r2;
  if (f.dec2) r2 = f.dec2->ack();
  if (r.err != E_NONE) {
    if (!threw && !fired) fail(7, "ack-failed", err_name(r.err));
    if (fired && r.err != E_NOMEM) fail(16, "error-code", err_name(r.err));
    if (threw && !fired && r.err != E_HANDLER) fail(17, "error", err_name(r.err));
  }
  int n = 0;
  bool exact = !fault && !f.faulted && f.cfg.dec_kind != 2;
  bool due = (int64_t)f.rx_since_ack >= f.nb || (f.period != 0 && (seam::mono_ns - f.last_ack) / 1000000 >= f.period);
  std::vector<uint8_t> before = f.rx.known;
  for (auto& e : ev) {
    if (e.flow != fi) continue;
    if (e.deliver) { if (!f.faulted) fail(11, "delivery-on-ack", "asking for an ack delivered a block"); delivered_block(fi, e, nullptr); continue; }
    if (e.dir != 1) continue;
    ++n;
    check_one_ack(fi, e.b, true, before, f.rx.L, nullptr);
    f.rx_since_ack = 0;
    if (!forced) f.last_ack = seam::mono_ns;
  }
  if (exact && forced && n != 1) { fail(7, "forced-ack", "a forced ack emitted " + S(n) + " datagrams"); fail(11, "forced-ack", "a forced ack emitted " + S(n) + " datagrams"); }
  if (exact && !forced && n != (due ? 1 : 0)) fail(11, due ? "ack-missing" : "ack-unexpected", "maybe_ack with " + S((int64_t)f.rx_since_ack) + "/" + S(f.nb) + " packets");
  if (f.dec2) twin_compare(fi, "ack", r, r2);
  check_counters(fi);
}

void World::do_feed(int fi, int dir, const Bytes& b, int mode, bool intact, bool padded, size_t true_len, bool forged, bool misroute) {
  Flow& f = F(fi);
  if (b.empty()) return;
  // a receiver that joins in the middle of an ordered session starts at the first repair it gets
  if (f.cfg.sid0 && f.cfg.in_order && dir == 0 && b[0] == 2 && f.rx.all_repairs.empty()) { ++st.n["fault.loss"]; return; }
  int g = cfg.peer(fi);
  bool to_dec = (dir == 0) != misroute;
  bool disp = f.cfg.dispatch && !misroute && g >= 0 && !f.cfg.twin;
  Enc* de = nullptr; Dec* dd = nullptr; int ef = fi, df = fi;
  if (disp) {
    if (dir == 0) { ef = g; df = fi; } else { ef = fi; df = g; }
    de = F(ef).enc.get(); dd = F(df).dec.get();
    if (F(ef).cfg.enc_kind != 0 || F(df).cfg.dec_kind != 0) disp = false;
  }
  if (b.size() > 65535 && ((to_dec && f.cfg.dec_kind == 1) || (!to_dec && f.cfg.enc_kind == 1) || f.cfg.twin)) return; // the C interface cannot carry it
  ref::Packet p;
  bool ok = parse(f, b, p);
  bool foreign = !intact && ok;      // parses, but nobody sent it: contents are arbitrary
  int reach = -1;                    // which object the packet reaches: 0 receiver, 1 sender
  if (disp) reach = p.type == ref::ACK ? 1 : (p.type == ref::BAD ? -1 : 0);
  else reach = to_dec ? 0 : 1;
  if (b.size() && (uint8_t)b[0] > 2) reach = disp ? -1 : reach;
  int rf = disp ? (reach == 1 ? ef : df) : fi;   // flow whose object is reached
  if (foreign && reach == 0 && p.type != ref::ACK) { F(rf).forged = true; ++st.n["probe.forged_accepted"]; }
  if (foreign && reach == 1 && p.type == ref::ACK) { F(rf).forged_ack = true; ++st.n["probe.forged_accepted"]; }
  note("feed " + S(fi) + " " + S(dir) + " " + S((int64_t)b.size()) + (intact ? "" : " damaged") + (misroute ? " misrouted" : ""));
  bool fault = armed_alloc || handler_armed;
  fault_window_ = fault;
  const int64_t t0 = seam::mono_ns, w0 = seam::wall_ns;
  if (armed_alloc) seam::arm_alloc(arm_k);
  Result r = disp ? de->dispatch(*dd, b) : to_dec ? f.dec->feed(b, mode) : f.enc->feed(b, mode);
  bool fired = false;
  if (armed_alloc) { fired = seam::alloc_fired > 0; seam::disarm_alloc(); armed_alloc = false; if (fired) ++st.n["fault.alloc"]; }
  handler_armed = false;
  fault_window_ = false;
  Flow& R = F(rf);
  if (threw || fired) { R.faulted = true; if (reach == 1) R.fault_enc = true; else R.fault_dec = true; }
  Result r2;
  if (f.cfg.twin) { // the twin lives through the same instants
    const int64_t t1 = seam::mono_ns, w1 = seam::wall_ns;
    seam::mono_ns = t0; seam::wall_ns = w0;
    r2 = to_dec ? f.dec2->feed(b, mode) : f.enc2->feed(b, mode);
    seam::mono_ns = t1; seam::wall_ns = w1;
  }
  note(std::string("-> ") + err_name(r.err) + " " + S((int64_t)r.n));

  // What must the call report?
  bool type_ok = ok && ((reach == 0 && p.type != ref::ACK) || (reach == 1 && p.type == ref::ACK));
  if (threw || fired) {
    if (r.err != E_NONE) {
      if (fired && r.err != E_NOMEM) fail(16, "error-code", std::string("allocation failure reported as ") + err_name(r.err));
      if (threw && !fired && r.err != E_HANDLER) fail(17, "error", std::string("handler exception surfaced as ") + err_name(r.err));
      if (r.n != 0) fail(16, "result", "failed call returned " + S((int64_t)r.n));
    } else if (threw) fail(17, "swallowed", "the handler's exception did not reach the caller");
  } else if (intact && type_ok) {
    if (r.err != E_NONE) {
      fail(14, "rejected", std::string("valid packet rejected: ") + err_name(r.err));
      fail(4, "rejected", std::string("valid packet rejected: ") + err_name(r.err));
      fail(10, "rejected", std::string("valid packet rejected: ") + err_name(r.err));
    } else if (r.n != true_len && !(reach == 0 ? R.cfg.dec_kind == 2 : R.cfg.enc_kind == 2)) fail(14, padded ? "consumed-padded" : "consumed", "returned " + S((int64_t)r.n) + " for a packet of " + S((int64_t)true_len) + " bytes");
  } else if (!foreign || !type_ok) {
    // unknown type, wrong side, or truncated
    Err want_err;
    uint8_t t = (uint8_t)b[0];
    bool wrong_side = (reach == 0 && t == 0) || (reach == 1 && (t == 1 || t == 2));
    want_err = (t > 2 || wrong_side) ? E_TYPE : E_OVERFLOW;
    int prop = wrong_side && misroute ? 14 : 13;
    if (r.err != want_err) { fail(prop, "error", std::string("expected ") + err_name(want_err) + ", got " + err_name(r.err)); if (prop == 13 && t > 2) fail(14, "error", std::string("expected ") + err_name(want_err) + ", got " + err_name(r.err)); }
    if (r.n != 0) fail(prop, "result", "returned " + S((int64_t)r.n));
    if (r.err == E_TYPE && r.has_back && r.back != b) for (int q : {13, 14}) fail(q, "error-packet", "the packet type error carries " + hexs(r.back, 24) + " instead of the rejected packet " + hexs(b, 24));
    if (!ev.empty()) fail(prop, "side-effect", ev[0].deliver ? "a rejected packet led to a delivery" : "a rejected packet led to an emission");
    ++st.n[misroute ? "fault.misrouted" : "fault.rejected"];
    if (f.cfg.twin) twin_compare(fi, "feed", r, r2);
    // nothing may have changed
    check_sender(ef);
    check_counters(ef);
    check_counters(df);
    if (!disp) check_counters(fi);
    ev.clear();
    return;
  }
  if (reach == 0) {
    bool applied = type_ok;
    for (auto& e : ev) if (e.deliver && e.flow == rf && e.thrown) {}
    check_receiver_events(rf, &p, applied && (r.err == E_NONE || fault), fault || threw || fired);
    if (applied && p.type == ref::REPAIR && R.rx.eqs.size() > 1) ++st.n["probe.pending_repairs"];
  } else if (reach == 1) {
    if (type_ok && r.err == E_NONE) {
      ++R.rx_acks;
      std::vector<uint32_t> ids = p.ids;
      std::sort(ids.begin(), ids.end()); // anything but sorted when forged
      std::deque<uint32_t> keep;
      for (auto id : R.win) if (!std::binary_search(ids.begin(), ids.end(), id)) keep.push_back(id);
      if (keep.size() == R.win.size()) ++st.n["probe.ack_changes_nothing"];
      R.win.swap(keep);
      if (R.adaptive) {
        double x;
        bool fifty;
        if (R.sent_since == 0) { fifty = true; x = 0; }
        else {
          double loss = ((double)R.sent_since - (double)p.nb_packets) / (double)R.sent_since;
          fifty = loss < 0.01;
          x = fifty ? 0 : (1 / loss) / 2;
        }
        int64_t lo = fifty ? 50 : (int64_t)std::ceil(x - 1e-9), hi = fifty ? 50 : (int64_t)std::ceil(x + 1e-9);
        R.rate = fifty ? 50 : (int64_t)std::ceil(x);
        R.rate_known = true;
        if (lo != hi) {
          EncStats s = R.enc->stats();
          if (s.has) { if ((int64_t)s.rate == lo || (int64_t)s.rate == hi) R.rate = (int64_t)s.rate; }
          else R.rate_known = false;
        }
        if (!fifty) ++st.n["probe.adaptive_loss"];
      }
      R.sent_since = 0;
    }
    for (auto& e : ev) if (e.flow == rf && !e.deliver && e.dir == 0 && !R.faulted) fail(9, "emission-on-ack", "an ack made the sender emit a datagram");
    if ((threw || fired) && r.err != E_NONE && type_ok) {
      // The ack may or may not have been applied: the next one will tell; resynchronise on the real window.
      Result rr = R.enc->repair();
      (void)rr;
      ref::Packet q;
      std::deque<uint32_t> now;
      if (!ev.empty() && parse(R, ev.back().b, q) && q.type == ref::REPAIR) { now.assign(q.ids.begin(), q.ids.end()); R.next_rid = std::max(R.next_rid, q.id + 1); }
      for (auto id : R.win) if (std::find(now.begin(), now.end(), id) == now.end() && !std::binary_search(p.ids.begin(), p.ids.end(), id))
        fail(want == 17 ? 17 : 16, "accepted-block-lost", "block " + S(id) + " left the window although no ack listed it");
      R.win = now;
      for (auto& e : ev) e.thrown = true;
    }
    check_sender(rf);
  }
  if (f.cfg.twin) twin_compare(fi, "feed", r, r2);
  check_counters(rf);
}

void World::do_cfg(int fi, int what, int64_t val) {
  Flow& f = F(fi);
  note("cfg " + S(fi) + " " + S(what) + " " + S(val));
  for (Enc* e : {f.enc.get(), f.enc2.get()}) {
    if (!e) continue;
    switch (what) {
      case 0: e->set_rate((size_t)std::max<int64_t>(1, val)); break;
      case 1: e->set_window((size_t)std::max<int64_t>(1, val)); break;
      case 2: e->set_systematic(val != 0); break;
      case 3: e->set_adaptive(val != 0); break;
    }
  }
  for (Dec* d : {f.dec.get(), f.dec2.get()}) {
    if (!d) continue;
    if (what == 4) d->set_period(std::max<int64_t>(0, val));
    if (what == 5) d->set_nb((int)std::min<int64_t>(65535, std::max<int64_t>(1, val)));
  }
  switch (what) {
    case 0: f.rate = std::max<int64_t>(1, val); f.rate_known = true; break;
    case 1: f.wlimit = std::max<int64_t>(1, val); break;
    case 2: f.sys = val != 0; break;
    case 3: f.adaptive = val != 0; break;
    case 4: f.period = std::max<int64_t>(0, val); break;
    case 5: f.nb = (int)std::min<int64_t>(128, std::max<int64_t>(1, val)); break;
  }
  ++st.n["event.reconfigure"];
  if (!ev.empty()) fail(9, "emission-on-configuration", "changing the configuration emitted a datagram");
  check_sender(fi);
}

void World::restart(int fi) {
  Flow& f = F(fi);
  if (f.cfg.twin) return;
  note("restart receiver " + S(fi));
  f.dec.reset();
  f.as.buf.clear();
  build(f, fi, false, true);
  f.excused.clear();
  ++f.restarts;
  f.forged = false;
  ++st.n["fault.receiver_restart"];
}

// Faults have stopped. Lossless rounds; everything in the window must get through.
void World::do_drain(int fi, int style, int64_t) {
  Flow& f = F(fi);
  if (f.forged || f.forged_ack) return;
  note("drain " + S(fi));
  ++st.n["event.drain"];
  auto step_all = [&](size_t from0) {
    // deliver what was just emitted, then the acks
    for (size_t i = from0; i < f.link[0].size() && !bad(); ++i) { ev.clear(); Bytes b = f.link[0][i]; size_t a0 = f.link[1].size(); do_feed(fi, 0, b, 0, true, false, b.size(), false, false);
      for (size_t k = a0; k < f.link[1].size() && !bad(); ++k) { ev.clear(); Bytes c = f.link[1][k]; do_feed(fi, 1, c, 0, true, false, c.size(), false, false); } }
  };
  handler_armed = false; armed_alloc = false; threw = false;
  if (f.faulted || style == 1) { ev.clear(); size_t l0 = f.link[0].size(); do_submit(fi, 8, 0, mix64(cfg.seed ^ 0xD1A1, f.sub.size()), 0); step_all(l0); }
  // one round to learn what the receiver holds
  std::vector<uint32_t> missing;
  for (auto id : f.win) if (!f.rx.kn(id) || f.faulted) missing.push_back(id);
  std::vector<uint32_t> start(f.win.begin(), f.win.end());
  // How many fresh repairs does a correct sender need? (reference rank over the missing blocks)
  size_t need = 0;
  bool decidable = true;
  if (missing.size() > 150) decidable = false;
  else if (!missing.empty()) {
    ref::Elim el(f.cfg.w, missing.size());
    decidable = false;
    for (size_t i = 0; i < missing.size() * 3 + 60; ++i) {
      std::vector<uint32_t> row;
      for (auto id : missing) row.push_back(ref::field(f.cfg.w).coef(f.next_rid + (uint32_t)i, id + f.rx.sid0));
      el.add(std::move(row));
      if (el.rank() == missing.size()) { need = i + 1; decidable = true; break; }
    }
  }
  if (!decidable) ++st.n["probe.drain_undecidable"];
  size_t cap = decidable ? need + 2 + (f.faulted ? 3 * missing.size() + 20 : 0) : 0;
  size_t rounds = 0;
  for (; rounds < cap && !bad(); ++rounds) {
    if (f.enc->window() == 0 && rounds > 0) break;
    ev.clear();
    size_t l0 = f.link[0].size();
    do_repair(fi);
    bool heard = f.link[0].size() > l0;
    step_all(l0);
    if (bad()) return;
    ev.clear();
    if (!heard) continue;            // a receiver that hears nothing has nothing to acknowledge
    size_t a0 = f.link[1].size();
    do_ack(fi, true);
    for (size_t k = a0; k < f.link[1].size() && !bad(); ++k) { ev.clear(); Bytes c = f.link[1][k]; do_feed(fi, 1, c, 0, true, false, c.size(), false, false); }
  }
  st.n["drain.rounds"] += rounds;
  if (bad() || !decidable) return;
  if (f.restarts) { ++st.n["probe.drain_after_restart"]; return; }
  for (auto id : start) {
    bool ex = id < f.excused.size() && f.excused[id];
    if (!f.rx.dl(id) && !ex) {
      fail(6, "stuck-block", "block " + S(id) + " still not delivered after " + S((int64_t)rounds) + " lossless rounds (" + S((int64_t)missing.size()) + " were missing)");
      return;
    }
  }
  if (f.enc->window() != 0) fail(6, "stuck-window", "window still holds " + S((int64_t)f.enc->window()) + " blocks after " + S((int64_t)rounds) + " lossless rounds");
}

// Repairs forced while nothing gets through: identifiers grow.
void World::do_burn(int fi, int64_t n) {
  Flow& f = F(fi);
  if (f.enc2 || f.faulted || f.win.empty()) return;
  note("burn " + S(fi) + " " + S(n));
  ++st.n["event.burn"];
  for (int64_t i = 0; i < n && !bad(); ++i) {
    size_t l0 = f.link[0].size();
    ev.clear();
    Result r = f.enc->repair();
    if (r.err != E_NONE || f.link[0].size() != l0 + 1) { fail(9, "repair-cadence", "a forced repair emitted " + S((int64_t)(f.link[0].size() - l0)) + " datagrams"); return; }
    f.link[0].pop_back();
    ++f.next_rid; ++f.tx_repairs; ++f.sent_since;
  }
  ev.clear();
}

void World::do_marathon(int fi, int64_t n, int deliver) {
  Flow& f = F(fi);
  if (n > 200000) n = 200000;
  note("marathon " + S(fi) + " " + S(n) + " " + S(deliver));
  ++st.n["event.marathon"];
  for (int64_t i = 0; i < n && !bad(); ++i) {
    ev.clear();
    Bytes b(8, 0);
    uint64_t x = mix64(0xABCDEF, f.sub.size());
    memcpy(&b[0], &x, 8);
    size_t l0 = f.link[0].size();
    raw_submit(fi, b, 0, false);
    size_t a0 = f.link[1].size();
    for (size_t k = l0; k < f.link[0].size(); ++k) {
      if (deliver && (deliver != 3 || (mix64(0x10551055, f.sub.size()) & 1)) && (deliver != 4 || f.link[0][k][0] == 1)) { ev.clear(); Bytes c = f.link[0][k]; do_feed(fi, 0, c, 0, true, false, c.size(), false, false); }
      Bytes().swap(f.link[0][k]);
    }
    for (size_t k = a0; k < f.link[1].size(); ++k) {
      if ((deliver == 2 || deliver == 4) && !bad()) { ev.clear(); Bytes c = f.link[1][k]; do_feed(fi, 1, c, 0, true, false, c.size(), false, false); }
      Bytes().swap(f.link[1][k]);
    }
  }
}

// the same datagram arrives again and again
void World::do_flood(int fi, int dir, int64_t idx, int64_t n) {
  Flow& f = F(fi);
  if (idx < 0 || idx >= (int64_t)f.link[dir].size() || f.link[dir][(size_t)idx].empty()) return;
  const Bytes b = f.link[dir][(size_t)idx];
  if ((uint8_t)b[0] != 2 && n > 3000) n = 3000;
  if (b.size() > 2000 && n > 3000) n = 3000;
  if (n > 70000) n = 70000;
  note("flood " + S(fi) + " " + S(dir) + " " + S(n));
  ++st.n["event.flood"];
  for (int64_t i = 0; i < n && !bad(); ++i) { ev.clear(); ++st.n["fault.duplicate"]; do_feed(fi, dir, b, 0, true, false, b.size(), false, false); }
}

void World::exec(const Op& op) {
  if (bad()) return;
  ++opno;
  ++st.ops;
  ev.clear();
  if (op.k != 'F' && op.k != 'H') threw = false;
  auto a = op.a;
  switch (op.k) {
    case 'A': seam::mono_ns += a[0]; seam::wall_ns += a[0]; st.sim_ns += a[0]; return;
    case 'J': seam::wall_ns += a[0]; ++st.n["fault.wall_clock_jump"]; return;
    case 'F': armed_alloc = any_fired = true; arm_k = a[0]; return;
    case 'N': { // constructors under allocation failure
      Err e = E_NONE;
      struct NullP : PacketSink { void chunk(const char*, size_t) override {} void end() override {} } np;
      struct NullD : DataSink { void data(const char*, size_t) override {} } nd;
      int w = (int)a[1];
      if (w != 4 && w != 8 && w != 16 && w != 32) return;
      seam::arm_alloc(a[2]);
      std::unique_ptr<Enc> en; std::unique_ptr<Dec> de;
      switch (a[0]) { case 0: en = make_enc_cpp(w, np, e); break; case 1: en = make_enc_c(w, np, e); break;
        case 2: de = make_dec_cpp(w, true, np, nd, e); break; default: de = make_dec_c(w, true, np, nd, e); }
      bool fired = seam::alloc_fired > 0;
      seam::disarm_alloc();
      if (fired) ++st.n["fault.alloc"];
      if (!fired && e != E_NONE) fail(16, "constructor", "construction failed without cause");
      return;
    }
    default: break;
  }
  if (!valid(a[0])) return;
  int fi = (int)a[0];
  Flow& f = F(fi);
  switch (op.k) {
    case 'H': handler_armed = true; throw_flow = fi; throw_kind = a[1]; throw_at = a[2]; calls_seen = 0; threw = false;
      // the C interface takes C callbacks, which cannot throw
      if ((a[1] == 0 && f.cfg.enc_kind != 0) || (a[1] != 0 && f.cfg.dec_kind != 0)) handler_armed = false;
      return;
    case 'S': do_submit(fi, a[1], (int)a[2], (uint64_t)a[3], (int)a[4]); break;
    case 'R': do_repair(fi); break;
    case 'K': do_ack(fi, true); break;
    case 'M': do_ack(fi, false); break;
    case 'C': do_cfg(fi, (int)a[1], a[2]); break;
    case 'V': restart(fi); break;
    case 'Z': do_drain(fi, (int)a[1], a[2]); break;
    case 'B': do_burn(fi, std::min<int64_t>(a[1], 200000)); break;
    case 'E': do_flood(fi, (int)(a[1] & 1), a[2], a[3]); break;
    case 'Y': do_marathon(fi, a[1], (int)a[2]); break;
    case 'D': case 'T': case 'X': case 'P': case 'W': {
      int dir = a[1] & 1;
      if (a[2] < 0 || a[2] >= (int64_t)f.link[dir].size()) break;
      Bytes b = f.link[dir][(size_t)a[2]];
      if (b.empty()) break;
      size_t len = b.size();
      if (op.k == 'D') { ++st.n["net.delivered"]; do_feed(fi, dir, b, (int)a[3], true, false, len, false, false); }
      else if (op.k == 'W') do_feed(fi, dir, b, (int)a[3], true, false, len, false, true);
      else if (op.k == 'P') {
        ++st.n["fault.trailing_bytes"];
        Rng r((uint64_t)a[4]);
        if (a[3] < 0) { size_t o = (size_t)(-a[3]) - 1; if (o < f.link[dir].size()) b += f.link[dir][o]; } // another datagram follows
        else for (int64_t i = 0; i < a[3]; ++i) b.push_back((char)r.next());
        do_feed(fi, dir, b, (int)(a[4] & 3), true, true, len, false, false);
      }
      else if (op.k == 'T') {
        ++st.n["fault.truncated"];
        size_t n = (size_t)a[3] % len;
        if (n == 0) n = 1;
        if (n >= len) break;
        b.resize(n);
        do_feed(fi, dir, b, (int)a[4], false, false, 0, false, false);
      } else {
        ++st.n["fault.corrupted"];
        Rng r((uint64_t)a[3]);
        int k = (int)r.below(3) + 1;
        for (int i = 0; i < k; ++i) {
          size_t at = r.chance(0.6) ? r.below(std::min<size_t>(len, 16)) : r.chance(0.5) ? len - 1 - r.below(std::min<size_t>(len, 16)) : r.below(len);
          if (r.chance(0.5)) b[at] = (char)(b[at] ^ (1 << r.below(8))); else b[at] = (char)r.next();
        }
        // keep the number of listed ids small enough to run fast
        ref::Packet q;
        if (ref::parse(b, q) && q.ids.size() > 100000) break;
        do_feed(fi, dir, b, (int)a[4], false, false, 0, true, false);
      }
      break;
    }
    case 'G': { // a datagram from a stranger
      ++st.n["fault.garbage"];
      Rng r((uint64_t)a[3]);
      Bytes b;
      int64_t n = std::max<int64_t>(1, std::min<int64_t>(a[2], 4000));
      int style = (int)r.below(7);
      if (style < 2) for (int64_t i = 0; i < n; ++i) b.push_back((char)r.next());
      else if (style == 6) { // a repair of blocks nobody submitted: sizes add up, the symbol may be cut short
        std::vector<Bytes> made; std::vector<uint32_t> ids;
        uint32_t base = (uint32_t)(f.sub.size() + r.below(3)), step = f.cfg.w >= 16 ? f.cfg.w / 8 : 1;
        int k = (int)r.range(1, 3);
        for (int i = 0; i < k; ++i) {
          uint64_t h = mix64(0xF0F0, base + (uint32_t)i);
          ids.push_back(base + (uint32_t)i);
          made.push_back(Bytes((size_t)(step * (1 + (h >> 8) % 40)), (char)h));
        }
        std::vector<std::pair<uint32_t, const Bytes*>> v;
        for (int i = 0; i < k; ++i) v.emplace_back(ids[(size_t)i], &made[(size_t)i]);
        ref::Packet p = ref::combine(f.cfg.w, (uint32_t)(r.chance(0.5) ? 1000 + r.below(64) : r.next()), v);
        if (r.chance(0.6) && p.symbol.size() > 1) p.symbol.resize(p.symbol.size() - 1 - r.below(std::min<size_t>(p.symbol.size() - 1, 12)));
        else if (r.chance(0.3)) p.symbol.resize(p.symbol.size() + r.below(9));
        b = ref::serialize_split(p, [&](uint32_t x) { return x; });
      }
      else { // well formed but never sent
        ref::Packet p;
        p.type = (ref::Type)r.below(3);
        uint32_t base = (uint32_t)(r.chance(0.7) ? r.below(f.sub.size() + 8) : r.next());
        p.id = (uint32_t)(r.chance(0.8) ? r.below(f.sub.size() + 8) : r.next());
        p.nb_packets = (uint32_t)r.below(65536);
        for (int64_t i = 0; i < n; ++i) p.symbol.push_back((char)r.next());
        if (r.chance(0.2)) p.symbol.clear();
        int k = (int)r.below(6);
        for (int i = 0; i < k; ++i) { p.ids.push_back(base); base += 1 + (uint32_t)(r.chance(0.8) ? r.below(3) : r.below(70000)); }
        p.encoded_size = r.chance(0.5) ? (uint32_t)r.next() : (uint32_t)n;
        b = ref::serialize_split(p, [&](uint32_t x) { return x; });
        if (style == 3 && b.size() > 1) b.resize(1 + r.below(b.size()));
      }
      if (b.size() > 65535) b.resize(65535);
      ref::Packet q;
      if (ref::parse(b, q) && q.ids.size() > 100000) break;
      do_feed(fi, (int)a[1] & 1, b, (int)a[4], false, false, 0, true, false);
      break;
    }
    default: break;
  }
  if (op.k != 'H') { handler_armed = false; armed_alloc = false; }
}

void World::finish() {
  if (bad()) return;
  for (size_t i = 0; i < flows.size(); ++i) {
    Flow& f = *flows[i];
    if (f.forged || f.forged_ack) continue;
    if (f.faulted) continue;
    // what was acknowledged must have been delivered once the order allows it
    for (uint32_t id = 0; id < f.acked.size() && f.restarts == 0; ++id)
      if (f.acked[id] && (!f.cfg.in_order || id < f.rx.next) && !f.rx.dl(id)) { fail(7, "acked-never-delivered", "block " + S(id) + " was acknowledged but never delivered"); break; }
  }
  if (want == 16 || want == 17) {
    flows.clear();
    if (seam::live_blocks != live_base) fail(16, "leak", S(seam::live_blocks - live_base) + " blocks allocated by the library were never freed");
  }
}

uint64_t World::state_hash() const {
  uint64_t h = 1469598103934665603ull;
  for (auto& fp : flows) {
    const Flow& f = *fp;
    uint64_t held = 0;
    uint32_t top = (uint32_t)std::min<size_t>(f.rx.known.size(), f.sub.size());
    uint64_t pat = 0;
    for (uint32_t i = f.rx.L; i < top && i < f.rx.L + 24; ++i) pat = pat * 3 + (f.rx.delivered[i] ? 2 : f.rx.known[i] ? 1 : 0);
    for (auto& e : f.rx.eqs) held = held * 31 + e.u.size();
    uint64_t v[8] = {(uint64_t)f.cfg.w, (uint64_t)f.cfg.in_order, std::min<uint64_t>(f.win.size(), 32), f.rx.eqs.size(), held, pat, (uint64_t)f.sys, (uint64_t)(f.rate > 9 ? 9 : f.rate)};
    h = hash_bytes(h, v, sizeof v);
  }
  return h;
}
}
