// Independent sender and receiver built on the reference arithmetic and wire format only (no /repo code).
#include "world.hh"
#include "seams.hh"
#include <algorithm>
#include <cmath>

namespace sim {
namespace {
struct RefEnc : Enc {
  int w; PacketSink& s; bool splits; Rng r;
  std::deque<std::pair<uint32_t, Bytes>> win;
  uint32_t sid = 0, rid = 0, sid0 = 0;
  size_t rate = 5, limit = SIZE_MAX, sent = 0;
  bool sys = true, adaptive = false;
  RefEnc(int w_, PacketSink& s_, bool sp, uint64_t seed, uint32_t rid0, uint32_t sid0_) : w(w_), s(s_), splits(sp), r(seed) { rid = rid0; sid = sid0 = sid0_; }
  bool is_c() const override { return false; }
  void emit(const ref::Packet& p) {
    Bytes b = ref::serialize_split(p, [&](uint32_t n) { return splits && n > 1 ? (uint32_t)r.range(1, n) : n; });
    ++sent;
    for (size_t o = 0; o < b.size();) { size_t n = std::min<size_t>(b.size() - o, 1 + r.below(600)); s.chunk(b.data() + o, n); o += n; }
    s.end();
  }
  Result submit(const Bytes& d, int) override {
    win.emplace_back(sid, d);
    while (win.size() > limit) win.pop_front();
    if (sys) { ref::Packet p; p.type = ref::SOURCE; p.id = sid; p.symbol = d; emit(p); } else repair();
    if (((uint64_t)(sid - sid0) + 1) % rate == 0) repair();
    ++sid;
    return Result{};
  }
  Result repair() override {
    if (win.empty()) return Result{};
    std::vector<std::pair<uint32_t, const Bytes*>> v;
    for (auto& x : win) v.emplace_back(x.first, &x.second);
    emit(ref::combine(w, rid++, v));
    return Result{};
  }
  Result feed(const Bytes& b, int) override {
    Result q; ref::Packet p;
    if ((uint8_t)b[0] != 0) { q.err = E_TYPE; return q; }
    if (!ref::parse(b, p)) { q.err = E_OVERFLOW; return q; }
    if (adaptive) {
      double loss = sent ? ((double)sent - (double)p.nb_packets) / (double)sent : 0;
      rate = loss < 0.01 ? 50 : (size_t)std::ceil((1 / loss) / 2);
    }
    sent = 0;
    std::deque<std::pair<uint32_t, Bytes>> keep;
    for (auto& x : win) if (!std::binary_search(p.ids.begin(), p.ids.end(), x.first)) keep.push_back(std::move(x));
    win.swap(keep);
    q.n = p.used;
    return q;
  }
  Result dispatch(Dec&, const Bytes&) override { return Result{}; }
  size_t window() override { return win.size(); }
  void set_systematic(bool b) override { sys = b; }
  void set_rate(size_t x) override { rate = x; }
  void set_window(size_t x) override { limit = x; }
  void set_adaptive(bool b) override { adaptive = b; }
  EncStats stats() override { return EncStats{}; }
};

struct RefDec : Dec {
  int w; bool in_order; PacketSink& s; DataSink& d; bool splits; Rng r;
  struct Eq { uint32_t rid; std::map<uint32_t, uint32_t> c; Bytes sym; uint32_t size; };
  std::map<uint32_t, Bytes> known;  // ids >= L
  std::map<uint32_t, Bytes> held;   // in order: waiting
  std::vector<Eq> eqs;
  uint32_t L = 0, next = 0, since = 0;
  int64_t period = 100, last; int nb = 50;
  RefDec(int w_, bool o, PacketSink& s_, DataSink& d_, bool sp, uint64_t seed) : w(w_), in_order(o), s(s_), d(d_), splits(sp), r(seed), last(seam::mono_ns) {}
  bool is_c() const override { return false; }
  Result ack() override {
    ref::Packet p; p.type = ref::ACK; p.nb_packets = std::min<uint32_t>(since, 65535);
    for (auto& k : known) p.ids.push_back(k.first);
    Bytes b = ref::serialize_split(p, [&](uint32_t n) { return splits && n > 1 ? (uint32_t)r.range(1, n) : n; });
    since = 0;
    s.chunk(b.data(), b.size()); s.end();
    return Result{};
  }
  Result maybe() override { return Result{}; }
  void give(const Bytes& b) {
    alignas(16) static char buf[65536];
    std::copy(b.begin(), b.end(), buf);
    d.data(buf, b.size());
    if ((int)since >= nb || (period && (seam::mono_ns - last) / 1000000 >= period)) { ack(); last = seam::mono_ns; }
  }
  void flush() { while (!held.empty() && held.begin()->first <= next) { auto it = held.begin(); Bytes b = it->second; if (it->first == next) { ++next; } held.erase(it); give(b); } }
  void learn(uint32_t id, const Bytes& b) {
    known[id] = b;
    for (auto& e : eqs) sub(e, id, b);
    if (!in_order) give(b);
    else { held[id] = b; flush(); }
  }
  void sub(Eq& e, uint32_t id, const Bytes& b) {
    auto it = e.c.find(id);
    if (it == e.c.end()) return;
    auto& f = ref::field(w);
    f.madd(e.sym, b, it->second);
    e.size ^= f.mul_size((uint32_t)b.size(), it->second);
    e.c.erase(it);
  }
  void scale_add(Eq& a, const Eq& b, uint32_t k) { // a += k*b
    auto& f = ref::field(w);
    f.madd(a.sym, b.sym, k);
    a.size ^= f.mul_size(b.size, k);
    for (auto& x : b.c) { auto& y = a.c[x.first]; y ^= f.mul(x.second, k); if (!y) a.c.erase(x.first); }
  }
  void solve() {
    auto& f = ref::field(w);
    for (;;) {
      eqs.erase(std::remove_if(eqs.begin(), eqs.end(), [](const Eq& e) { return e.c.empty(); }), eqs.end());
      size_t one = eqs.size();
      for (size_t i = 0; i < eqs.size(); ++i) if (eqs[i].c.size() == 1) { one = i; break; }
      if (one < eqs.size()) {
        Eq e = eqs[one];
        eqs.erase(eqs.begin() + (long)one);
        uint32_t iv = f.inv(e.c.begin()->second), n = f.mul_size(e.size, iv);
        Bytes b; f.madd(b, e.sym, iv); b.resize(n);
        learn(e.c.begin()->first, b);
        continue;
      }
      std::set<uint32_t> U;
      for (auto& e : eqs) for (auto& x : e.c) U.insert(x.first);
      if (eqs.empty() || U.size() > eqs.size()) return;
      // Gauss-Jordan on a copy
      std::vector<Eq> m = eqs, red;
      for (auto id : U) {
        size_t p = m.size();
        for (size_t i = 0; i < m.size(); ++i) if (m[i].c.count(id)) { p = i; break; }
        if (p == m.size()) return; // not full rank
        Eq pv = m[p];
        m.erase(m.begin() + (long)p);
        uint32_t iv = f.inv(pv.c[id]);
        for (auto& e : m) if (e.c.count(id)) scale_add(e, pv, f.mul(e.c[id], iv));
        for (auto& e : red) if (e.c.count(id)) scale_add(e, pv, f.mul(e.c[id], iv));
        red.push_back(pv);
      }
      eqs.clear();
      for (auto& e : red) {
        uint32_t iv = f.inv(e.c.begin()->second), n = f.mul_size(e.size, iv);
        Bytes b; f.madd(b, e.sym, iv); b.resize(n);
        learn(e.c.begin()->first, b);
      }
    }
  }
  Result feed(const Bytes& b, int) override {
    Result q; ref::Packet p;
    uint8_t t = (uint8_t)b[0];
    if (t != 1 && t != 2) { q.err = E_TYPE; return q; }
    if (!ref::parse(b, p)) { q.err = E_OVERFLOW; return q; }
    q.n = p.used;
    ++since;
    if (p.type == ref::SOURCE) {
      if (p.id < L || known.count(p.id)) return q;
      learn(p.id, p.symbol);
    } else {
      if (p.ids.empty() || p.ids.front() < L) return q;
      for (auto& e : eqs) if (e.rid == p.id) return q;
      L = p.ids.front();
      known.erase(known.begin(), known.lower_bound(L));
      eqs.erase(std::remove_if(eqs.begin(), eqs.end(), [&](const Eq& e) { return !e.c.empty() && e.c.begin()->first < L; }), eqs.end());
      if (in_order) {
        while (!held.empty() && held.begin()->first < L) { Bytes x = held.begin()->second; held.erase(held.begin()); give(x); }
        next = std::max(next, L);
        flush();
      }
      Eq e; e.rid = p.id; e.sym = p.symbol; e.size = p.encoded_size;
      for (auto id : p.ids) e.c[id] = ref::field(w).coef(p.id, id);
      for (auto id : p.ids) { auto it = known.find(id); if (it != known.end()) sub(e, id, it->second); }
      if (!e.c.empty()) eqs.push_back(std::move(e));
    }
    solve();
    return q;
  }
  void set_period(int64_t ms) override { period = ms; }
  void set_nb(int n) override { nb = std::min(n, 128); }
  DecStats stats() override { return DecStats{}; }
};
}
std::unique_ptr<Enc> make_enc_ref(int w, PacketSink& s, bool splits, uint64_t seed, uint32_t rid0, uint32_t sid0) { return std::unique_ptr<Enc>(new RefEnc(w, s, splits, seed, rid0, sid0)); }
std::unique_ptr<Dec> make_dec_ref(int w, bool o, PacketSink& s, DataSink& d, bool splits, uint64_t seed) { return std::unique_ptr<Dec>(new RefDec(w, o, s, d, splits, seed)); }
}
