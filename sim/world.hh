#pragma once
// The simulated world: real senders/receivers, links, clocks, and the oracles.
#include "endpoints.hh"
#include "rng.hh"
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim {

struct FlowCfg {
  int w = 8;
  int in_order = 1;
  int sys = 1;
  int64_t rate = 5;
  int64_t window = 0;     // 0: unlimited (left at its default)
  int adaptive = 0;
  int64_t period = 100;   // ms
  int nb = 50;
  int enc_kind = 0;       // 0 C++, 1 C, 2 reference peer
  int dec_kind = 0;
  int dispatch = 0;       // feed through ntc::dispatch when both local objects are C++
  int relay = -1;         // delivered blocks are submitted on that flow from inside the data handler
  int64_t handler_ns = 0; // simulated time spent in the data handler
  int twin = 0;           // run the other binding in lock step
  int splits = 0;         // reference peers use random legal run splits
  int64_t rid0 = 0;       // first repair id of a reference sender
  int64_t sid0 = 0;       // first source id of a reference sender; the models count from 0
};

struct Config {
  uint64_t seed = 0;
  std::vector<FlowCfg> flows;
  int peer(int f) const { return (f ^ 1) < (int)flows.size() ? (f ^ 1) : -1; } // duplex partner
  std::string text() const;
};

struct Op {
  char k = '?';
  int64_t a[5] = {0, 0, 0, 0, 0};
  std::string text() const;
};
bool parse_trace(const std::string& text, Config& c, std::vector<Op>& ops, std::map<std::string, std::string>& meta);
std::string trace_text(const Config& c, const std::vector<Op>& ops, const std::map<std::string, std::string>& meta);

struct Event {
  bool deliver;
  int flow, dir;     // dir 0: sender to receiver, 1: back
  Bytes b;
  bool aligned;
  int64_t t;
  bool thrown;
};

struct Violation { int prop = 0; std::string cls, detail; size_t op = 0; };

struct Stats {
  std::map<std::string, uint64_t> n;   // faults fired, probes, op kinds
  uint64_t ops = 0;
  int64_t sim_ns = 0;
  void add(const Stats& o) { for (auto& kv : o.n) n[kv.first] += kv.second; ops += o.ops; sim_ns += o.sim_ns; }
};

// Knowledge a correct receiver must have, derived only from the intact packets it was given.
struct RxModel {
  int w = 8;
  uint32_t sid0 = 0;                       // id on the wire of block 0
  uint32_t L = 0;                          // everything below was given up by the sender
  std::vector<uint8_t> known;              // 0 unknown, 1 received, 2 rebuilt
  std::vector<uint8_t> delivered;          // observed
  std::vector<uint8_t> got_source;         // a source packet with that id was given (any time)
  struct Eq { uint32_t rid; std::map<uint32_t, uint32_t> u; bool soft = false; }; // soft: may have been dropped instead of a dependent one
  std::vector<Eq> eqs;
  std::vector<std::pair<uint32_t, std::vector<uint32_t>>> all_repairs; // for the upper bound
  uint32_t next = 0;                       // in-order: first id neither delivered nor given up
  int64_t last_delivered = -1;
  uint64_t nb_known_decoded = 0, delivered_decoded = 0, useless = 0, dependent = 0;
  uint64_t rx_sources = 0, rx_repairs = 0;
  void grow(uint32_t id) { if (id >= known.size()) { size_t n = id + 1 + known.size() / 2; known.resize(n, 0); delivered.resize(n, 0); got_source.resize(n, 0); } }
  uint8_t kn(uint32_t id) const { return id < known.size() ? known[id] : 0; }
  uint8_t dl(uint32_t id) const { return id < delivered.size() ? delivered[id] : 0; }
  void source(uint32_t id);
  void repair(uint32_t rid, const std::vector<uint32_t>& ids);
  void reduce();
  void observe(uint32_t id);               // the receiver turns out to know that block
  bool ambiguous = false, ever_ambiguous = false; // which of several dependent repairs was dropped matters
  std::vector<uint32_t> newly;             // ids that became known in this call
  size_t missing() const;
};

class World;
struct Flow {
  struct ESink : PacketSink { World* w; int f; int dir; bool twin; Bytes buf; void chunk(const char*, size_t) override; void end() override; };
  struct DSink : DataSink { World* w; int f; bool twin; void data(const char*, size_t) override; };
  FlowCfg cfg;
  std::unique_ptr<Enc> enc, enc2;
  std::unique_ptr<Dec> dec, dec2;
  ESink es, es2, as, as2;
  DSink ds, ds2;
  std::vector<Bytes> out2[2]; std::vector<Bytes> del2;  // outputs of the twin, current op
  // submissions
  std::vector<Bytes> sub;
  std::unordered_map<std::string, uint32_t> by_content;
  // links
  std::vector<Bytes> link[2];
  // sender model
  std::deque<uint32_t> win;
  uint64_t evicted = 0;
  int64_t wlimit = -1;
  int64_t rate = 5; bool rate_known = true;
  bool sys = true, adaptive = false;
  uint64_t sent_since = 0;
  uint32_t next_rid = 0;
  int64_t last_rid = -1, last_sid = -1; // last ids seen on the wire
  uint64_t tx_sources = 0, tx_repairs = 0, rx_acks = 0;
  // receiver model
  RxModel rx;
  uint64_t rx_since_ack = 0;
  int64_t last_ack = 0;
  int64_t period = 100; int nb = 50;
  uint64_t tx_acks = 0;
  std::vector<uint8_t> acked;       // ids acknowledged by the receiver (any ack emitted)
  std::vector<uint8_t> excused;     // hand-over threw / failed call: may be repeated or lost
  int restarts = 0;
  bool forged = false;              // the receiver accepted a corrupted packet: its contents are no longer predictable
  bool forged_ack = false;          // the sender accepted an ack nobody sent: blocks may be given up too early
  bool faulted = false;             // an allocation failure or a handler exception happened
  bool fault_enc = false, fault_dec = false;
};

class World {
public:
  World(const Config& c, int want, Stats& st);
  ~World();
  void exec(const Op& op);            // runs one primitive operation, then the oracles
  void finish();                      // end-of-run oracles
  bool bad() const { return v.prop != 0; }
  Violation v;
  Config cfg;
  std::vector<std::unique_ptr<Flow>> flows;
  std::vector<Event> ev;              // events of the current operation
  uint64_t log = 0;                   // hash of everything observable
  bool keep_log = false;
  std::vector<std::string> logtext;
  Stats& st;
  int want;                           // property being decided
  uint64_t state_hash() const;
  size_t opno = 0;
  bool constructed = true;
  long construct_fail = 0;

  // called by sinks
  void on_emit(int f, int dir, Bytes b, bool twin);
  void on_data(int f, const char* p, size_t n, bool twin);
  void maybe_throw(int f, int kind);
  bool handler_armed = false;
  int64_t throw_at = 0, throw_kind = 0, calls_seen = 0; int throw_flow = -1; bool threw = false, any_threw = false, any_fired = false;

private:
  void fail(int prop, const std::string& cls, const std::string& detail);
  bool ck(int p) const { return want == p; }
  void note(const std::string& s);
  Bytes content(Flow& f, int64_t size, int style, uint64_t salt);
  void do_submit(int f, int64_t size, int style, uint64_t salt, int mode);
  Result raw_submit(int f, const Bytes& b, int mode, bool nested);
  void do_feed(int f, int dir, const Bytes& b, int mode, bool intact, bool padded, size_t true_len, bool forged, bool misroute);
  void do_repair(int f);
  void do_burn(int f, int64_t n);
  void do_ack(int f, bool forced);
  void do_cfg(int f, int what, int64_t v);
  void do_drain(int f, int style, int64_t cap);
  void do_marathon(int f, int64_t n, int deliver);
  void do_flood(int fi, int dir, int64_t idx, int64_t n);
  void restart(int f);
  void build(Flow& f, int i, bool enc, bool dec);
  // oracles
  void enc_pre(Flow& f);
  void check_emissions(int f, int exp_src, uint32_t src_id, int min_rep, int max_rep, bool fault);
  void model_submit(Flow& f);
  void check_sender(int f);
  static bool parse(const Flow& f, const Bytes& b, ref::Packet& p); // ids counted from the flow's first
  void check_repair_bytes(Flow& f, int fi, const Bytes& b);
  void check_receiver_events(int f, const ref::Packet* p, bool from_packet, bool fault);
  void check_acks_only(int f, bool forced, bool fault);
  void check_one_ack(int f, const Bytes& b, bool forced, const std::vector<uint8_t>& known_before, uint32_t L, const ref::Packet* cur);
  void must_deliver(int f, bool strict);
  void check_counters(int f);
  void twin_compare(int f, const char* what, const Result& a, const Result& b);
  void delivered_block(int f, const Event& e, const ref::Packet* cur);
  bool fault_window_ = false;
  uint32_t upper_L(Flow& f) { return f.rx.L; }
  Flow& F(int64_t i) { return *flows[(size_t)i]; }
  bool valid(int64_t i) const { return i >= 0 && i < (int64_t)flows.size(); }
  bool armed_alloc = false; long arm_k = 0;
  long live_base = 0;
  friend struct Flow;
};

std::unique_ptr<Enc> make_enc_ref(int w, PacketSink& s, bool splits, uint64_t seed, uint32_t rid0, uint32_t sid0);
std::unique_ptr<Dec> make_dec_ref(int w, bool in_order, PacketSink& s, DataSink& d, bool splits, uint64_t seed);

// generator
void generate(uint64_t seed, int prop, int tier, Config& cfg);
void drive(World& w, uint64_t seed, int prop, int tier, std::vector<Op>& ops);
}
