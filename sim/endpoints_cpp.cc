#include "endpoints.hh"
#include "seams.hh"
#include "netcode/encoder.hh"
#include "netcode/decoder.hh"
#include "netcode/dispatch.hh"

namespace sim {
namespace {

struct PH {
  PacketSink* s;
  void operator()(const char* p, std::size_t n) { seam::HarnessScope h; s->chunk(p, n); }
  void operator()() { seam::HarnessScope h; s->end(); }
};
struct DH {
  DataSink* s;
  void operator()(const char* p, std::size_t n) { seam::HarnessScope h; s->data(p, n); }
};
using enc_t = ntc::encoder<PH>;
using dec_t = ntc::decoder<PH, DH>;

template <typename F> Result guard(F f) {
  Result r;
  int depth = seam::lib_depth;
  try { seam::LibScope l; r.n = f(); }
  catch (const ntc::packet_type_error& e) { seam::HarnessScope h; r.err = E_TYPE; r.has_back = true; r.back.assign(e.error_packet.data(), e.error_packet.size()); }
  catch (const ntc::overflow_error&) { r.err = E_OVERFLOW; }
  catch (const std::bad_alloc&) { r.err = E_NOMEM; }
  catch (const HandlerBoom&) { r.err = E_HANDLER; }
  catch (...) { r.err = E_UNKNOWN; }
  seam::lib_depth = depth;
  return r;
}

struct CppDec;

// Different ways an application may bring received bytes in a packet.
struct PacketMaker {
  ntc::packet kept;
  template <typename Obj> Result feed(Obj& o, const Bytes& p, int mode) {
    switch (mode % FEED_MODES) {
      case 0: return guard([&] { return o(ntc::packet(p.begin(), p.end())); });
      case 1: return guard([&] { const ntc::packet pk(p.begin(), p.end()); return o(pk); });
      case 2: return guard([&] { // a receive buffer that is larger than the datagram
        ntc::packet pk(p.size() + 33);
        std::copy(p.begin(), p.end(), pk.begin());
        pk.resize(p.size());
        return o(std::move(pk)); });
      case 4: return guard([&] { kept.assign(p.begin(), p.end()); return o(kept); });   // copied: the buffer stays as it is
      case 5: return guard([&] { // byte per byte
        ntc::packet pk;
        if (p.size() % 2) pk.reserve(p.size());
        for (char c : p) pk.push_back(c);
        if (pk.empty() != p.empty() || pk.size() != p.size() || std::size_t(pk.cend() - pk.cbegin()) != p.size()) throw std::logic_error("packet");
        return o(std::move(pk)); });
      case 6: return guard([&] { // grown from a filled one
        ntc::packet pk(1, 'x');
        pk.assign(p.size() / 2 + 1, 'y');
        pk.resize(p.size(), 'z');
        for (std::size_t i = 0; i < p.size(); ++i) pk[i] = p[i];
        if (p.size() % 3 == 0) pk.shrink_to_fit();
        ntc::packet other;
        other = pk;
        return o(std::move(other)); });
      case 7: return guard([&] { // a pool: emptied, then re-used
        kept.clear();
        kept.resize(p.size());
        std::copy(p.begin(), p.end(), kept.begin());
        ntc::packet pk(std::move(kept));
        kept = ntc::packet(3);
        return o(std::move(pk)); });
      default: return guard([&] { // a buffer re-used after having been moved from
        kept.resize(p.size());
        std::copy(p.begin(), p.end(), kept.data());
        return o(std::move(kept)); });
    }
  }
};

struct CppDec : Dec {
  dec_t d;
  PacketMaker mk;
  CppDec(int w, bool o, PacketSink& s, DataSink& ds)
    : d(static_cast<std::uint8_t>(w), o ? ntc::in_order::yes : ntc::in_order::no, PH{&s}, DH{&ds}) {}
  bool is_c() const override { return false; }
  Result feed(const Bytes& p, int mode) override { return mk.feed(d, p, mode); }
  Result ack() override { return guard([&] { d.generate_ack(); return std::size_t{0}; }); }
  Result maybe() override { return guard([&] { d.maybe_ack(); return std::size_t{0}; }); }
  void set_period(int64_t ms) override { d.set_ack_period(std::chrono::milliseconds{ms}); }
  void set_nb(int n) override { d.set_ack_nb_packets(static_cast<std::uint16_t>(n)); }
  DecStats stats() override {
    DecStats s;
    s.has = true;
    s.decoded = d.nb_decoded(); s.failed = d.nb_failed_full_decodings(); s.missing = d.nb_missing_sources();
    s.repairs = d.nb_received_repairs(); s.sources = d.nb_received_sources(); s.acks = d.nb_sent_acks();
    s.useless = d.nb_useless_repairs();
    s.period = d.ack_period().count(); s.nb = d.ack_nb_packets();
    return s;
  }
};

struct CppEnc : Enc {
  enc_t e;
  PacketMaker mk;
  ntc::data kept;
  CppEnc(int w, PacketSink& s) : e(static_cast<std::uint8_t>(w), PH{&s}) {}
  bool is_c() const override { return false; }
  Result submit(const Bytes& b, int mode) override {
    switch (mode % SUBMIT_MODES) {
      case 0: return guard([&] { e(ntc::data(b.begin(), b.end())); return std::size_t{0}; });
      case 1: return guard([&] { const ntc::data d(b.begin(), b.end()); e(d); return std::size_t{0}; });
      default: return guard([&] { kept.resize(b.size()); std::copy(b.begin(), b.end(), kept.begin()); e(std::move(kept)); return std::size_t{0}; });
    }
  }
  Result feed(const Bytes& p, int mode) override { return mk.feed(e, p, mode); }
  Result dispatch(Dec& d, const Bytes& p) override {
    auto& cd = static_cast<CppDec&>(d);
    return guard([&] { return ntc::dispatch(e, cd.d, ntc::packet(p.begin(), p.end())); });
  }
  Result repair() override { return guard([&] { e.generate_repair(); return std::size_t{0}; }); }
  size_t window() override { return e.window(); }
  void set_systematic(bool b) override { e.set_code_type(b ? ntc::systematic::yes : ntc::systematic::no); }
  void set_rate(size_t r) override { e.set_rate(r); }
  void set_window(size_t n) override { e.set_window_size(n); }
  void set_adaptive(bool b) override { e.set_adaptive(b); }
  EncStats stats() override {
    EncStats s;
    s.has = true;
    s.acks = e.nb_received_acks(); s.repairs = e.nb_sent_repairs(); s.sources = e.nb_sent_sources();
    s.rate = e.rate(); s.window_size = e.window_size(); s.adaptive = e.adaptive();
    s.systematic = e.code_type() == ntc::systematic::yes; s.w = e.galois_field_size();
    return s;
  }
};
template <typename T, typename... A> std::unique_ptr<T> make(Err& e, A&&... a) {
  std::unique_ptr<T> p;
  e = guard([&] { p.reset(new T(std::forward<A>(a)...)); return std::size_t{0}; }).err;
  return p;
}
} // namespace

std::unique_ptr<Enc> make_enc_cpp(int w, PacketSink& s, Err& e) { return make<CppEnc>(e, w, s); }
std::unique_ptr<Dec> make_dec_cpp(int w, bool o, PacketSink& s, DataSink& d, Err& e) { return make<CppDec>(e, w, o, s, d); }
}
