#include "endpoints.hh"
#include "seams.hh"
#include <cstring>
// The C interface is used as a C program sees it: only through netcode/c/*.h declarations.
#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/error.h"
#include "netcode/c/handlers.h"
#include "netcode/c/packet.h"

namespace sim {
namespace {
extern "C" {
static void c_prepare(void* c, const char* p, size_t n) { seam::HarnessScope h; static_cast<PacketSink*>(c)->chunk(p, n); }
static void c_send(void* c) { seam::HarnessScope h; static_cast<PacketSink*>(c)->end(); }
static void c_read(void* c, const char* p, size_t n) { seam::HarnessScope h; static_cast<DataSink*>(c)->data(p, n); }
}
Err conv(const ntc_error& e) {
  switch (e.type) {
    case ntc_no_error: return E_NONE;
    case ntc_no_memory: return E_NOMEM;
    case ntc_packet_type_error: return E_TYPE;
    case ntc_overflow_error: return E_OVERFLOW;
    default: return E_UNKNOWN;
  }
}
// The error struct is dirty on purpose before each call: a call must set it.
struct Error {
  ntc_error e;
  Error() { e.type = ntc_unknown_error; e.message = nullptr; }
};

struct CPacketMaker {
  ntc_packet_t* kept = nullptr;
  ~CPacketMaker() { if (kept) ntc_delete_packet(kept); }
  template <typename F> Result feed(const Bytes& p, int mode, F f) {
    seam::LibScope l;
    Result r;
    Error er;
    auto sz = static_cast<uint16_t>(p.size());
    ntc_packet_t* pk = nullptr;
    switch (mode % 4) {
      case 0: case 1:
        pk = ntc_new_packet_from(p.data(), sz);
        if (!pk) { r.err = E_NOMEM; return r; }
        break;
      case 2: {
        uint16_t big = p.size() + 33 > 65535 ? 65535 : static_cast<uint16_t>(p.size() + 33);
        pk = ntc_new_packet(big);
        if (!pk) { r.err = E_NOMEM; return r; }
        std::memcpy(ntc_packet_buffer(pk), p.data(), p.size());
        ntc_packet_resize(pk, sz, &er.e);
        r.err = conv(er.e);
        break;
      }
      default:
        if (!kept) kept = ntc_new_packet(sz);
        if (!kept) { r.err = E_NOMEM; return r; }
        pk = kept;
        ntc_packet_resize(pk, sz, &er.e);
        r.err = conv(er.e);
        if (r.err == E_NONE) std::memcpy(ntc_packet_buffer(pk), p.data(), p.size());
    }
    if (r.err == E_NONE && (ntc_packet_get_size(pk) != sz || std::memcmp(ntc_packet_buffer(pk), p.data(), p.size()))) r.err = E_UNKNOWN;
    else if (r.err == E_NONE) {
      Error e2;
      r.n = f(pk, &e2.e);
      r.err = conv(e2.e);
    }
    if (pk != kept) ntc_delete_packet(pk);
    return r;
  }
};

struct CDec : Dec {
  ntc_decoder_t* d;
  CPacketMaker mk;
  explicit CDec(ntc_decoder_t* d_) : d(d_) {}
  ~CDec() override { ntc_delete_decoder(d); }
  bool is_c() const override { return true; }
  Result feed(const Bytes& p, int mode) override {
    return mk.feed(p, mode, [&](ntc_packet_t* pk, ntc_error* e) { return ntc_decoder_add_packet(d, pk, e); });
  }
  Result ack() override { seam::LibScope l; Error e; ntc_decoder_generate_ack(d, &e.e); Result r; r.err = conv(e.e); return r; }
  Result maybe() override { return Result{}; }
  void set_period(int64_t ms) override { ntc_decoder_set_ack_period(d, static_cast<size_t>(ms)); }
  void set_nb(int n) override { ntc_decoder_set_ack_nb_packets(d, static_cast<uint16_t>(n)); }
  DecStats stats() override { return DecStats{}; }
};

struct CEnc : Enc {
  ntc_encoder_t* e;
  CPacketMaker mk;
  ntc_data_t* kept = nullptr;
  explicit CEnc(ntc_encoder_t* e_) : e(e_) {}
  ~CEnc() override { ntc_delete_encoder(e); if (kept) ntc_delete_data(kept); }
  bool is_c() const override { return true; }
  Result submit(const Bytes& b, int mode) override {
    seam::LibScope l;
    Result r;
    Error er;
    auto sz = static_cast<uint16_t>(b.size());
    ntc_data_t* d = nullptr;
    switch (mode % SUBMIT_MODES) {
      case 0:
        d = ntc_new_data_from(b.data(), sz);
        if (!d) { r.err = E_NOMEM; return r; }
        break;
      case 1:
        d = ntc_new_data(sz);
        if (!d) { r.err = E_NOMEM; return r; }
        std::memcpy(ntc_data_buffer(d), b.data(), b.size());
        break;
      default:
        if (!kept) kept = ntc_new_data(1);
        if (!kept) { r.err = E_NOMEM; return r; }
        d = kept;
        ntc_data_resize(d, sz, &er.e);
        r.err = conv(er.e);
        if (r.err == E_NONE) std::memcpy(ntc_data_buffer(d), b.data(), b.size());
    }
    if (r.err == E_NONE && (ntc_data_get_size(d) != sz || std::memcmp(ntc_data_buffer(d), b.data(), b.size()))) r.err = E_UNKNOWN;
    else if (r.err == E_NONE) {
      Error e2;
      ntc_encoder_add_data(e, d, &e2.e);
      r.err = conv(e2.e);
    }
    if (d != kept) ntc_delete_data(d);
    return r;
  }
  Result feed(const Bytes& p, int mode) override {
    return mk.feed(p, mode, [&](ntc_packet_t* pk, ntc_error* er) { return ntc_encoder_add_packet(e, pk, er); });
  }
  Result dispatch(Dec&, const Bytes&) override { return Result{}; }
  Result repair() override { seam::LibScope l; Error er; ntc_encoder_generate_repair(e, &er.e); Result r; r.err = conv(er.e); return r; }
  size_t window() override { return ntc_encoder_window(e); }
  void set_systematic(bool b) override { ntc_encoder_set_code_type(e, b ? ntc_systematic_yes : ntc_systematic_no); }
  void set_rate(size_t r) override { ntc_encoder_set_rate(e, r); }
  void set_window(size_t n) override { ntc_encoder_set_window_size(e, n); }
  void set_adaptive(bool b) override { ntc_encoder_set_adaptive(e, b); }
  EncStats stats() override { return EncStats{}; }
};
}

std::unique_ptr<Enc> make_enc_c(int w, PacketSink& s, Err& e) {
  ntc_packet_handler h{&s, c_prepare, c_send};
  ntc_encoder_t* p;
  { seam::LibScope l; p = ntc_new_encoder(static_cast<uint8_t>(w), h); }
  e = p ? E_NONE : E_NOMEM;
  return std::unique_ptr<Enc>(p ? new CEnc(p) : nullptr);
}
std::unique_ptr<Dec> make_dec_c(int w, bool o, PacketSink& s, DataSink& d, Err& e) {
  ntc_packet_handler h{&s, c_prepare, c_send};
  ntc_data_handler dh{&d, c_read};
  ntc_decoder_t* p;
  { seam::LibScope l; p = ntc_new_decoder(static_cast<uint8_t>(w), o ? ntc_in_order_yes : ntc_in_order_no, h, dh); }
  e = p ? E_NONE : E_NOMEM;
  return std::unique_ptr<Dec>(p ? new CDec(p) : nullptr);
}
}
