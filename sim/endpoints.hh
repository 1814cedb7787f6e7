#pragma once
// Uniform view of the real senders and receivers (C++ and C interface).
#include "ref.hh"
#include <memory>
#include <stdexcept>
#include <cstdint>

namespace sim {
using ref::Bytes;

struct HandlerBoom : std::runtime_error { HandlerBoom() : std::runtime_error("boom") {} };

enum Err { E_NONE, E_TYPE, E_OVERFLOW, E_NOMEM, E_HANDLER, E_UNKNOWN };
inline const char* err_name(Err e) { static const char* n[] = {"none","packet_type","overflow","no_memory","handler","unknown"}; return n[e]; }

// What the real objects call back into. Implemented by the world.
struct PacketSink { virtual ~PacketSink() {} virtual void chunk(const char*, size_t) = 0; virtual void end() = 0; };
struct DataSink { virtual ~DataSink() {} virtual void data(const char*, size_t) = 0; };

struct EncStats { bool has = false; size_t acks = 0, repairs = 0, sources = 0, rate = 0, window_size = 0; bool adaptive = false, systematic = true; int w = 0; };
struct DecStats { bool has = false; size_t decoded = 0, failed = 0, missing = 0, repairs = 0, sources = 0, acks = 0, useless = 0; int64_t period = 0; int nb = 0; };

struct Result { Err err = E_NONE; size_t n = 0; bool has_back = false; Bytes back; }; // back: the packet carried by a packet type error

struct Dec;
struct Enc {
  virtual ~Enc() {}
  virtual bool is_c() const = 0;
  virtual Result submit(const Bytes& d, int mode) = 0;
  virtual Result feed(const Bytes& p, int mode) = 0;     // direct call
  virtual Result dispatch(Dec& d, const Bytes& p) = 0;   // C++ only: ntc::dispatch(enc, dec, packet)
  virtual Result repair() = 0;
  virtual size_t window() = 0;
  virtual void set_systematic(bool) = 0;
  virtual void set_rate(size_t) = 0;
  virtual void set_window(size_t) = 0;
  virtual void set_adaptive(bool) = 0;
  virtual EncStats stats() = 0;
};
struct Dec {
  virtual ~Dec() {}
  virtual bool is_c() const = 0;
  virtual Result feed(const Bytes& p, int mode) = 0;
  virtual Result ack() = 0;
  virtual Result maybe() = 0;   // C++ only
  virtual void set_period(int64_t ms) = 0;
  virtual void set_nb(int n) = 0;
  virtual DecStats stats() = 0;
};

// null on allocation failure
std::unique_ptr<Enc> make_enc_cpp(int w, PacketSink& s, Err& e);
std::unique_ptr<Dec> make_dec_cpp(int w, bool in_order, PacketSink& s, DataSink& d, Err& e);
std::unique_ptr<Enc> make_enc_c(int w, PacketSink& s, Err& e);
std::unique_ptr<Dec> make_dec_c(int w, bool in_order, PacketSink& s, DataSink& d, Err& e);

enum { FEED_MODES = 8, SUBMIT_MODES = 3 };
}
