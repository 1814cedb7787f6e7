#pragma once
// Forced in front of tools/replay.cc: what the tool gives to its receiver is recorded on the way.
#include <chrono>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <map>
#include <vector>
#include <string>
#include <stdexcept>
#include <functional>
#define NTC_DUMP_PACKETS
#include "netcode/packet.hh"
#undef NTC_DUMP_PACKETS
#define final
#include "netcode/decoder.hh"
#undef final
#include "netcode/encoder.hh"
#include "netcode/dispatch.hh"
#include "netcode/detail/serialize_packet.hh"
void sim_fed(const char*, std::size_t);
namespace ntc {
template <typename P, typename D> struct spy_decoder : ntc::decoder<P, D> {
  using base = ntc::decoder<P, D>;
  using base::base;
  std::size_t operator()(const packet& p) { sim_fed(p.data(), p.size()); return base::operator()(p); }
  std::size_t operator()(packet&& p) { sim_fed(p.data(), p.size()); return base::operator()(std::move(p)); }
};
}
#define decoder spy_decoder
#define main replay_main
