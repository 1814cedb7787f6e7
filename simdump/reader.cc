// Reads a dump with the library's own reader.
#include "reader.hh"
#include <sstream>
#include <fstream>
#include "netcode/packet.hh"
#include "netcode/detail/serialize_packet.hh"
namespace sim {
std::vector<std::string> read_dump(std::istream& in, std::vector<std::size_t>* ends) {
  std::vector<std::string> v;
  try {
    while (in.peek() != std::char_traits<char>::eof()) {
      const auto p = ntc::detail::serialize_packet::read(in);
      v.emplace_back(p.data(), p.size());
      if (ends) ends->push_back(static_cast<std::size_t>(in.tellg()));
    }
  } catch (const std::exception&) {}
  return v;
}
}
