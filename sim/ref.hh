#pragma once
// Independent reference: field arithmetic, wire format, linear combination, rank.
// Written from the documented format, shares no code with /repo and does not use GF-Complete.
#include <cstdint>
#include <string>
#include <vector>
#include <map>

namespace ref {

using Bytes = std::string;

struct Field {
  int w;
  explicit Field(int w);
  uint32_t mul(uint32_t a, uint32_t b) const;
  uint32_t inv(uint32_t a) const;
  uint32_t coef(uint32_t rid, uint32_t sid) const;
  // dst (zero padded to at least src size) += c * src
  void madd(Bytes& dst, const Bytes& src, uint32_t c) const;
  // contribution of a size to the encoded size
  uint32_t mul_size(uint32_t size, uint32_t c) const;
private:
  uint32_t slow(uint32_t a, uint32_t b) const;
  std::vector<uint32_t> lg, ex;
};
const Field& field(int w);

enum Type { ACK = 0, REPAIR = 1, SOURCE = 2, BAD = 3 };

struct Packet {
  Type type = BAD;
  uint32_t id = 0;          // source or repair id
  Bytes symbol;
  std::vector<uint32_t> ids; // repair, ack
  uint32_t encoded_size = 0; // repair
  uint32_t nb_packets = 0;   // ack
  size_t used = 0;           // bytes consumed
};

// false: truncated or unknown type
bool parse(const Bytes& b, Packet& out);
// the canonical encoding
Bytes serialize(const Packet& p);
// other legal encodings: run lengths split at random points (split(n) gives the length of the next run)
template <typename F> Bytes serialize_split(const Packet& p, F split);

Bytes put_ids(const std::vector<uint32_t>& ids);

// Builds the repair a correct sender must produce.
Packet combine(int w, uint32_t rid, const std::vector<std::pair<uint32_t, const Bytes*>>& srcs);

// Dense Gaussian elimination, one row at a time.
class Elim {
public:
  Elim(int w, size_t cols) : f(field(w)), n(cols), piv(cols) {}
  // true: independent of the previous rows. Columns beyond `cols` follow the operations without being pivots; what is
  // left of a dependent row goes to *rest.
  bool add(std::vector<uint32_t> row, std::vector<uint32_t>* rest = nullptr);
  size_t rank() const { return r; }
private:
  const Field& f;
  size_t n, r = 0;
  std::vector<std::vector<uint32_t>> piv;
};

// Rank of a sparse matrix given as rows of id -> coefficient.
size_t rank(int w, const std::vector<std::map<uint32_t, uint32_t>>& rows, size_t cols);
// ids fully determined by the rows
std::vector<uint32_t> determined(int w, const std::vector<std::map<uint32_t, uint32_t>>& rows);
// indexes of rows that depend on the previous ones; *involved marks the rows a dependency goes through
std::vector<size_t> dependent(int w, const std::vector<std::map<uint32_t, uint32_t>>& rows, std::vector<bool>* involved = nullptr);

inline void put8(Bytes& b, uint32_t v) { b.push_back((char)v); }
inline void put16(Bytes& b, uint32_t v) { b.push_back((char)(v >> 8)); b.push_back((char)v); }
inline void put32(Bytes& b, uint32_t v) { put16(b, v >> 16); put16(b, v & 0xffff); }

template <typename F>
Bytes put_ids_split(const std::vector<uint32_t>& ids, F split) {
  Bytes b;
  if (ids.empty()) { put16(b, 0); return b; }
  struct Run { uint32_t n, d; };
  std::vector<Run> runs;
  for (size_t i = 1; i < ids.size();) {
    uint32_t d = ids[i] - ids[i - 1];
    uint32_t n = 1;
    while (i + n < ids.size() && ids[i + n] - ids[i + n - 1] == d && n < 255) ++n;
    n = split(n);
    // distances that do not fit 16 bits: an empty run carries the high half first
    if (d > 0xffff) runs.push_back({0, d >> 16});
    runs.push_back({n, d & 0xffff});
    i += n;
  }
  put16(b, (uint32_t)runs.size() + 1);
  put32(b, ids[0]);
  for (auto& r : runs) { put8(b, r.n); put16(b, r.d); }
  return b;
}

template <typename F>
Bytes serialize_split(const Packet& p, F split) {
  Bytes b;
  put8(b, p.type);
  if (p.type == ACK) {
    put16(b, p.nb_packets);
    b += put_ids_split(p.ids, split);
    return b;
  }
  put32(b, p.id);
  put16(b, (uint32_t)p.symbol.size());
  b += p.symbol;
  if (p.type == REPAIR) {
    b += put_ids_split(p.ids, split);
    put16(b, p.encoded_size & 0xffff);
    put16(b, p.encoded_size >> 16);
  }
  return b;
}
} // namespace ref
