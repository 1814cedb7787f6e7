#include "ref.hh"
#include <algorithm>
#include <set>

namespace ref {

static const uint64_t polys[33] = {0,0,0,0,0x13,0,0,0,0x11d,0,0,0,0,0,0,0,0x1100b,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0x100400007ull};

uint32_t Field::slow(uint32_t a, uint32_t b) const {
  uint64_t r = 0, x = a;
  for (; b; b >>= 1) {
    if (b & 1) r ^= x;
    x <<= 1;
    if (x >> w) x ^= polys[w];
  }
  return (uint32_t)r;
}

Field::Field(int w_) : w(w_) {
  if (w <= 16) {
    uint32_t n = 1u << w;
    ex.resize(2 * n); lg.resize(n);
    // find a generator by trial
    for (uint32_t g = 2; g < n; ++g) {
      uint32_t x = 1, i = 0;
      do { ex[i] = x; lg[x] = i; x = slow(x, g); ++i; } while (x != 1 && i < n);
      if (i == n - 1) break;
    }
    for (uint32_t i = 0; i < n; ++i) ex[n - 1 + i] = ex[i];
  }
}

uint32_t Field::mul(uint32_t a, uint32_t b) const {
  if (!a || !b) return 0;
  if (w <= 16) return ex[lg[a] + lg[b]];
  return slow(a, b);
}

uint32_t Field::inv(uint32_t a) const {
  if (w <= 16) return ex[(1u << w) - 1 - lg[a]];
  // a^(2^32 - 2)
  uint32_t r = 1, x = a;
  for (int i = 1; i < 32; ++i) { x = slow(x, x); r = slow(r, x); }
  return r;
}

uint32_t Field::coef(uint32_t rid, uint32_t sid) const {
  uint32_t r = ((rid + 1) + (sid + 1)) * (rid + 1);
  if (w == 32) return r == 0 ? 1 : r;
  return r % ((1u << w) - 1) + 1;
}

void Field::madd(Bytes& dst, const Bytes& src, uint32_t c) const {
  if (dst.size() < src.size()) dst.resize(src.size(), 0);
  size_t n = src.size();
  switch (w) {
    case 4: {
      uint8_t t[256];
      for (int i = 0; i < 256; ++i) t[i] = (uint8_t)(mul(i & 15, c) | (mul(i >> 4, c) << 4));
      for (size_t i = 0; i < n; ++i) dst[i] ^= (char)t[(uint8_t)src[i]];
      break;
    }
    case 8: {
      uint8_t t[256];
      for (int i = 0; i < 256; ++i) t[i] = (uint8_t)mul(i, c);
      for (size_t i = 0; i < n; ++i) dst[i] ^= (char)t[(uint8_t)src[i]];
      break;
    }
    case 16:
      for (size_t i = 0; i + 1 < n; i += 2) {
        uint32_t v = (uint8_t)src[i] | ((uint32_t)(uint8_t)src[i + 1] << 8);
        v = mul(v, c);
        dst[i] ^= (char)v; dst[i + 1] ^= (char)(v >> 8);
      }
      break;
    default: {
      // tables per byte position
      uint32_t t[4][256];
      uint32_t base[32];
      for (int i = 0; i < 32; ++i) base[i] = slow(c, 1u << i);
      for (int k = 0; k < 4; ++k)
        for (int v = 0; v < 256; ++v) {
          uint32_t x = 0;
          for (int j = 0; j < 8; ++j) if (v >> j & 1) x ^= base[8 * k + j];
          t[k][v] = x;
        }
      for (size_t i = 0; i + 3 < n; i += 4) {
        uint32_t x = 0;
        for (int k = 0; k < 4; ++k) x ^= t[k][(uint8_t)src[i + k]];
        for (int k = 0; k < 4; ++k) dst[i + k] ^= (char)(x >> (8 * k));
      }
    }
  }
}

uint32_t Field::mul_size(uint32_t size, uint32_t c) const {
  if (w == 4) {
    uint32_t r = 0;
    for (int k = 0; k < 4; ++k) r |= mul(size >> (4 * k) & 15, c) << (4 * k);
    return r;
  }
  if (w == 8) return mul(size & 255, c) | (mul(size >> 8 & 255, c) << 8);
  return mul(size, c);
}

const Field& field(int w) {
  static const Field f4(4), f8(8), f16(16), f32(32);
  return w == 4 ? f4 : w == 8 ? f8 : w == 16 ? f16 : f32;
}

namespace {
struct Rd {
  const Bytes& b; size_t o = 0; bool ok = true;
  uint32_t u(int n) {
    if (o + n > b.size()) { ok = false; o = b.size(); return 0; }
    uint32_t v = 0;
    while (n--) v = v << 8 | (uint8_t)b[o++];
    return v;
  }
};
bool get_ids(Rd& r, std::vector<uint32_t>& ids) {
  uint32_t n = r.u(2);
  if (!r.ok) return false;
  if (n == 0) return true;
  uint32_t cur = r.u(4);
  if (!r.ok) return false;
  ids.push_back(cur);
  uint32_t hi = 0;
  for (uint32_t i = 1; i < n; ++i) {
    uint32_t run = r.u(1), d = r.u(2);
    if (!r.ok) return false;
    if (run == 0) { hi = d; continue; }
    d |= hi << 16;
    hi = 0;
    while (run--) { cur += d; ids.push_back(cur); }
  }
  return true;
}
}

bool parse(const Bytes& b, Packet& p) {
  p = Packet{};
  Rd r{b};
  uint32_t t = r.u(1);
  if (!r.ok || t > 2) return false;
  p.type = (Type)t;
  if (t == ACK) {
    p.nb_packets = r.u(2);
    if (!r.ok || !get_ids(r, p.ids)) return false;
  } else {
    p.id = r.u(4);
    uint32_t sz = r.u(2);
    if (!r.ok || r.o + sz > b.size()) return false;
    p.symbol = b.substr(r.o, sz);
    r.o += sz;
    if (t == REPAIR) {
      if (!get_ids(r, p.ids)) return false;
      uint32_t lo = r.u(2), hi = r.u(2);
      p.encoded_size = lo | hi << 16;
    }
  }
  p.used = r.o;
  return r.ok;
}

Bytes put_ids(const std::vector<uint32_t>& ids) { return put_ids_split(ids, [](uint32_t n) { return n; }); }
Bytes serialize(const Packet& p) { return serialize_split(p, [](uint32_t n) { return n; }); }

Packet combine(int w, uint32_t rid, const std::vector<std::pair<uint32_t, const Bytes*>>& srcs) {
  const Field& f = field(w);
  Packet p;
  p.type = REPAIR;
  p.id = rid;
  for (auto& s : srcs) {
    uint32_t c = f.coef(rid, s.first);
    f.madd(p.symbol, *s.second, c);
    p.encoded_size ^= f.mul_size((uint32_t)s.second->size(), c);
    p.ids.push_back(s.first);
  }
  return p;
}

namespace {
using Row = std::map<uint32_t, uint32_t>;
// Reduced row echelon form; returns which input rows were dependent.
std::vector<Row> rref(int w, const std::vector<Row>& rows, std::vector<size_t>* dep) {
  const Field& f = field(w);
  std::map<uint32_t, Row> piv; // leading id -> row normalised
  for (size_t i = 0; i < rows.size(); ++i) {
    Row r = rows[i];
    // eliminate with existing pivots, in increasing id order
    for (auto it = r.begin(); it != r.end();) {
      auto pv = piv.find(it->first);
      if (pv == piv.end()) { ++it; continue; }
      uint32_t id = it->first, c = it->second;
      for (auto& kv : pv->second) {
        uint32_t v = f.mul(kv.second, c);
        uint32_t& x = r[kv.first];
        x ^= v;
      }
      for (auto j = r.begin(); j != r.end();) j = j->second == 0 ? r.erase(j) : std::next(j);
      it = r.upper_bound(id);
    }
    if (r.empty()) { if (dep) dep->push_back(i); continue; }
    uint32_t lead = r.begin()->first;
    uint32_t k = f.inv(r.begin()->second);
    for (auto& kv : r) kv.second = f.mul(kv.second, k);
    // eliminate lead from other pivots
    for (auto& pv : piv) {
      auto x = pv.second.find(lead);
      if (x == pv.second.end()) continue;
      uint32_t c = x->second;
      for (auto& kv : r) pv.second[kv.first] ^= f.mul(kv.second, c);
      for (auto j = pv.second.begin(); j != pv.second.end();) j = j->second == 0 ? pv.second.erase(j) : std::next(j);
    }
    piv[lead] = r;
  }
  std::vector<Row> out;
  for (auto& pv : piv) out.push_back(pv.second);
  return out;
}
}

size_t rank(int w, const std::vector<Row>& rows, size_t) { return rref(w, rows, nullptr).size(); }
bool Elim::add(std::vector<uint32_t> row, std::vector<uint32_t>* rest) {
  uint32_t* x = row.data();
  const size_t m = row.size();
  for (size_t lead = 0; lead < n; ++lead) {
    if (!x[lead]) continue;
    if (piv[lead].empty()) {
      uint32_t k = f.inv(x[lead]);
      for (size_t i = lead; i < m; ++i) if (x[i]) x[i] = f.mul(x[i], k);
      piv[lead].swap(row);
      ++r;
      return true;
    }
    const uint32_t* p = piv[lead].data();
    uint32_t c = x[lead];
    for (size_t i = lead; i < m; ++i) if (p[i]) x[i] ^= f.mul(p[i], c);
  }
  if (rest) rest->swap(row);
  return false;
}
std::vector<size_t> dependent(int w, const std::vector<Row>& rows, std::vector<bool>* involved) {
  std::map<uint32_t, size_t> col;
  for (auto& r : rows) for (auto& kv : r) col.emplace(kv.first, 0);
  size_t k = 0;
  for (auto& c : col) c.second = k++;
  Elim e(w, k);
  std::vector<size_t> d;
  if (involved) involved->assign(rows.size(), false);
  for (size_t i = 0; i < rows.size(); ++i) {
    std::vector<uint32_t> v(k + rows.size(), 0), rest;
    for (auto& kv : rows[i]) v[col[kv.first]] = kv.second;
    v[k + i] = 1;
    if (!e.add(std::move(v), &rest)) {
      d.push_back(i);
      if (involved) for (size_t j = 0; j < rows.size(); ++j) if (rest[k + j]) (*involved)[j] = true;
    }
  }
  return d;
}
std::vector<uint32_t> determined(int w, const std::vector<Row>& rows) {
  std::vector<uint32_t> v;
  for (auto& r : rref(w, rows, nullptr)) if (r.size() == 1) v.push_back(r.begin()->first);
  return v;
}

} // namespace ref
