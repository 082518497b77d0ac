// Independent reader/validator of the serialised tuple format, written from the
// format description (header, index of 32-bit descriptors growing down from the
// pivot, payload in 32-bit units).  Shares no code with the library.
#pragma once
#include "fp.h"

namespace ref {
using fp::genus;
using fp::Val;

struct PreplacedDesc {
  size_t offset;
  genus g;
  bool discernible;
};
struct SchemaDesc {
  bool present = false; // a schema object is given
  size_t preplaced_bytes = 0;
  std::vector<PreplacedDesc> pre; // sorted by offset
};

struct Entry {
  genus g;
  unsigned id = 0;
  Val v;
};

enum Verdict { ACCEPT, REJECT, EITHER };

struct Result {
  Verdict verdict = ACCEPT;
  std::string why;
  size_t index_size = 0, holes_count = 0, holes_volume = 0, units = 0;
  bool pool = false;
  bool sorted_flag = false, preplaced_flag = false;
  std::vector<Entry> loose;       // in index order, holes excluded
  std::vector<std::string> slots; // value of each pre-placed field; "" + absent
  std::vector<bool> slot_present;
};

inline uint16_t rd16(const unsigned char *p) { return uint16_t(p[0] | p[1] << 8); }

// length in units of a stretchy payload located at `p` (avail bytes remain);
// returns 0 when impossible
inline size_t stretchy(genus g, const unsigned char *p, size_t avail, Val &v,
                       bool *pool = nullptr) {
  if (avail < 4)
    return 0;
  size_t units = 0;
  switch (g) {
  case fptu::text: {
    size_t len, hdr;
    // an empty text with a non-zero rest of the unit is reserved for a
    // string pool that does not exist yet: reading it is not defined
    if (pool && p[0] == 0 && (p[1] | p[2] | p[3]))
      *pool = true;
    if (p[0] < 254) {
      len = p[0];
      hdr = 1;
    } else {
      len = p[0] + size_t(rd16(p + 1)) * 2;
      hdr = 3;
    }
    units = (hdr + len + 3) / 4;
    if (units * 4 > avail)
      return 0;
    v.assign(reinterpret_cast<const char *>(p) + hdr, len);
    return units;
  }
  case fptu::varbin: {
    units = rd16(p);
    unsigned tail = rd16(p + 2) & 3;
    if (units == 0 || units * 4 > avail || (units == 1 && tail))
      return 0;
    size_t len = (units - 1) * 4 - ((4 - tail) & 3);
    v.assign(reinterpret_cast<const char *>(p) + 4, len);
    return units;
  }
  case fptu::nested:
    units = rd16(p);
    if (units == 0 || units * 4 > avail)
      return 0;
    v.assign(reinterpret_cast<const char *>(p), units * 4);
    return units;
  case fptu::property: {
    size_t len = p[0];
    units = (len + 2 + 3) / 4;
    if (units * 4 > avail)
      return 0;
    v.assign(1, char(p[1]));
    v.append(reinterpret_cast<const char *>(p) + 2, len);
    return units;
  }
  default:
    return 0;
  }
}

inline Result parse(const void *ptr, size_t bytes, const SchemaDesc &sd) {
  Result r;
  bool either = false;
  auto bad = [&](const char *w) {
    r.verdict = REJECT;
    r.why = w;
    return r;
  };
  const unsigned char *p = static_cast<const unsigned char *>(ptr);
  if (!p || bytes < 4)
    return bad("too short");
  if (bytes % 4)
    return bad("odd size");
  if (bytes > size_t(65535) * 4)
    return bad("too large");
  const size_t units = rd16(p);
  if (units * 4 != bytes)
    return bad("size mismatch");
  r.units = units;
  const uint16_t lf = rd16(p + 2);
  r.index_size = lf >> 3;
  r.sorted_flag = lf & 1;
  r.preplaced_flag = lf & 2;
  if (lf & 4)
    either = true; // reserved flag: meaning is not defined
  if (1 + r.index_size > units)
    return bad("index does not fit");
  const size_t pivot = 1 + r.index_size;
  if (r.preplaced_flag && !sd.present)
    return bad("pre-placed flag without schema");
  if (r.preplaced_flag != (sd.preplaced_bytes != 0))
    return bad("pre-placed flag mismatch");
  const size_t pre_units = (sd.preplaced_bytes + 3) / 4;
  if (pivot + pre_units > units)
    return bad("pre-placed area does not fit");

  std::vector<std::pair<size_t, size_t>> chunks; // [begin,end) units
  const size_t lo = pivot + pre_units;
  auto chunk = [&](size_t at, size_t n) { chunks.emplace_back(at, at + n); };
  for (size_t i = 0; i < r.index_size; ++i) {
    const size_t pos = 1 + i;
    const unsigned char *d = p + pos * 4;
    const uint16_t off = rd16(d), gid = rd16(d + 2);
    const genus g = genus(gid >> 11);
    const unsigned id = gid & 0x7ff;
    Entry e;
    e.g = g;
    e.id = id;
    if (g == fptu::hole) {
      r.holes_count++;
      if (id == 0) {
        if (off)
          return bad("empty hole with payload");
        continue;
      }
      if (!off)
        return bad("hole without payload");
      size_t at = pos + off, n = id;
      if (at < lo || at >= units)
        return bad("hole out of bounds");
      if (id == 0x7ff) {
        // the size does not fit the descriptor and is kept in the hole itself
        const unsigned char *q = p + at * 4;
        n = rd16(q) | size_t(rd16(q + 2)) << 16;
        if (n < 0x7ff)
          return bad("impossible hole size");
      }
      if (n > units - at)
        return bad("hole end out of bounds");
      chunk(at, n);
      r.holes_volume += n;
      continue;
    }
    const fp::GInfo &gi = fp::ginfo(g);
    if (gi.size && gi.loose_units == 0) { // in-place value
      e.v.assign(reinterpret_cast<const char *>(d), gi.size);
      r.loose.push_back(e);
      continue;
    }
    if (!off) {
      if (fp::is_stretchy(g)) {
        e.v = fp::natural_empty(g);
        either = true; // loose stretchy field without payload: never produced
        r.loose.push_back(e);
        continue;
      }
      return bad("fixed-size field without payload");
    }
    size_t at = pos + off;
    if (at < lo || at >= units)
      return bad("payload out of bounds");
    size_t n = gi.loose_units;
    if (fp::is_stretchy(g)) {
      n = stretchy(g, p + at * 4, (units - at) * 4, e.v, &r.pool);
      if (!n)
        return bad("impossible payload length");
      if (g == fptu::varbin && (rd16(p + at * 4 + 2) & ~3u))
        either = true; // reserved bits
    } else {
      if (at + n > units)
        return bad("payload end out of bounds");
      e.v.assign(reinterpret_cast<const char *>(p + at * 4), gi.size);
    }
    chunk(at, n);
    r.loose.push_back(e);
  }
  for (auto &d : sd.pre) {
    const unsigned char *q = p + pivot * 4 + d.offset;
    if (!fp::is_stretchy(d.g)) {
      if (d.g == fptu::hole) {
        r.slots.push_back("");
        r.slot_present.push_back(true);
        continue;
      }
      Val v(reinterpret_cast<const char *>(q), fp::ginfo(d.g).size);
      r.slot_present.push_back(!(d.discernible && v == fp::denil(d.g)));
      r.slots.push_back(v);
      continue;
    }
    const uint16_t off = rd16(q);
    if (!off) {
      r.slots.push_back(fp::natural_empty(d.g));
      r.slot_present.push_back(false);
      continue;
    }
    size_t at = pivot + d.offset / 4 + off;
    if (at < lo || at >= units)
      return bad("pre-placed payload out of bounds");
    Val v;
    size_t n = stretchy(d.g, p + at * 4, (units - at) * 4, v, &r.pool);
    if (!n)
      return bad("impossible pre-placed payload length");
    if (d.g == fptu::varbin && (rd16(p + at * 4 + 2) & ~3u))
      either = true;
    chunk(at, n);
    r.slots.push_back(v);
    r.slot_present.push_back(true);
  }
  std::sort(chunks.begin(), chunks.end());
  size_t at = lo;
  for (auto &c : chunks) {
    if (c.first < at)
      return bad("overlapped payload");
    if (c.first > at)
      return bad("unaccounted space");
    at = c.second;
  }
  if (at != units) {
    if (chunks.empty())
      return bad("unaccounted space");
    else
      return bad("unaccounted space at the end");
  }
  if (r.sorted_flag) {
    bool up = true, down = true;
    for (size_t i = 1; i < r.index_size; ++i) {
      uint16_t a = rd16(p + i * 4 + 2), b = rd16(p + (i + 1) * 4 + 2);
      if (a > b)
        up = false;
      if (a < b)
        down = false;
    }
    if (!up && !down)
      return bad("false sorted flag");
    if (!(up && down))
      either = true; // direction is an implementation detail
  }
  r.verdict = either ? EITHER : ACCEPT;
  return r;
}

} // namespace ref
