// Shared layer of the tuple harnesses: uniform (type-erased) values, typed
// get/set/insert dispatch, value generators, schema generators.
#pragma once
#include "fast_positive/tuples.h"
#include "fast_positive/tuples/internal.h"
#include "fast_positive/tuples/details/legacy_compat.h"
#include "fast_positive/tuples/details/scan.h"
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <optional>

namespace fp {
using fptu::genus;
using fptu::token;
using fptu::string_view;
using pbt::Ctx;
using pbt::Src;

// value of any field: raw little-endian bytes for fixed-size types, content
// for text/varbin, id byte + content for property, serialised form for nested
using Val = std::string;

struct GInfo {
  genus g;
  const char *name;
  unsigned size;        // bytes of the canonical value (0 = stretchy)
  unsigned loose_units; // payload units of a loose field
  unsigned slot_bytes;  // bytes of a pre-placed slot
};
inline const GInfo &ginfo(genus g) {
  // an independent restatement of the documented type table
  static const GInfo t[32] = {
      {fptu::text, "text", 0, 0, 4},      {fptu::varbin, "varbin", 0, 0, 4},
      {fptu::nested, "nested", 0, 0, 4},  {fptu::property, "property", 0, 0, 4},
      {fptu::i8, "i8", 1, 0, 1},          {fptu::u8, "u8", 1, 0, 1},
      {fptu::i16, "i16", 2, 0, 2},        {fptu::u16, "u16", 2, 0, 2},
      {fptu::i32, "i32", 4, 1, 4},        {fptu::u32, "u32", 4, 1, 4},
      {fptu::f32, "f32", 4, 1, 4},        {fptu::t32, "t32", 4, 1, 4},
      {fptu::i64, "i64", 8, 2, 8},        {fptu::u64, "u64", 8, 2, 8},
      {fptu::f64, "f64", 8, 2, 8},        {fptu::d64, "d64", 8, 2, 8},
      {fptu::t64, "t64", 8, 2, 8},        {fptu::bin96, "bin96", 12, 3, 12},
      {fptu::bin128, "bin128", 16, 4, 16}, {fptu::bin160, "bin160", 20, 5, 20},
      {fptu::bin192, "bin192", 24, 6, 24}, {fptu::bin224, "bin224", 28, 7, 28},
      {fptu::bin256, "bin256", 32, 8, 32}, {fptu::bin320, "bin320", 40, 10, 40},
      {fptu::bin384, "bin384", 48, 12, 48}, {fptu::bin512, "bin512", 64, 16, 64},
      {fptu::app_reserved_64, "app64", 8, 2, 8},
      {fptu::app_reserved_128, "app128", 16, 4, 16},
      {fptu::mac, "mac", 8, 2, 8},        {fptu::ip, "ip", 16, 4, 16},
      {fptu::ipnet, "ipnet", 17, 5, 20},  {fptu::hole, "hole", 0, 0, 0}};
  return t[unsigned(g) & 31];
}
inline bool is_stretchy(genus g) { return unsigned(g) < 4; }
// types that have a setter in the public API
inline const std::vector<genus> &settable() {
  static const std::vector<genus> v = {
      fptu::text,   fptu::varbin, fptu::nested, fptu::property, fptu::i8,
      fptu::u8,     fptu::i16,    fptu::u16,    fptu::i32,      fptu::u32,
      fptu::f32,    fptu::t32,    fptu::i64,    fptu::u64,      fptu::f64,
      fptu::d64,    fptu::t64,    fptu::bin96,  fptu::bin128,   fptu::bin160,
      fptu::bin192, fptu::bin224, fptu::bin256, fptu::bin320,   fptu::bin384,
      fptu::bin512, fptu::mac,    fptu::ip,     fptu::ipnet};
  return v;
}

template <typename T> Val pack(const T &v) {
  return Val(reinterpret_cast<const char *>(&v), sizeof(T));
}
template <typename T> T unpack(const Val &v) {
  T r;
  if (v.size() != sizeof(T))
    pbt::fail("harness: value size mismatch");
  memcpy(static_cast<void *>(&r), v.data(), sizeof(T));
  return r;
}

// payload units a stretchy value takes (documented storage format)
inline size_t stretchy_units(genus g, const Val &v) {
  switch (g) {
  case fptu::text:
    return (v.size() + (v.size() < 254 ? 1 : 3) + 3) / 4;
  case fptu::varbin:
    return (v.size() + 3) / 4 + 1;
  case fptu::nested:
    return v.size() / 4;
  case fptu::property: // v = id + data
    return (v.size() - 1 + 2 + 3) / 4;
  default:
    return 0;
  }
}
inline size_t units_for(genus g, const Val &v) {
  return is_stretchy(g) ? stretchy_units(g, v) : ginfo(g).loose_units;
}

// "natural zero" of a type: what a field without distinguishable null reads
inline bool is_natural_empty(genus g, const Val &v) {
  switch (g) {
  case fptu::text:
  case fptu::varbin:
    return v.empty();
  case fptu::nested:
    return v.size() < 8;
  case fptu::property:
    return v.size() == 1 && v[0] == 0;
  case fptu::f32:
    return unpack<float>(v) == 0;
  case fptu::f64:
    return unpack<double>(v) == 0;
  case fptu::d64:
    return unpack<fptu::decimal64>(v) == fptu::decimal64(0);
  default:
    for (char c : v)
      if (c)
        return false;
    return true;
  }
}
inline Val natural_empty(genus g) {
  switch (g) {
  case fptu::text:
  case fptu::varbin:
  case fptu::nested:
    return Val();
  case fptu::property:
    return Val(1, '\0');
  case fptu::d64:
    return pack(fptu::decimal64(0));
  default:
    return Val(ginfo(g).size, '\0');
  }
}
// designated null of a fixed-size type (the documented table)
inline Val denil(genus g) {
  switch (g) {
  case fptu::i8:
    return pack<int8_t>(INT8_MIN);
  case fptu::i16:
    return pack<int16_t>(INT16_MIN);
  case fptu::i32:
    return pack<int32_t>(INT32_MIN);
  case fptu::i64:
    return pack<int64_t>(INT64_MIN);
  case fptu::f32:
    return Val(4, '\xff');
  case fptu::f64:
  case fptu::d64:
    return Val(8, '\xff');
  default:
    return Val(ginfo(g).size, '\0');
  }
}

// --- nested payload alignment helper: serialised tuples must be unit-aligned
struct Aligned {
  std::vector<uint32_t> buf;
  explicit Aligned(const Val &v) : buf(v.size() / 4 + 1) {
    memcpy(buf.data(), v.data(), v.size());
  }
  const fptu::details::tuple_ro *ro() const {
    return reinterpret_cast<const fptu::details::tuple_ro *>(buf.data());
  }
};

// --- typed dispatch -----------------------------------------------------------
#define FP_FIXED_TYPES(X)                                                      \
  X(bin128, fptu::binary128_t, bin128)                                         \
  FP_FIXED_TYPES_BUT_BIN128(X)
#define FP_FIXED_TYPES_BUT_BIN128(X)                                           \
  X(i8, int8_t, i8)                                                            \
  X(i16, int16_t, i16)                                                         \
  FP_FIXED_TYPES_PLAIN(X)
#define FP_FIXED_TYPES_PLAIN(X)                                                \
  X(u8, uint8_t, u8)                                                           \
  X(u16, uint16_t, u16)                                                        \
  X(i32, int32_t, i32)                                                         \
  X(u32, uint32_t, u32)                                                        \
  X(f32, float, f32)                                                           \
  X(i64, int64_t, i64)                                                         \
  X(u64, uint64_t, u64)                                                        \
  X(f64, double, f64)                                                          \
  X(d64, fptu::decimal64, decimal)                                             \
  X(bin96, fptu::binary96_t, bin96)                                            \
  X(bin160, fptu::binary160_t, bin160)                                         \
  X(bin192, fptu::binary192_t, bin192)                                         \
  X(bin224, fptu::binary224_t, bin224)                                         \
  X(bin256, fptu::binary256_t, bin256)                                         \
  X(bin320, fptu::binary320_t, bin320)                                         \
  X(bin384, fptu::binary384_t, bin384)                                         \
  X(bin512, fptu::binary512_t, bin512)                                         \
  X(mac, fptu::mac_address_t, mac_address)                                     \
  X(ip, fptu::ip_address_t, ip_address)                                        \
  X(ipnet, fptu::ip_net_t, ip_net)

inline fptu::datetime_t t64_of(uint64_t v) {
  return fptu::datetime_t::from_fixedpoint_32dot32(v);
}

// Some types have several setters: one of them is taken, by the value itself.
inline unsigned which_way(const Val &v, unsigned n) {
  unsigned x = unsigned(v.size());
  for (unsigned char c : v)
    x = x * 31 + c;
  return (x ^ x >> 7) % n;
}

// F is called like f.template op(...)
template <typename TUPLE>
void set_value(TUPLE &t, const token &tok, genus g, const Val &v) {
  switch (g) {
  case fptu::text:
    if (which_way(v, 3) == 0)
      t.set_string(tok, std::string(v));
    else
      t.set_string(tok, string_view(v.data(), v.size()));
    break;
  case fptu::varbin:
    t.set_varbinary(tok, string_view(v.data(), v.size()));
    break;
  case fptu::property:
    t.set_property(tok, fptu::property_pair(
                            string_view(v.data() + 1, v.size() - 1),
                            int8_t(v[0])));
    break;
  case fptu::nested: {
    Aligned a(v);
    t.set_nested(tok, v.empty() ? fptu::tuple_ro_weak()
                                : fptu::tuple_ro_weak(a.buf.data(), v.size(), nullptr,
                                    fptu::enforce_skip_validation));
    break;
  }
  case fptu::t32:
    t.set_datetime(tok, fptu::datetime_t::from_seconds(unpack<uint32_t>(v)));
    break;
  case fptu::t64:
    t.set_datetime(tok, t64_of(unpack<uint64_t>(v)));
    break;
  case fptu::i8:
    if (uint8_t(v[0]) < 2)
      t.set_bool(tok, v[0] != 0);
    else
      t.set_i8(tok, unpack<int8_t>(v));
    break;
  case fptu::i16:
    if (which_way(v, 2))
      t.set_enum(tok, unpack<short>(v));
    else
      t.set_i16(tok, unpack<int16_t>(v));
    break;
  case fptu::bin128:
    switch (tok.type() == fptu::bin128 ? which_way(v, 4) : 3) {
    case 0:
      t.set_uuid(tok, unpack<fptu::uuid_t>(v)); break;
    case 1:
      t.set_int128(tok, unpack<fptu::int128_t>(v)); break;
    case 2:
      t.set_uint128(tok, unpack<fptu::uint128_t>(v)); break;
    default:
      t.set_bin128(tok, unpack<fptu::binary128_t>(v)); break;
    }
    break;
#define X(G, T, N)                                                             \
  case fptu::G:                                                                \
    t.set_##N(tok, unpack<T>(v));                                              \
    break;
    FP_FIXED_TYPES_PLAIN(X)
#undef X
  default:
    pbt::fail("harness: set of type %d", int(g));
  }
}
template <typename TUPLE>
fptu::dynamic_collection_iterator_rw insert_value(TUPLE &t, const token &tok,
                                                  genus g, const Val &v) {
  switch (g) {
  case fptu::text:
    if (which_way(v, 3) == 0)
      return t.insert_string(tok, std::string(v));
    else
      return t.insert_string(tok, string_view(v.data(), v.size()));
  case fptu::varbin:
    return t.insert_varbinary(tok, string_view(v.data(), v.size()));
  case fptu::property:
    return t.insert_property(
        tok, fptu::property_pair(string_view(v.data() + 1, v.size() - 1),
                                 int8_t(v[0])));
  case fptu::nested: {
    Aligned a(v);
    return t.insert_nested(tok,
                           v.empty() ? fptu::tuple_ro_weak()
                                     : fptu::tuple_ro_weak(
                                           a.buf.data(), v.size(), nullptr,
                                           fptu::enforce_skip_validation));
  }
  case fptu::t32:
    return t.insert_datetime(tok,
                             fptu::datetime_t::from_seconds(unpack<uint32_t>(v)));
  case fptu::t64:
    return t.insert_datetime(tok, t64_of(unpack<uint64_t>(v)));
  case fptu::i8:
    return uint8_t(v[0]) < 2 ? t.insert_bool(tok, v[0] != 0) : t.insert_i8(tok, unpack<int8_t>(v));
  case fptu::i16:
    return which_way(v, 2) ? t.insert_enum(tok, unpack<short>(v)) : t.insert_i16(tok, unpack<int16_t>(v));
  case fptu::bin128:
    switch (tok.type() == fptu::bin128 ? which_way(v, 4) : 3) {
    case 0:
      return t.insert_uuid(tok, unpack<fptu::uuid_t>(v));
    case 1:
      return t.insert_int128(tok, unpack<fptu::int128_t>(v));
    case 2:
      return t.insert_uint128(tok, unpack<fptu::uint128_t>(v));
    default:
      return t.insert_bin128(tok, unpack<fptu::binary128_t>(v));
    }
#define X(G, T, N)                                                             \
  case fptu::G:                                                                \
    return t.insert_##N(tok, unpack<T>(v));
    FP_FIXED_TYPES_PLAIN(X)
#undef X
  default:
    pbt::fail("harness: insert of type %d", int(g));
  }
}

inline Val val_of(const string_view &s) { return Val(s.data(), s.size()); }
inline Val val_of_property(const fptu::property_pair &p) {
  Val v(1, char(p.second));
  v.append(p.first.data(), p.first.size());
  return v;
}
inline Val val_of_nested(const fptu::details::tuple_ro *ro) {
  return ro ? Val(static_cast<const char *>(ro->data()), ro->size()) : Val();
}

// read a field of any tuple wrapper (const TUPLE&)
template <typename TUPLE>
Val get_value(const TUPLE &t, const token &tok, genus g) {
  switch (g) {
  case fptu::text:
    return val_of(t.get_string(tok));
  case fptu::varbin:
    return val_of(t.get_varbinary(tok));
  case fptu::property:
    return val_of_property(t.get_property(tok));
  case fptu::nested:
    return val_of_nested(t.get_nested_weak(tok).get_impl());
  case fptu::t32:
    return pack<uint32_t>(t.get_datetime(tok).utc_seconds());
  case fptu::t64:
    return pack<uint64_t>(t.get_datetime(tok).fixedpoint_32dot32());
  case fptu::i8: {
    const int8_t v = t.get_i8(tok);
    PBT_CHECK(t.get_bool(tok) == (v != 0), "get_bool() of %d", v);
    return pack<int8_t>(v);
  }
  case fptu::i16: {
    const int16_t v = t.get_i16(tok);
    PBT_CHECK(t.get_enum(tok) == v, "get_enum() of %d", v);
    return pack<int16_t>(v);
  }
  case fptu::bin128: {
    const Val v = pack<fptu::binary128_t>(t.get_bin128(tok));
    PBT_CHECK(pack<fptu::uuid_t>(t.get_uuid(tok)) == v, "get_uuid() differs from get_bin128()");
    PBT_CHECK(pack<fptu::int128_t>(t.get_int128(tok)) == v, "get_int128() differs from get_bin128()");
    PBT_CHECK(pack<fptu::uint128_t>(t.get_uint128(tok)) == v, "get_uint128() differs from get_bin128()");
    return v;
  }
#define X(G, T, N)                                                             \
  case fptu::G:                                                                \
    return pack<T>(t.get_##N(tok));
    FP_FIXED_TYPES_PLAIN(X)
#undef X
  default:
    pbt::fail("harness: get of type %d", int(g));
  }
}
// read through an accessor (collections, iterators, operator[])
template <typename ACC> Val acc_value(const ACC &a, genus g) {
  switch (g) {
  case fptu::text:
    return val_of(a.get_string());
  case fptu::varbin:
    return val_of(a.get_varbinary());
  case fptu::property:
    return val_of_property(a.get_property());
  case fptu::nested:
    return val_of_nested(a.get_nested());
  case fptu::t32:
    return pack<uint32_t>(a.get_datetime().utc_seconds());
  case fptu::t64:
    return pack<uint64_t>(a.get_datetime().fixedpoint_32dot32());
  case fptu::i8: {
    const int8_t v = a.get_i8();
    PBT_CHECK(a.get_bool() == (v != 0), "get_bool() of %d", v);
    return pack<int8_t>(v);
  }
  case fptu::i16: {
    const int16_t v = a.get_i16();
    PBT_CHECK(a.get_enum() == v, "get_enum() of %d", v);
    return pack<int16_t>(v);
  }
  case fptu::bin128: {
    const Val v = pack<fptu::binary128_t>(a.get_bin128());
    PBT_CHECK(pack<fptu::uuid_t>(a.get_uuid()) == v, "get_uuid() differs from get_bin128()");
    PBT_CHECK(pack<fptu::int128_t>(a.get_int128()) == v, "get_int128() differs from get_bin128()");
    PBT_CHECK(pack<fptu::uint128_t>(a.get_uint128()) == v, "get_uint128() differs from get_bin128()");
    return v;
  }
#define X(G, T, N)                                                             \
  case fptu::G:                                                                \
    return pack<T>(a.get_##N());
    FP_FIXED_TYPES_PLAIN(X)
#undef X
  default:
    pbt::fail("harness: accessor of type %d", int(g));
  }
}
// the same through the assignment operators of an accessor
template <typename ACC> void acc_assign(ACC &a, genus g, const Val &v, unsigned way) {
  switch (g) {
  case fptu::text:
    if (way == 0)
      a = string_view(v.data(), v.size());
    else if (way == 1 || v.find('\0') != Val::npos)
      a = std::string(v);
    else
      a = v.c_str();
    break;
  case fptu::varbin:
    a.set_varbinary(string_view(v.data(), v.size()));
    break;
  case fptu::property:
    a = fptu::property_pair(string_view(v.data() + 1, v.size() - 1), int8_t(v[0]));
    break;
  case fptu::nested: {
    Aligned x(v);
    const fptu::details::tuple_ro *ro = v.empty() ? nullptr : x.ro();
    a = ro;
    break;
  }
  case fptu::t32:
    a = fptu::datetime_t::from_seconds(unpack<uint32_t>(v));
    break;
  case fptu::t64:
    a = t64_of(unpack<uint64_t>(v));
    break;
  case fptu::bin128:
    if (way == 0)
      a = unpack<fptu::binary128_t>(v);
    else if (way == 1)
      a = unpack<fptu::uuid_t>(v);
    else
      a.set_int128(unpack<fptu::int128_t>(v));
    break;
#define X(G, T, N)                                                             \
  case fptu::G:                                                                \
    a = unpack<T>(v);                                                          \
    break;
    FP_FIXED_TYPES_BUT_BIN128(X)
#undef X
  default:
    pbt::fail("harness: accessor assign of type %d", int(g));
  }
}
template <typename ACC> void acc_set(ACC &a, genus g, const Val &v) {
  switch (g) {
  case fptu::text:
    a.set_string(string_view(v.data(), v.size()));
    break;
  case fptu::varbin:
    a.set_varbinary(string_view(v.data(), v.size()));
    break;
  case fptu::property:
    a.set_property(fptu::property_pair(string_view(v.data() + 1, v.size() - 1),
                                       int8_t(v[0])));
    break;
  case fptu::nested: {
    Aligned x(v);
    a.set_nested(v.empty() ? nullptr : x.ro());
    break;
  }
  case fptu::t32:
    a.set_datetime(fptu::datetime_t::from_seconds(unpack<uint32_t>(v)));
    break;
  case fptu::t64:
    a.set_datetime(t64_of(unpack<uint64_t>(v)));
    break;
#define X(G, T, N)                                                             \
  case fptu::G:                                                                \
    a.set_##N(unpack<T>(v));                                                   \
    break;
    FP_FIXED_TYPES(X)
#undef X
  default:
    pbt::fail("harness: accessor set of type %d", int(g));
  }
}

// --- value generation ---------------------------------------------------------
inline const std::vector<Val> &nested_pool() {
  // serialised tuples made once by the library itself, schema-less
  static std::vector<Val> pool;
  if (pool.empty()) {
    for (unsigned k = 0; k < 6; ++k) {
      fptu::tuple_rw_fixed t(64, 4000, nullptr);
      for (unsigned i = 0; i < k * 2; ++i) {
        t.set_u32(token(fptu::u32, i + 1, false, true), i * 77 + k);
        t.set_string(token(fptu::text, i + 1, false, true),
                     std::string(i * 3 + k, char('a' + i)));
      }
      auto w = t.take_weak_asis();
      pool.push_back(Val(static_cast<const char *>(w.data()), w.size()));
    }
  }
  return pool;
}

struct GenOpt {
  size_t max_len = 40; // usual maximum of stretchy values
  unsigned big_percent = 3;
  size_t big_len = 1200;
};

inline size_t gen_len(Src &s, const GenOpt &o) {
  if (s.chance(o.big_percent)) {
    switch (s.below(3)) {
    case 0:
      return size_t(s.range(250, 260)); // tiny/large string threshold
    case 1:
      return size_t(s.below(o.big_len + 1));
    default:
      return size_t(o.big_len - s.below(std::min<size_t>(o.big_len, 9)));
    }
  }
  return size_t(s.below(o.max_len + 1));
}

inline Val gen_value(Src &s, genus g, const GenOpt &o = GenOpt()) {
  switch (g) {
  case fptu::text:
  case fptu::varbin:
    return s.bytes(gen_len(s, o));
  case fptu::nested:
    return s.chance(10) ? Val() : s.pick(nested_pool());
  case fptu::property: {
    Val v(1, char(s.below(256)));
    size_t n = s.chance(5) ? size_t(s.range(240, 255)) : size_t(s.below(std::min<size_t>(o.max_len, 255) + 1));
    return v + s.bytes(n);
  }
  case fptu::f32: {
    static const uint32_t k[] = {0,          0x80000000, 0x3f800000, 0x7f800000,
                                 0xff800000, 0x7fc00000, 0xffffffff, 1,
                                 0x7f7fffff, 0xff7fffff, 0x00800000};
    return pack<uint32_t>(s.chance(50) ? k[s.below(sizeof(k) / 4)]
                                       : uint32_t(s.bits()));
  }
  case fptu::f64: {
    static const uint64_t k[] = {0,
                                 0x8000000000000000ull,
                                 0x3ff0000000000000ull,
                                 0x7ff0000000000000ull,
                                 0xfff0000000000000ull,
                                 0x7ff8000000000000ull,
                                 ~0ull,
                                 1,
                                 0x7fefffffffffffffull,
                                 0xffefffffffffffffull};
    return pack<uint64_t>(s.chance(50) ? k[s.below(sizeof(k) / 8)] : s.bits());
  }
  case fptu::d64:
    return s.chance(30)   ? denil(g)
           : s.chance(20) ? natural_empty(g)
                          : pack<uint64_t>(s.bits());
  case fptu::mac:
    return pack<uint64_t>(s.edgy() & UINT64_C(0xffffFFFFffff));
  case fptu::i8:
  case fptu::u8:
    return pack<uint8_t>(uint8_t(s.edgy()));
  case fptu::i16:
  case fptu::u16:
    return pack<uint16_t>(uint16_t(s.edgy()));
  case fptu::i32:
  case fptu::u32:
  case fptu::t32:
    return pack<uint32_t>(uint32_t(s.edgy()));
  case fptu::i64:
  case fptu::u64:
  case fptu::t64:
    return pack<uint64_t>(s.edgy());
  default: { // fixed binary
    unsigned n = ginfo(g).size;
    switch (s.below(4)) {
    case 0:
      return Val(n, '\0');
    case 1: { // one bit set
      Val v(n, '\0');
      v[s.below(n)] = char(1u << s.below(8));
      return v;
    }
    default:
      return s.bytes(n);
    }
  }
  }
}

// --- schemas --------------------------------------------------------------------
struct Fld {
  token tok;
  genus g;
  bool preplaced, collection, discernible;
  std::string name;
};

inline std::string show(const Val &v) {
  std::string o = pbt::fmt("%zu:", v.size());
  for (size_t i = 0; i < v.size() && i < 20; ++i)
    o += pbt::fmt("%02x", (unsigned char)v[i]);
  if (v.size() > 20)
    o += "..";
  return o;
}
inline std::string show(const Fld &f) {
  if (f.preplaced)
    return pbt::fmt("%s/%s@%ld%s", f.name.c_str(), ginfo(f.g).name,
                    long(f.tok.preplaced_offset()), f.discernible ? "/dn" : "");
  return pbt::fmt("%s/%s#%u%s%s", f.name.c_str(), ginfo(f.g).name, f.tok.id(),
                  f.collection ? "/coll" : "", f.discernible ? "/dn" : "");
}

} // namespace fp
