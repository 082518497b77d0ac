// C20: tokens.  (1) the attributes and the order of tokens; (2) a field is
// addressed the same by a compile-time and by a run-time token: histories are
// executed on two tuples, one through static and one through dynamic tokens.
#pragma once
#include "world.h"
#include <typeinfo>

using namespace fp;
namespace D = fptu::details;

namespace tk {

template <D::tag_t TAG>
struct St : D::token_operations<fptu::token_static<TAG>> {
  constexpr St() noexcept {}
};

enum Colour : int16_t { red, green, blue };

// an application structure that maps onto the pre-placed area
#pragma pack(push, 4)
struct Rec {
  uint8_t f_u8;
  int8_t f_i8;
  uint16_t f_u16;
  int16_t f_i16;
  bool f_bool;
  Colour f_enum;
  uint32_t f_u32;
  int32_t f_i32;
  float f_f32;
  uint64_t f_u64;
  int64_t f_i64;
  double f_f64;
  fptu::datetime_t f_t64;
  fptu::decimal64 f_d64;
  fptu::mac_address_t f_mac;
  fptu::ip_address_t f_ip;
  fptu::preplaced_string f_text;
  fptu::preplaced_varbin f_varbin;
  fptu::preplaced_nested f_nested;
  fptu::preplaced_property f_property;
  fptu::binary96_t f_bin96;
  fptu::binary128_t f_bin128;
  fptu::binary160_t f_bin160;
  fptu::binary192_t f_bin192;
  fptu::binary224_t f_bin224;
  fptu::binary256_t f_bin256;
  fptu::binary320_t f_bin320;
  fptu::binary384_t f_bin384;
  fptu::binary512_t f_bin512;
};
#pragma pack(pop)

using Fixed = fptu::tuple_rw_fixed;
using Grow = fptu::tuple_rw_managed;
using Weak = fptu::tuple_ro_weak;
using RoM = fptu::tuple_ro_managed;

// --- typed operations that take the token as a template parameter -------------
template <genus G, typename T, typename TOK>
void tset(T &t, const TOK &tok, const Val &v) {
  if constexpr (G == fptu::text)
    t.set_string(tok, string_view(v.data(), v.size()));
  else if constexpr (G == fptu::varbin)
    t.set_varbinary(tok, string_view(v.data(), v.size()));
  else if constexpr (G == fptu::property)
    t.set_property(tok, fptu::property_pair(string_view(v.data() + 1, v.size() - 1), int8_t(v[0])));
  else if constexpr (G == fptu::nested) {
    Aligned a(v);
    t.set_nested(tok, v.empty() ? Weak() : Weak(a.buf.data(), v.size(), nullptr, fptu::enforce_skip_validation));
  } else if constexpr (G == fptu::t32)
    t.set_datetime(tok, fptu::datetime_t::from_seconds(unpack<uint32_t>(v)));
  else if constexpr (G == fptu::t64)
    t.set_datetime(tok, t64_of(unpack<uint64_t>(v)));
#define X(GG, T_, N)                                                           \
  else if constexpr (G == fptu::GG)                                            \
    t.set_##N(tok, unpack<T_>(v));
  FP_FIXED_TYPES(X)
#undef X
}
template <genus G, typename T, typename TOK> Val tget(const T &t, const TOK &tok) {
  if constexpr (G == fptu::text)
    return val_of(t.get_string(tok));
  else if constexpr (G == fptu::varbin)
    return val_of(t.get_varbinary(tok));
  else if constexpr (G == fptu::property)
    return val_of_property(t.get_property(tok));
  else if constexpr (G == fptu::nested)
    return val_of_nested(t.get_nested_weak(tok).get_impl());
  else if constexpr (G == fptu::t32 || G == fptu::t64)
    return pack<uint64_t>(t.get_datetime(tok).fixedpoint_32dot32());
#define X(GG, T_, N)                                                           \
  else if constexpr (G == fptu::GG)                                            \
    return pack<T_>(t.get_##N(tok));
  FP_FIXED_TYPES(X)
#undef X
}
template <genus G, typename A> Val aget(const A &a) {
  if constexpr (G == fptu::text)
    return val_of(a.get_string());
  else if constexpr (G == fptu::varbin)
    return val_of(a.get_varbinary());
  else if constexpr (G == fptu::property)
    return val_of_property(a.get_property());
  else if constexpr (G == fptu::nested)
    return val_of_nested(a.get_nested());
  else if constexpr (G == fptu::t32 || G == fptu::t64)
    return pack<uint64_t>(a.get_datetime().fixedpoint_32dot32());
#define X(GG, T_, N)                                                           \
  else if constexpr (G == fptu::GG)                                            \
    return pack<T_>(a.get_##N());
  FP_FIXED_TYPES(X)
#undef X
}
template <genus G, typename A> void aset(A &&a, const Val &v) {
  if constexpr (G == fptu::text)
    a.set_string(string_view(v.data(), v.size()));
  else if constexpr (G == fptu::varbin)
    a.set_varbinary(string_view(v.data(), v.size()));
  else if constexpr (G == fptu::property)
    a.set_property(fptu::property_pair(string_view(v.data() + 1, v.size() - 1), int8_t(v[0])));
  else if constexpr (G == fptu::nested) {
    Aligned al(v);
    a.set_nested(v.empty() ? nullptr : al.ro());
  } else if constexpr (G == fptu::t32)
    a.set_datetime(fptu::datetime_t::from_seconds(unpack<uint32_t>(v)));
  else if constexpr (G == fptu::t64)
    a.set_datetime(t64_of(unpack<uint64_t>(v)));
#define X(GG, T_, N)                                                           \
  else if constexpr (G == fptu::GG)                                            \
    a.set_##N(unpack<T_>(v));
  FP_FIXED_TYPES(X)
#undef X
}

// The outcome of an operation: a value, or the kind of the refusal.
template <typename F> Val outcome(F &&f) {
  try {
    return "=" + f();
  } catch (const std::exception &e) {
    return std::string("!") + typeid(e).name();
  }
}

// One operation, for any tuple class and any kind of a token.  `what` selects it.
template <typename T> T &mut(const T &t) { return const_cast<T &>(t); }
enum What { W_set, W_aset, W_erase, W_aempty, W_get, W_aget, W_present, W_exist, W_coll, W_kind, W_foreign_get, W_foreign_set };

template <typename A> Val kind_of(const A &a) {
  Val r;
  const bool b[] = {a.is_saturated(), a.is_rangechecking(), a.is_discernible_null(), a.is_preplaced(),
                    a.is_loose(), a.is_collection(), a.is_stretchy(), a.is_bool(), a.is_enum(), a.is_text(),
                    a.is_number(), a.is_integer(), a.is_signed(), a.is_unsigned(), a.is_float(), a.is_decimal()};
  for (bool x : b)
    r += x ? '1' : '0';
  return r + char('A' + int(a.type()));
}

// functions of other types are tried on these
template <genus G>
constexpr bool foreign = G == fptu::i8 || G == fptu::u16 || G == fptu::i32 || G == fptu::u64 || G == fptu::f32 || G == fptu::text || G == fptu::bin128;

template <genus G, typename T, typename TOK>
Val reading(const T &t, const TOK &tok, What w, unsigned k) {
  switch (w) {
  case W_get:
    return outcome([&] { return tget<G>(t, tok); });
  case W_aget:
    return outcome([&] { return aget<G>(mut(t)[tok]); });
  case W_present:
    return outcome([&] { return Val(1, t.is_present(tok) ? 'y' : 'n'); });
  case W_exist:
    return outcome([&] { return Val(1, mut(t)[tok].exist() ? 'y' : 'n') + (mut(t)[tok] ? 'y' : 'n'); });
  case W_kind:
    return outcome([&] { return kind_of(mut(t)[tok]); });
  case W_coll:
    return outcome([&] {
      std::vector<Val> all;
      const auto c = mut(t).collection(tok);
      for (auto i = c.begin(); i != c.end(); ++i)
        all.push_back(aget<G>(*i));
      return (c.empty() ? Val("empty") : Val()) + show_multiset(all);
    });
  case W_foreign_get:
    if constexpr (!foreign<G>)
      return "";
    else switch (k % 9) {
    case 0: return outcome([&] { return pack(t.get_integer(tok)); });
    case 1: return outcome([&] { return pack(t.get_unsigned(tok)); });
    case 2: return outcome([&] { return pack(double(mut(t)[tok].get_number_as_ieee754double())); });
    case 3: return outcome([&] { return pack(t.get_i32(tok)); });
    case 4: return outcome([&] { return val_of(t.get_string(tok)); });
    case 5: return outcome([&] { return pack(t.get_u8(tok)); });
    case 6: return outcome([&] { return pack(t.get_bin128(tok)); });
    case 7: return outcome([&] { return Val(1, char(t.get_bool(tok))); });
    default: return outcome([&] { return pack(short(t.get_enum(tok))); });
    }
  default:
    return "";
  }
}

template <genus G, typename T, typename TOK>
Val writing(T &t, const TOK &tok, What w, unsigned k, const Val &v) {
  switch (w) {
  case W_set:
    return outcome([&] { tset<G>(t, tok, v); return Val(); });
  case W_aset:
    return outcome([&] { auto a = t[tok]; aset<G>(a, v); return Val(1, a.exist() ? 'y' : 'n'); });
  case W_erase:
    return outcome([&] { return Val(1, t.erase(tok) ? 'y' : 'n'); });
  case W_aempty:
    return outcome([&] { auto a = t[tok]; aset<G>(a, natural_empty(G)); return Val(1, a.exist() ? 'y' : 'n'); });
  case W_foreign_set: if constexpr (foreign<G>) {
    int64_t i = 0;
    memcpy(&i, v.data(), std::min<size_t>(v.size(), 8));
    switch (k % 7) {
    case 0: return outcome([&] { t.set_integer(tok, i); return Val(); });
    case 1: return outcome([&] { t.set_unsigned(tok, uint64_t(i)); return Val(); });
    case 2: return outcome([&] { t.set_number(tok, double(i)); return Val(); });
    case 3: return outcome([&] { t.set_i32(tok, int32_t(i)); return Val(); });
    case 4: return outcome([&] { t.set_string(tok, string_view(v.data(), v.size())); return Val(); });
    case 5: return outcome([&] { t.set_u8(tok, uint8_t(i)); return Val(); });
    default: return outcome([&] { t.set_f64(tok, double(i)); return Val(); });
    }
  } else return "=";
  default:
    return "";
  }
}

struct Entry {
  Fld f;
  Val (*fixed_w)(Fixed &, What, unsigned, const Val &);
  Val (*grow_w)(Grow &, What, unsigned, const Val &);
  Val (*fixed_r)(const Fixed &, What, unsigned);
  Val (*weak_r)(const Weak &, What, unsigned);
  Val (*rom_r)(const RoM &, What, unsigned);
  Val (*fixed_d)(Fixed &, const token &, What, unsigned, const Val &);
  Val (*grow_d)(Grow &, const token &, What, unsigned, const Val &);
  Val (*fixed_dr)(const Fixed &, const token &, What, unsigned);
  Val (*weak_dr)(const Weak &, const token &, What, unsigned);
  Val (*rom_dr)(const RoM &, const token &, What, unsigned);
  bool (*same_kind)(const token &);
};

template <typename TOK> bool same_kind(const token &d) {
  const TOK s{};
  return s.tag() == d.tag() && s.normalized_tag() == d.normalized_tag() && s.type() == d.type() &&
         s.is_valid() && s.is_loose() == d.is_loose() && s.is_preplaced() == d.is_preplaced() &&
         TOK::is_static_preplaced() == d.is_preplaced() && TOK::static_genus == d.type() &&
         (!d.is_preplaced() || (TOK::static_offset == d.preplaced_offset() && s.preplaced_offset() == d.preplaced_offset() &&
                                s.preplaced_size() == d.preplaced_size())) &&
         (!d.is_loose() || (s.id() == d.id() && s.is_collection() == d.is_collection())) &&
         s.is_discernible_null() == d.is_discernible_null() && s.is_saturated() == d.is_saturated() &&
         s.is_rangechecking() == d.is_rangechecking() && kind_of(s) == kind_of(d) && token(s) == d;
}

template <typename TOK, genus G> Entry entry(const char *name, bool pre, bool coll, bool dn) {
  Entry e;
  e.f.g = G;
  e.f.name = name;
  e.f.preplaced = pre;
  e.f.collection = coll;
  e.f.discernible = dn;
  e.f.tok = token(TOK());
  e.fixed_w = [](Fixed &t, What w, unsigned k, const Val &v) { return writing<G>(t, TOK(), w, k, v); };
  e.grow_w = [](Grow &t, What w, unsigned k, const Val &v) { return writing<G>(t, TOK(), w, k, v); };
  e.fixed_r = [](const Fixed &t, What w, unsigned k) { return reading<G>(t, TOK(), w, k); };
  e.weak_r = [](const Weak &t, What w, unsigned k) { return reading<G>(t, TOK(), w, k); };
  e.rom_r = [](const RoM &t, What w, unsigned k) { return reading<G>(t, TOK(), w, k); };
  e.fixed_d = [](Fixed &t, const token &x, What w, unsigned k, const Val &v) { return writing<G>(t, x, w, k, v); };
  e.grow_d = [](Grow &t, const token &x, What w, unsigned k, const Val &v) { return writing<G>(t, x, w, k, v); };
  e.fixed_dr = [](const Fixed &t, const token &x, What w, unsigned k) { return reading<G>(t, x, w, k); };
  e.weak_dr = [](const Weak &t, const token &x, What w, unsigned k) { return reading<G>(t, x, w, k); };
  e.rom_dr = [](const RoM &t, const token &x, What w, unsigned k) { return reading<G>(t, x, w, k); };
  e.same_kind = same_kind<TOK>;
  return e;
}


#define FIELDS1(P)                                                             \
  P(f_u8, u8) P(f_i8, i8) P(f_u16, u16) P(f_i16, i16) P(f_u32, u32) P(f_i32, i32)  \
  P(f_f32, f32) P(f_u64, u64) P(f_i64, i64) P(f_f64, f64) P(f_t64, t64)        \
  D64(f_d64) P(f_mac, mac) P(f_ip, ip)
#define FIELDS2(P)                                                             \
  P(f_text, text) P(f_varbin, varbin)                                          \
  P(f_nested, nested) P(f_property, property) P(f_bin96, bin96)                \
  P(f_bin128, bin128) P(f_bin160, bin160) P(f_bin192, bin192)                  \
  P(f_bin224, bin224) P(f_bin256, bin256) P(f_bin320, bin320)                  \
  P(f_bin384, bin384) P(f_bin512, bin512)
#define ALL1(X)                                                                \
  X(text) X(varbin) X(nested) X(property) X(i8) X(u8) X(i16) X(u16) X(i32) X(u32) X(f32) X(t32)
#define ALL2(X)                                                                \
  X(i64) X(u64) X(f64) X(d64) X(t64) X(bin96) X(bin160) X(bin320) X(mac) X(ip) X(ipnet)
// the structure, null is not distinguished
// (std::decimal is not a trivial type, so its token is made by hand)
#define STRUCT0(F, G) v.push_back(entry<FPTU_TOKEN(Rec, F), fptu::G>("s_" #F, true, false, false));
#define STRUCT0_D64(F) v.push_back(entry<St<D::tag_from_offset(offsetof(Rec, F), fptu::d64, 8, false, false)>, fptu::d64>("s_" #F, true, false, false));
// the same structure once more after it, with the distinguishable null
#define STRUCT1(F, G)                                                          \
  v.push_back(entry<D::token_native<Rec, decltype(Rec::F), &Rec::F,            \
                                    offsetof(Rec, F) + sizeof(Rec), true>,     \
                    fptu::G>("n_" #F, true, false, true));
#define STRUCT1_D64(F) v.push_back(entry<St<D::tag_from_offset(offsetof(Rec, F) + sizeof(Rec), fptu::d64, 8, true, false)>, fptu::d64>("n_" #F, true, false, true));
// loose fields and collections
#define LOOSE(G)                                                               \
  v.push_back(entry<St<D::make_tag(fptu::G, 3 + unsigned(fptu::G), false,      \
                                   unsigned(fptu::G) & 1, false)>,             \
                    fptu::G>("l_" #G, false, false, unsigned(fptu::G) & 1));
#define COLL(G)                                                                \
  v.push_back(entry<St<D::make_tag(fptu::G, 1023 - unsigned(fptu::G), true,    \
                                   !(unsigned(fptu::G) & 1), false)>,          \
                    fptu::G>("c_" #G, false, true, !(unsigned(fptu::G) & 1)));

using Entries = std::vector<Entry>;
void entries_s1(Entries &), entries_s2(Entries &), entries_n1(Entries &), entries_n2(Entries &);
void entries_l1(Entries &), entries_l2(Entries &), entries_c1(Entries &), entries_c2(Entries &);
} // namespace tk
