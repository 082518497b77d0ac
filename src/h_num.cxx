// C08: numbers written through the converting setters are stored exactly or
// refused; numbers read through the converting getters are exact or refused.
#include "world.h"
#include <memory>

using namespace fp;

namespace {

typedef unsigned __int128 u128;
typedef __int128 i128;

// a mathematical value: an integer with sign, or a floating-point number
struct Num {
  bool isf = false;
  double d = 0;
  bool neg = false;
  u128 mag = 0;
};
Num of_int(i128 v) {
  Num n;
  n.neg = v < 0;
  n.mag = v < 0 ? u128(0) - u128(v) : u128(v);
  return n;
}
Num of_uint(u128 v) {
  Num n;
  n.mag = v;
  return n;
}
Num of_float(double v) {
  Num n;
  n.isf = true;
  n.d = v;
  return n;
}
std::string show(const Num &n) {
  if (n.isf)
    return pbt::fmt("%.17g", n.d);
  if (n.mag >> 64)
    return pbt::fmt("%s0x%llx%016llx", n.neg ? "-" : "", (unsigned long long)(n.mag >> 64),
                    (unsigned long long)n.mag);
  return pbt::fmt("%s%llu", n.neg ? "-" : "", (unsigned long long)n.mag);
}
// exact conversion of an integral floating-point number
bool integral(double d) { return std::isfinite(d) && d == std::trunc(d); }
Num int_of_float(double d) { // |d| < 2^127
  Num n;
  n.neg = d < 0;
  n.mag = u128(std::fabs(d));
  if (!n.mag)
    n.neg = false;
  return n;
}
bool same(const Num &a, const Num &b) {
  if (a.isf && b.isf)
    return a.d == b.d || (std::isnan(a.d) && std::isnan(b.d));
  if (!a.isf && !b.isf)
    return a.mag == b.mag && (a.neg == b.neg || !a.mag);
  const Num &f = a.isf ? a : b, &i = a.isf ? b : a;
  if (!integral(f.d) || std::fabs(f.d) >= 0x1p127)
    return false;
  return same(int_of_float(f.d), i);
}
bool is_zero(const Num &n) { return n.isf ? n.d == 0 : n.mag == 0; }

struct IntRange {
  bool is_signed;
  unsigned bits;
};
bool int_range(genus g, IntRange &r) {
  switch (g) {
  case fptu::i8:
    return r = {true, 8}, true;
  case fptu::i16:
    return r = {true, 16}, true;
  case fptu::i32:
    return r = {true, 32}, true;
  case fptu::i64:
    return r = {true, 64}, true;
  case fptu::u8:
    return r = {false, 8}, true;
  case fptu::u16:
    return r = {false, 16}, true;
  case fptu::u32:
    return r = {false, 32}, true;
  case fptu::u64:
    return r = {false, 64}, true;
  default:
    return false;
  }
}
bool fits(const IntRange &r, const Num &n) {
  const u128 one = 1;
  if (n.neg && n.mag)
    return r.is_signed && n.mag <= (one << (r.bits - 1));
  return n.mag <= (one << (r.bits - (r.is_signed ? 1 : 0))) - 1;
}
bool is_min(const IntRange &r, const Num &n) {
  return r.is_signed && n.neg && n.mag == (u128(1) << (r.bits - 1));
}

Num num_of_raw(genus g, const Val &v) {
  switch (g) {
  case fptu::i8:
    return of_int(unpack<int8_t>(v));
  case fptu::i16:
    return of_int(unpack<int16_t>(v));
  case fptu::i32:
    return of_int(unpack<int32_t>(v));
  case fptu::i64:
    return of_int(unpack<int64_t>(v));
  case fptu::u8:
    return of_uint(unpack<uint8_t>(v));
  case fptu::u16:
    return of_uint(unpack<uint16_t>(v));
  case fptu::u32:
    return of_uint(unpack<uint32_t>(v));
  case fptu::u64:
    return of_uint(unpack<uint64_t>(v));
  case fptu::f32:
    return of_float(unpack<float>(v));
  case fptu::f64:
    return of_float(unpack<double>(v));
  default:
    pbt::fail("harness: raw of type %d", int(g));
  }
}

// what the operation may do
enum What { STORE, REFUSE, EITHER };
struct Expect {
  What what;
  Num stored;
};

enum Op {
  SET_INTEGER_S,
  SET_INTEGER_U,
  SET_UNSIGNED_S,
  SET_UNSIGNED_U,
  NUM_I32,
  NUM_U32,
  NUM_I64,
  NUM_U64,
  NUM_F32,
  NUM_F64,
  SET_FLOAT,
  SET_I128,
  SET_U128,
  ASG_I8,
  ASG_U8,
  ASG_I16,
  ASG_U16,
  T_I8,
  T_U8,
  T_I16,
  T_U16,
  T_I32,
  T_U32,
  T_I64,
  T_U64,
  T_F32,
  T_F64,
  OPS
};
const char *const op_names[OPS] = {
    "integer(i64)", "integer(u64)", "unsigned(i64)", "unsigned(u64)", "number(i32)",
    "number(u32)",  "number(i64)",  "number(u64)",   "number(float)", "number(double)",
    "float(double)", "int128",      "uint128",       "number(i8)",     "number(u8)",
    "number(i16)",  "number(u16)",  "i8",            "u8",            "i16",
    "u16",          "i32",          "u32",           "i64",           "u64",
    "f32",          "f64"};
// width of the argument: bits, sign, float
IntRange arg_range(Op op) {
  switch (op) {
  case SET_INTEGER_S:
  case SET_UNSIGNED_S:
  case NUM_I64:
  case T_I64:
    return {true, 64};
  case SET_INTEGER_U:
  case SET_UNSIGNED_U:
  case NUM_U64:
  case T_U64:
    return {false, 64};
  case NUM_I32:
  case T_I32:
    return {true, 32};
  case NUM_U32:
  case T_U32:
    return {false, 32};
  case ASG_I8:
  case T_I8:
    return {true, 8};
  case ASG_U8:
  case T_U8:
    return {false, 8};
  case ASG_I16:
  case T_I16:
    return {true, 16};
  case ASG_U16:
  case T_U16:
    return {false, 16};
  case SET_I128:
    return {true, 128};
  case SET_U128:
    return {false, 128};
  default:
    return {true, 0};
  }
}
bool arg_is_float(Op op) {
  return op == NUM_F32 || op == NUM_F64 || op == SET_FLOAT || op == T_F32 || op == T_F64;
}

// argument generation: borders of every width, their neighbours, random bits
u128 gen_any(Src &s) {
  static const unsigned widths[] = {7, 8, 15, 16, 21, 24, 31, 32, 53, 63, 64, 127};
  u128 v;
  switch (s.below(4)) {
  case 0:
    v = u128(s.below(3));
    break;
  case 1:
  case 2: {
    v = (u128(1) << widths[s.below(12)]);
    if (s.chance(20))
      v += u128(1) << widths[s.below(12)];
    break;
  }
  default:
    v = u128(s.bits());
    if (s.chance(20))
      v |= u128(s.bits()) << 64;
    v >>= s.below(64);
    break;
  }
  v += u128(s.below(5)) - 2;
  if (s.chance(40))
    v = u128(0) - v;
  return v;
}
// the borders of what a field of the type can hold, and their neighbours
u128 gen_border(Src &s, genus g) {
  u128 v = 0;
  IntRange r{true, 0};
  if (int_range(g, r)) {
    switch (s.below(3)) {
    case 0:
      v = r.is_signed ? (u128(1) << (r.bits - 1)) : (u128(1) << r.bits);
      break;
    case 1:
      v = r.is_signed ? u128(0) - (u128(1) << (r.bits - 1)) : 0;
      break;
    }
  } else {
    static const unsigned b[] = {21, 24, 53};
    v = u128(1) << b[s.below(3)];
    if (s.chance(50))
      v = u128(0) - v;
  }
  return v + u128(s.below(4)) - 2;
}
Num gen_arg(Src &s, Op op, genus g) {
  const bool targeted = s.chance(50);
  auto gen_raw = [targeted, g](Src &s) { return targeted ? gen_border(s, g) : gen_any(s); };
  if (arg_is_float(op)) {
    double d;
    switch (targeted ? 0 : s.below(5)) {
    case 0: {
      u128 r = gen_raw(s);
      d = double(i128(r));
      break;
    }
    case 1: {
      static const double k[] = {0.0,     -0.0,    0.5,     -0.5,    INFINITY, -INFINITY,
                                 NAN,     FLT_MAX, -FLT_MAX, 0x1p128, -0x1p128, DBL_MAX,
                                 DBL_MIN, FLT_MIN, 0x1.ffffffp127, 0x1.fffffe8p127, 1e-320};
      d = k[s.below(sizeof(k) / sizeof(k[0]))];
      break;
    }
    case 2: {
      static const unsigned widths[] = {7, 8, 15, 16, 24, 31, 32, 53, 63, 64};
      d = std::ldexp(1.0, int(widths[s.below(10)]));
      if (s.chance(50))
        d = -d;
      break;
    }
    case 3:
      d = double(int64_t(s.bits()) >> s.below(64)) / double(1 + s.below(16));
      break;
    default: {
      uint64_t b = s.bits();
      memcpy(&d, &b, 8);
    }
    }
    const bool narrow = op == NUM_F32 || op == T_F32;
    switch (s.below(5)) {
    case 0:
      d = narrow ? std::nextafter(float(d), -INFINITY) : std::nextafter(d, -INFINITY);
      break;
    case 1:
      d = narrow ? std::nextafter(float(d), INFINITY) : std::nextafter(d, INFINITY);
      break;
    case 2:
      d += 0.5;
      break;
    default:
      break;
    }
    if (narrow)
      d = float(d);
    return of_float(d);
  }
  const IntRange r = arg_range(op);
  u128 v = gen_raw(s);
  if (s.chance(50) && r.bits < 128 && !fits(r, of_int(i128(v)))) {
    // clamp instead of wrapping
    v = r.is_signed ? (u128(1) << (r.bits - 1)) - (i128(v) < 0 ? 0 : 1)
                    : (i128(v) < 0 ? u128(0) : (u128(1) << r.bits) - 1);
    if (r.is_signed && i128(v) >= 0 && s.chance(50))
      v = u128(0) - v;
  }
  if (r.bits < 128) {
    v &= (u128(1) << r.bits) - 1;
    if (r.is_signed && (v >> (r.bits - 1)))
      v |= ~u128(0) << r.bits;
  }
  return r.is_signed ? of_int(i128(v)) : of_uint(v);
}

const int64_t safe32 = 0x1FFFFF;
const int64_t safe64 = (INT64_C(1) << 53) - 1;

genus genus_of_typed(Op op) {
  switch (op) {
  case T_I8:
    return fptu::i8;
  case T_U8:
    return fptu::u8;
  case T_I16:
    return fptu::i16;
  case T_U16:
    return fptu::u16;
  case T_I32:
    return fptu::i32;
  case T_U32:
    return fptu::u32;
  case T_I64:
    return fptu::i64;
  case T_U64:
    return fptu::u64;
  case T_F32:
    return fptu::f32;
  default:
    return fptu::f64;
  }
}

Expect expect(Op op, genus g, const Num &n) {
  Expect e{EITHER, n};
  IntRange r{true, 0};
  const bool is_int = int_range(g, r);
  if (op >= T_I8) { // typed setters: the own type only
    if (g == genus_of_typed(op))
      e.what = STORE;
    else if (is_int && !n.isf && !fits(r, n))
      e.what = REFUSE;
    else if (is_int && n.isf && !(integral(n.d) && std::fabs(n.d) < 0x1p64 && fits(r, int_of_float(n.d))))
      e.what = REFUSE;
    else if (!is_int && !n.isf && n.mag > u128(safe64))
      e.what = REFUSE;
    return e;
  }
  if (is_int) {
    if (!n.isf) {
      const bool natural =
          (op == SET_INTEGER_S || op == SET_INTEGER_U || op == SET_I128) ? r.is_signed
          : (op == SET_UNSIGNED_S || op == SET_UNSIGNED_U || op == SET_U128)
              ? !r.is_signed
              : true;
      e.what = !fits(r, n) ? REFUSE : natural ? STORE : EITHER;
      return e;
    }
    if (std::isnan(n.d) || std::fabs(n.d) >= 0x1p100) {
      e.what = REFUSE;
      return e;
    }
    e.stored = int_of_float(std::trunc(n.d));
    if (!fits(r, e.stored))
      e.what = REFUSE;
    else if (integral(n.d) && !is_min(r, e.stored) && op != SET_FLOAT)
      e.what = STORE;
    return e; // fractions and the type's minimum: either way
  }
  // floating-point fields
  if (n.isf) {
    if (g == fptu::f32) {
      if (std::isfinite(n.d) && std::fabs(n.d) > double(FLT_MAX)) {
        e.what = REFUSE;
        return e;
      }
      e.stored = of_float(double(float(n.d)));
    }
    e.what = STORE;
    return e;
  }
  const bool by_number = (op >= NUM_I32 && op <= NUM_U64) || (op >= ASG_I8 && op <= ASG_U16);
  const u128 safe = u128(g == fptu::f32 ? safe32 : safe64);
  if (by_number && n.mag <= safe)
    e.what = STORE;
  return e;
}

template <typename SETTER> void call_set(SETTER &&set, Op op, const Num &n) {
  const i128 i = n.neg ? i128(u128(0) - n.mag) : i128(n.mag);
  switch (op) {
  case SET_INTEGER_S:
    return set.integer(int64_t(i));
  case SET_INTEGER_U:
    return set.integer(uint64_t(i));
  case SET_UNSIGNED_S:
    return set.unsigned_(int64_t(i));
  case SET_UNSIGNED_U:
    return set.unsigned_(uint64_t(i));
  case NUM_I32:
    return set.number(int32_t(i));
  case NUM_U32:
    return set.number(uint32_t(i));
  case NUM_I64:
    return set.number(int64_t(i));
  case NUM_U64:
    return set.number(uint64_t(i));
  case NUM_F32:
    return set.number(float(n.d));
  case NUM_F64:
    return set.number(n.d);
  case SET_FLOAT:
    return set.float_(n.d);
  case SET_I128:
    return set.int128_(fptu::int128_t(i));
  case SET_U128:
    return set.uint128_(fptu::uint128_t(n.neg ? u128(0) - n.mag : n.mag));
  case ASG_I8:
    return set.narrow(int8_t(i));
  case ASG_U8:
    return set.narrow(uint8_t(i));
  case ASG_I16:
    return set.narrow(int16_t(i));
  case ASG_U16:
    return set.narrow(uint16_t(i));
  case T_I8:
    return set.t_i8(int8_t(i));
  case T_U8:
    return set.t_u8(uint8_t(i));
  case T_I16:
    return set.t_i16(int16_t(i));
  case T_U16:
    return set.t_u16(uint16_t(i));
  case T_I32:
    return set.t_i32(int32_t(i));
  case T_U32:
    return set.t_u32(uint32_t(i));
  case T_I64:
    return set.t_i64(int64_t(i));
  case T_U64:
    return set.t_u64(uint64_t(i));
  case T_F32:
    return set.t_f32(float(n.d));
  case T_F64:
    return set.t_f64(n.d);
  default:
    pbt::fail("harness: op");
  }
}

#define TYPED(X) X(i8) X(u8) X(i16) X(u16) X(i32) X(u32) X(i64) X(u64) X(f32) X(f64)

template <typename TUPLE> struct ByTuple {
  TUPLE &t;
  token tok;
  template <typename V> void integer(V v) { t.set_integer(tok, v); }
  template <typename V> void unsigned_(V v) { t.set_unsigned(tok, v); }
  template <typename V> void number(V v) { t.set_number(tok, v); }
  template <typename V> void narrow(V v) { t.set_number(tok, v); }
  void float_(double v) { t.set_float(tok, v); }
  void int128_(fptu::int128_t v) { t.set_int128(tok, v); }
  void uint128_(fptu::uint128_t v) { t.set_uint128(tok, v); }
#define X(N)                                                                   \
  template <typename V> void t_##N(V v) { t.set_##N(tok, v); }
  TYPED(X)
#undef X
};
template <typename TUPLE> struct ByInsert {
  TUPLE &t;
  token tok;
  template <typename V> void integer(V v) { t.insert_integer(tok, v); }
  template <typename V> void unsigned_(V v) { t.insert_unsigned(tok, v); }
  template <typename V> void number(V v) { t.insert_number(tok, v); }
  template <typename V> void narrow(V v) { t.insert_number(tok, v); }
  void float_(double v) { t.insert_float(tok, v); }
  void int128_(fptu::int128_t v) { t.insert_int128(tok, v); }
  void uint128_(fptu::uint128_t v) { t.insert_uint128(tok, v); }
#define X(N)                                                                   \
  template <typename V> void t_##N(V v) { t.insert_##N(tok, v); }
  TYPED(X)
#undef X
};
template <typename ACC> struct ByAccessor {
  ACC &a;
  template <typename V> void integer(V v) { a.set_integer(v); }
  template <typename V> void unsigned_(V v) { a.set_unsigned(v); }
  template <typename V> void number(V v) { a = v; }
  template <typename V> void narrow(V v) { a = v; }
  void float_(double v) { a.set_float(v); }
  void int128_(fptu::int128_t v) { a = v; }
  void uint128_(fptu::uint128_t v) { a = v; }
#define X(N)                                                                   \
  template <typename V> void t_##N(V v) { a.set_##N(v); }
  TYPED(X)
#undef X
};

// run the write; true = accepted
template <typename F> bool attempt(const char *what, F &&f) {
  try {
    f();
    return true;
  } catch (const fptu::value_out_of_range &) {
    return false;
  } catch (const fptu::type_mismatch &) {
    return false;
  } catch (const std::exception &e) {
    pbt::fail("%s failed with an unexpected error: %s", what, e.what());
  }
}

// read through everything and compare with the exact value
template <typename F> void reads(const char *what, genus g, const Num &want, bool must, F &&f) {
  Num got;
  try {
    got = f();
  } catch (const fptu::value_out_of_range &) {
    PBT_CHECK(!must, "%s of %s %s refused as out of range", what, ginfo(g).name, show(want).c_str());
    return;
  } catch (const fptu::type_mismatch &) {
    PBT_CHECK(!must, "%s of %s %s refused as type mismatch", what, ginfo(g).name, show(want).c_str());
    return;
  }
  PBT_CHECK(same(got, want), "%s of %s reads %s instead of %s", what, ginfo(g).name,
            show(got).c_str(), show(want).c_str());
}

template <typename GET> void check_all_reads(GET &&get, genus g, const Num &want) {
  IntRange r{true, 0};
  const bool is_int = int_range(g, r);
  reads("get_integer", g, want, is_int && r.is_signed, [&] { return of_int(get.integer()); });
  reads("get_unsigned", g, want, is_int && !r.is_signed, [&] { return of_uint(get.unsigned_()); });
  reads("get_int128", g, want, is_int && r.is_signed, [&] { return of_int(i128(get.int128_())); });
  reads("get_uint128", g, want, is_int && !r.is_signed, [&] { return of_uint(u128(get.uint128_())); });
  reads("get_number_as_ieee754double", g, want, want.isf || want.mag <= u128(safe64),
        [&] { return of_float(get.as_double()); });
  reads("get_float", g, want, want.isf, [&] { return of_float(get.float_()); });
#define XI(N)                                                                  \
  reads("get_" #N, g, want, g == fptu::N, [&] { return of_int(i128(get.t_##N())); });
  XI(i8) XI(u8) XI(i16) XI(u16) XI(i32) XI(u32) XI(i64) XI(u64)
#undef XI
  reads("get_f32", g, want, g == fptu::f32, [&] { return of_float(get.t_f32()); });
  reads("get_f64", g, want, g == fptu::f64, [&] { return of_float(get.t_f64()); });
}
template <typename T> struct GetTuple {
  const T &t;
  token tok;
  int64_t integer() { return t.get_integer(tok); }
  uint64_t unsigned_() { return t.get_unsigned(tok); }
  fptu::int128_t int128_() { return t.get_int128(tok); }
  fptu::uint128_t uint128_() { return t.get_uint128(tok); }
  double as_double() { return t.get_number_as_ieee754double(tok); }
  double float_() { return t.get_float(tok); }
#define X(N)                                                                   \
  auto t_##N() { return t.get_##N(tok); }
  TYPED(X)
#undef X
};
template <typename A> struct GetAcc {
  const A &a;
  int64_t integer() { return a.get_integer(); }
  uint64_t unsigned_() { return a.get_unsigned(); }
  fptu::int128_t int128_() { return a.get_int128(); }
  fptu::uint128_t uint128_() { return a.get_uint128(); }
  double as_double() { return a.get_number_as_ieee754double(); }
  double float_() { return a.get_float(); }
#define X(N)                                                                   \
  auto t_##N() { return a.get_##N(); }
  TYPED(X)
#undef X
};

struct Field {
  Fld f;
  std::optional<Num> v;     // single
  std::vector<Num> coll;    // collection
  std::optional<u128> bin;  // bin128
};

const std::vector<genus> &numeric() {
  static const std::vector<genus> v = {fptu::i8,  fptu::u8,  fptu::i16, fptu::u16, fptu::i32,
                                       fptu::u32, fptu::f32, fptu::i64, fptu::u64, fptu::f64};
  return v;
}

std::string coll_text(const std::vector<Num> &c) {
  std::string o = "{";
  for (auto &n : c)
    o += show(n) + " ";
  return o + "}";
}
bool coll_same(std::vector<Num> a, std::vector<Num> b) {
  if (a.size() != b.size())
    return false;
  for (auto &x : a) {
    bool found = false;
    for (size_t k = 0; k < b.size(); ++k)
      if (same(x, b[k])) {
        b.erase(b.begin() + k);
        found = true;
        break;
      }
    if (!found)
      return false;
  }
  return true;
}

template <typename T>
void check_tuple(const T &t, const std::vector<Field> &fields, const char *what,
                 const Field *deep = nullptr /* all */) {
  for (auto &x : fields) {
    const bool all = !deep || deep == &x;
    const Fld &f = x.f;
    if (f.g == fptu::bin128) {
      if (f.collection)
        continue;
      if (!x.bin)
        continue;
      const u128 u = u128(t.get_uint128(f.tok));
      const i128 i = i128(t.get_int128(f.tok));
      PBT_CHECK(u == *x.bin && u128(i) == *x.bin, "%s: 128-bit value of %s is altered", what,
                show(f).c_str());
      continue;
    }
    if (f.collection) {
      std::vector<Num> got;
      auto c = reader_for_index(t).collection(f.tok);
      for (auto it = c.begin(); it != c.end(); ++it) {
        Num v = num_of_raw(f.g, acc_value(*it, f.g));
        if (all)
          check_all_reads(GetAcc<typename std::decay<decltype(*it)>::type>{*it}, f.g, v);
        got.push_back(v);
        PBT_CHECK(got.size() < 10000, "endless collection");
      }
      PBT_CHECK(coll_same(got, x.coll), "%s: collection %s holds %s, expected %s", what,
                show(f).c_str(), coll_text(got).c_str(), coll_text(x.coll).c_str());
      continue;
    }
    const bool present = t.is_present(f.tok);
    if (!x.v) {
      PBT_CHECK(!present, "%s: %s is present, but was never written", what, show(f).c_str());
      continue;
    }
    if (f.discernible)
      PBT_CHECK(present, "%s: %s is absent, expected %s", what, show(f).c_str(),
                show(*x.v).c_str());
    else if (!is_zero(*x.v))
      PBT_CHECK(present, "%s: %s is absent, expected %s", what, show(f).c_str(),
                show(*x.v).c_str());
    const Num v = num_of_raw(f.g, get_value(t, f.tok, f.g));
    PBT_CHECK(same(v, *x.v), "%s: %s holds %s, expected %s", what, show(f).c_str(),
              show(v).c_str(), show(*x.v).c_str());
    if (!all)
      continue;
    check_all_reads(GetTuple<T>{t, f.tok}, f.g, *x.v);
    const auto acc = reader_for_index(t)[f.tok];
    check_all_reads(GetAcc<typename std::decay<decltype(acc)>::type>{acc}, f.g, *x.v);
  }
}

template <typename T>
void history(Src &s, Ctx &ctx, T &t, std::vector<Field> &fields, unsigned steps) {
  unsigned stored = 0, refused = 0, border = 0;
  for (unsigned step = 0; step < steps && !s.exhausted(); ++step) {
    Field &x = fields[s.below(fields.size())];
    const Fld &f = x.f;
    Op op = Op(s.below(OPS));
    if (f.g == fptu::bin128)
      op = s.chance(50) ? SET_I128 : SET_U128;
    else if (op >= T_I8 && s.chance(80)) // mostly the converting ones
      op = Op(s.below(ASG_U16 + 1));
    const Num n = gen_arg(s, op, f.g);
    if (f.g == fptu::bin128) {
      const u128 raw = n.neg ? u128(0) - n.mag : n.mag;
      const std::string what = pbt::fmt("set %s of %s to %s", show(f).c_str(), op_names[op], show(n).c_str());
      ctx.log("%s", what.c_str());
      if (raw == 0)
        continue; // C07
      PBT_CHECK(attempt(what.c_str(), [&] { call_set(ByTuple<T>{t, f.tok}, op, n); }),
                "%s is refused", what.c_str());
      x.bin = raw;
      continue;
    }
    Expect e = expect(op, f.g, n);
    IntRange r{true, 0};
    if (int_range(f.g, r) && !n.isf && !fits(r, n))
      ++border;
    if (f.preplaced && f.discernible && e.what != REFUSE) {
      // writing the designated null is the way to make it absent: C07
      if (!e.stored.isf && r.bits && ((r.is_signed && is_min(r, e.stored)) || (!r.is_signed && is_zero(e.stored))))
        continue;
      if (e.stored.isf && std::isnan(e.stored.d))
        continue;
    }
    bool ok;
    if (!f.collection) {
      const std::string what = pbt::fmt("set %s by %s to %s", show(f).c_str(), op_names[op], show(n).c_str());
      ctx.log("%s", what.c_str());
      if (s.chance(25)) {
        // the field must exist to have an accessor that can be assigned
        auto a = t[f.tok];
        if (a.exist() || f.preplaced) {
          ok = attempt(what.c_str(), [&] { call_set(ByAccessor<decltype(a)>{a}, op, n); });
        } else
          ok = attempt(what.c_str(), [&] { call_set(ByTuple<T>{t, f.tok}, op, n); });
      } else
        ok = attempt(what.c_str(), [&] { call_set(ByTuple<T>{t, f.tok}, op, n); });
      PBT_CHECK(!(ok && e.what == REFUSE), "%s is accepted", what.c_str());
      PBT_CHECK(!(!ok && e.what == STORE), "%s is refused", what.c_str());
      if (ok)
        x.v = e.stored;
    } else if (x.coll.empty() || (x.coll.size() < 6 && s.chance(60))) {
      const std::string what = pbt::fmt("insert into %s by %s %s", show(f).c_str(), op_names[op], show(n).c_str());
      ctx.log("%s", what.c_str());
      ok = attempt(what.c_str(), [&] { call_set(ByInsert<T>{t, f.tok}, op, n); });
      PBT_CHECK(!(ok && e.what == REFUSE), "%s is accepted", what.c_str());
      PBT_CHECK(!(!ok && e.what == STORE), "%s is refused", what.c_str());
      if (ok && (f.discernible || !is_zero(e.stored)))
        x.coll.push_back(e.stored);
    } else {
      // overwrite one element
      if (!f.discernible && is_zero(e.stored))
        continue; // C07
      auto c = t.collection(f.tok);
      auto it = c.begin();
      for (size_t k = s.below(x.coll.size()); k; --k)
        ++it;
      const Num old = num_of_raw(f.g, acc_value(*it, f.g));
      const std::string what = pbt::fmt("set element %s of %s by %s to %s", show(old).c_str(),
                                        show(f).c_str(), op_names[op], show(n).c_str());
      ctx.log("%s", what.c_str());
      auto a = *it;
      ok = attempt(what.c_str(), [&] { call_set(ByAccessor<decltype(a)>{a}, op, n); });
      PBT_CHECK(!(ok && e.what == REFUSE), "%s is accepted", what.c_str());
      PBT_CHECK(!(!ok && e.what == STORE), "%s is refused", what.c_str());
      if (ok) {
        bool found = false;
        for (auto &y : x.coll)
          if (!found && same(y, old))
            y = e.stored, found = true;
        PBT_CHECK(found, "element %s is not of the collection", show(old).c_str());
      }
    }
    if (ok)
      ++stored, ctx.label("stored");
    else
      ++refused, ctx.label("refused");
    check_tuple(t, fields, "after the write", ok ? &x : &fields[0]);
  }
  if (stored && refused && border)
    ctx.nontrivial();
}

void numbers(Src &s, Ctx &ctx) {
  auto sch = fptu::schema::create();
  std::vector<Field> fields;
  const unsigned n = 1 + unsigned(s.below(6));
  for (unsigned i = 0; i < n; ++i) {
    Field x;
    x.f.g = s.chance(6) ? fptu::bin128 : s.pick(numeric());
    x.f.name = pbt::fmt("n%u", i);
    const size_t kind = s.weighted({25, 15, 20, 20, 20});
    x.f.preplaced = kind < 2;
    x.f.collection = kind == 4 && x.f.g != fptu::bin128;
    x.f.discernible = kind == 1 || kind == 3 || (kind == 4 && s.chance(60));
    if (x.f.preplaced) {
      x.f.tok = sch->define_preplaced(std::string(x.f.name), x.f.g, x.f.discernible, false, nullptr);
      if (!x.f.discernible && x.f.g != fptu::bin128)
        x.v = fptu::f32 == x.f.g || fptu::f64 == x.f.g ? of_float(0) : of_uint(0);
    } else
      x.f.tok = sch->define_loose(std::string(x.f.name), x.f.g, x.f.collection, x.f.discernible, false);
    ctx.log("field %s", fp::show(x.f).c_str());
    fields.push_back(x);
  }
  const unsigned steps = 1 + unsigned(s.below(12));
  auto serialised = [&](auto &t) {
    auto w = t.take_weak_asis();
    check_tuple(w, fields, "serialised form");
    auto p = t.take_managed_clone_optimized();
    check_tuple(p.first, fields, "managed clone");
    // and back to the modifiable form
    w = t.take_weak_asis();
    fptu::tuple_rw_fixed again = fptu::tuple_rw_fixed::clone(w, 4, 64, sch.get());
    check_tuple(again, fields, "modifiable copy");
  };
  if (s.chance(30)) {
    fptu::tuple_rw_managed t(s.below(8), s.below(60), sch.get());
    history(s, ctx, t, fields, steps);
    serialised(t);
  } else {
    fptu::tuple_rw_fixed t(64, 2000, sch.get());
    history(s, ctx, t, fields, steps);
    serialised(t);
  }
}

} // namespace

int main(int argc, char **argv) {
  return pbt::driver(argc, argv,
                     {{"numbers",
                       "at least one number was stored, one refused, and an integer outside the "
                       "field's range was offered",
                       numbers}});
}
