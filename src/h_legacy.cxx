// C13: histories of C API calls against a multiset of (type, column, value).
#include "world.h"
#include <cstdlib>

using namespace fp;

namespace {

struct LT {
  const char *name;
  genus g;
  fptu_type t;
};
const std::vector<LT> &ltypes() {
  static const std::vector<LT> v = {
      {"uint16", fptu::u16, fptu_uint16},   {"bool", fptu::i8, fptu_bool},
      {"int32", fptu::i32, fptu_int32},     {"uint32", fptu::u32, fptu_uint32},
      {"fp32", fptu::f32, fptu_fp32},       {"int64", fptu::i64, fptu_int64},
      {"uint64", fptu::u64, fptu_uint64},   {"fp64", fptu::f64, fptu_fp64},
      {"datetime", fptu::t64, fptu_datetime}, {"96", fptu::bin96, fptu_96},
      {"128", fptu::bin128, fptu_128},      {"160", fptu::bin160, fptu_160},
      {"256", fptu::bin256, fptu_256},      {"cstr", fptu::text, fptu_cstr},
      {"opaque", fptu::varbin, fptu_opaque}, {"nested", fptu::nested, fptu_nested}};
  return v;
}
const LT *ltype(genus g) {
  for (auto &x : ltypes())
    if (x.g == g)
      return &x;
  return nullptr;
}

fptu_ro as_ro(const void *p, size_t n) {
  fptu_ro r;
  r.sys.iov_base = const_cast<void *>(p);
  r.sys.iov_len = n;
  return r;
}

// unit-aligned copy of a serialised tuple
struct Aligned4 {
  std::vector<uint32_t> b;
  explicit Aligned4(const Val &v) : b(v.size() / 4 + 1) { memcpy(b.data(), v.data(), v.size()); }
};

enum Verb { UPSERT, INSERT, UPDATE };

#define THREE(NAME, ...)                                                       \
  (verb == UPSERT ? fptu_upsert_##NAME(pt, col, __VA_ARGS__)                   \
                  : verb == INSERT ? fptu_insert_##NAME(pt, col, __VA_ARGS__)  \
                                   : fptu_update_##NAME(pt, col, __VA_ARGS__))

fptu_error write(Src &s, Verb verb, fptu_rw *pt, unsigned col, genus g, const Val &v) {
  switch (g) {
  case fptu::u16:
    return THREE(uint16, unpack<uint16_t>(v));
  case fptu::i8:
    return THREE(bool, v[0] != 0);
  case fptu::i32:
    return THREE(int32, unpack<int32_t>(v));
  case fptu::u32:
    return THREE(uint32, unpack<uint32_t>(v));
  case fptu::f32:
    return THREE(fp32, unpack<float>(v));
  case fptu::i64:
    return THREE(int64, unpack<int64_t>(v));
  case fptu::u64:
    return THREE(uint64, unpack<uint64_t>(v));
  case fptu::f64:
    return THREE(fp64, unpack<double>(v));
  case fptu::t64: {
    const fptu_datetime_t t = fptu::datetime_t::from_fixedpoint_32dot32(unpack<uint64_t>(v));
    return THREE(datetime, t);
  }
  case fptu::bin96:
  case fptu::bin128:
  case fptu::bin160:
  case fptu::bin256: {
    alignas(16) char buf[32];
    memcpy(buf, v.data(), v.size());
    return g == fptu::bin96    ? THREE(96, buf)
           : g == fptu::bin128 ? THREE(128, buf)
           : g == fptu::bin160 ? THREE(160, buf)
                               : THREE(256, buf);
  }
  case fptu::text:
    if (v.find('\0') == Val::npos && s.chance(50))
      return THREE(cstr, v.c_str());
    return THREE(string, v.data(), v.size());
  case fptu::varbin:
    if (s.chance(50)) {
      struct iovec iov;
      iov.iov_base = const_cast<char *>(v.data());
      iov.iov_len = v.size();
      return THREE(opaque_iov, iov);
    }
    return THREE(opaque, v.data(), v.size());
  case fptu::nested: {
    Aligned4 a(v);
    return THREE(nested, as_ro(a.b.data(), v.size()));
  }
  default:
    pbt::fail("harness: type");
  }
}

Val gen(Src &s, genus g) {
  GenOpt o;
  o.max_len = 24;
  o.big_percent = 2;
  if (g == fptu::i8)
    return Val(1, char(s.below(2)));
  if (g == fptu::nested)
    return s.pick(nested_pool());
  return gen_value(s, g, o);
}

Val c_text(const char *p) { return p ? Val(p) : Val(); }
Val iov_val(const struct iovec &v) { return Val(static_cast<const char *>(v.iov_base), v.iov_len); }

// value of a field through its reader; text is compared up to the first NUL
Val read_field(const fptu_field *pf, genus g) {
  switch (g) {
  case fptu::u16:
    return pack<uint16_t>(uint16_t(fptu_field_uint16(pf)));
  case fptu::i8:
    return Val(1, char(fptu_field_bool(pf)));
  case fptu::i32:
    return pack<int32_t>(int32_t(fptu_field_int32(pf)));
  case fptu::u32:
    return pack<uint32_t>(uint32_t(fptu_field_uint32(pf)));
  case fptu::f32:
    return pack<float>(fptu_field_fp32(pf));
  case fptu::i64:
    return pack<int64_t>(fptu_field_int64(pf));
  case fptu::u64:
    return pack<uint64_t>(fptu_field_uint64(pf));
  case fptu::f64:
    return pack<double>(fptu_field_fp64(pf));
  case fptu::t64:
    return pack<uint64_t>(fptu_field_datetime(pf).fixedpoint);
#define B(N)                                                                   \
  case fptu::bin##N: {                                                         \
    const uint8_t *p = fptu_field_##N(pf);                                     \
    PBT_CHECK(p, "fptu_field_" #N " gives NULL");                              \
    return Val(reinterpret_cast<const char *>(p), N / 8);                      \
  }
    B(96)
    B(128)
    B(160)
    B(256)
#undef B
  case fptu::text:
    return c_text(fptu_field_cstr(pf));
  case fptu::varbin:
    return iov_val(fptu_field_opaque(pf));
  case fptu::nested:
    return iov_val(fptu_field_nested(pf).sys);
  default:
    pbt::fail("harness: type");
  }
}

Val read_ro(fptu_ro ro, unsigned col, genus g, int *err) {
  switch (g) {
  case fptu::u16:
    return pack<uint16_t>(uint16_t(fptu_get_uint16(ro, col, err)));
  case fptu::i8:
    return Val(1, char(fptu_get_bool(ro, col, err)));
  case fptu::i32:
    return pack<int32_t>(int32_t(fptu_get_int32(ro, col, err)));
  case fptu::u32:
    return pack<uint32_t>(uint32_t(fptu_get_uint32(ro, col, err)));
  case fptu::f32:
    return pack<float>(fptu_get_fp32(ro, col, err));
  case fptu::i64:
    return pack<int64_t>(fptu_get_int64(ro, col, err));
  case fptu::u64:
    return pack<uint64_t>(fptu_get_uint64(ro, col, err));
  case fptu::f64:
    return pack<double>(fptu_get_fp64(ro, col, err));
  case fptu::t64:
    return pack<uint64_t>(fptu_get_datetime(ro, col, err).fixedpoint);
#define B(N)                                                                   \
  case fptu::bin##N: {                                                         \
    const uint8_t *p = fptu_get_##N(ro, col, err);                             \
    return p ? Val(reinterpret_cast<const char *>(p), N / 8) : Val();          \
  }
    B(96)
    B(128)
    B(160)
    B(256)
#undef B
  case fptu::text:
    return c_text(fptu_get_cstr(ro, col, err));
  case fptu::varbin:
    return iov_val(fptu_get_opaque(ro, col, err));
  case fptu::nested:
    return iov_val(fptu_get_nested(ro, col, err).sys);
  default:
    pbt::fail("harness: type");
  }
}

// what a C reader can see of the value
Val visible(genus g, const Val &v) { return g == fptu::text ? Val(v.c_str()) : v; }

const int NIL = 99; // fptu_upsert_null() has no type of its own
using Key = std::pair<int, unsigned>;
using Model = std::map<Key, std::vector<Val>>;

bool count_all(const fptu_field *, void *ctx, void *) noexcept {
  ++*static_cast<size_t *>(ctx);
  return true;
}
bool by_column(const fptu_field *pf, void *, void *param) noexcept {
  return fptu_field_column(pf) == *static_cast<int *>(param);
}

void check_content(const fptu_field *begin, const fptu_field *end, const Model &m, const char *what) {
  Model got;
  PBT_CHECK(begin <= end, "%s: begin is behind end", what);
  for (const fptu_field *pf = begin; pf != end; ++pf) {
    if (fptu_field_is_dead(pf)) {
      PBT_CHECK(fptu_field_column(pf) < 0, "%s: a deleted field has column %d", what, fptu_field_column(pf));
      continue;
    }
    const int col = fptu_field_column(pf);
    PBT_CHECK(col >= 0 && col <= int(fptu_max_cols), "%s: column %d", what, col);
    const fptu_type t = fptu_field_type(pf);
    const LT *lt = nullptr;
    for (auto &x : ltypes())
      if (x.t == t)
        lt = &x;
    if (!lt) {
      got[{NIL, unsigned(col)}].push_back(Val());
      continue;
    }
    const Val v = read_field(pf, lt->g);
    got[{int(lt->g), unsigned(col)}].push_back(v);
    // raw bytes of the value
    const struct iovec iov = fptu_field_as_iovec(pf);
    PBT_CHECK(iov.iov_base == fptu_field_payload(pf), "%s: fptu_field_payload differs", what);
    if (lt->g == fptu::text)
      PBT_CHECK(c_text(iov_val(iov).c_str()) == v, "%s: raw bytes of a %s differ from its value", what, lt->name);
    else
      PBT_CHECK(iov_val(iov) == v, "%s: raw bytes of a %s (%zu bytes) differ from its value (%zu bytes)", what, lt->name, iov.iov_len, v.size());
  }
  Model want;
  for (auto &x : m)
    for (auto &v : x.second)
      want[x.first].push_back(x.first.first == NIL ? Val() : visible(genus(x.first.first), v));
  for (auto *y : {&got, &want})
    for (auto &x : *y)
      std::sort(x.second.begin(), x.second.end());
  if (got == want)
    return;
  for (auto &x : want)
    if (got[x.first] != x.second)
      pbt::fail("%s: %s in column %u: have %s, expected %s", what,
                x.first.first == NIL ? "null" : ltype(genus(x.first.first))->name, x.first.second,
                show_multiset(got[x.first]).c_str(), show_multiset(x.second).c_str());
  for (auto &x : got)
    if (!x.second.empty() && !want.count(x.first))
      pbt::fail("%s: unexpected field type %d in column %u", what, x.first.first, x.first.second);
}

size_t items(const Model &m) {
  size_t n = 0;
  for (auto &x : m)
    n += x.second.size();
  return n;
}

bool has_genus(const std::vector<genus> &v, genus g) { return std::find(v.begin(), v.end(), g) != v.end(); }
bool has(const std::vector<Val> &v, const Val &x) { return std::find(v.begin(), v.end(), x) != v.end(); }

struct Filter {
  const char *name;
  fptu_filter f;
  std::vector<genus> g; // of the C types
  bool nil;
};
const std::vector<Filter> &filters() {
  using namespace fptu;
  static const std::vector<Filter> v = {
      {"any", fptu_any, {u16, i8, i32, u32, f32, i64, u64, f64, t64, bin96, bin128, bin160, bin256, text, varbin, nested}, true},
      {"any_int", fptu_any_int, {u16, i8, i32, u32, i64, u64}, true},
      {"any_uint", fptu_any_uint, {u16, u32, u64}, false},
      {"any_fp", fptu_any_fp, {f32, f64}, false},
      {"any_number", fptu_any_number, {u16, i8, i32, u32, i64, u64, f32, f64}, true},
      {"text or fp64", fptu_filter(fptu_filter_mask(fptu_cstr) | fptu_filter_mask(fptu_fp64)), {text, f64}, false}};
  return v;
}

size_t matching(const Model &m, unsigned col, const Filter &f) {
  size_t n = 0;
  for (auto &x : m) {
    if (x.first.second != col)
      continue;
    if (x.first.first == NIL ? f.nil : has_genus(f.g, genus(x.first.first)))
      n += x.second.size();
  }
  return n;
}

// what an earlier failure has left behind must not matter
void stale_error(Src &s) {
  switch (s.below(6)) {
  default:
    fptu_clear_error();
    break;
  case 0: {
    alignas(16) char mem[256];
    const size_t n = fptu_space(1, 0);
    fptu_rw *const pt = n <= sizeof(mem) ? fptu_init(mem, n, 1) : nullptr;
    if (pt && fptu_upsert_string(pt, 1, "somewhat longer than what fits", 30) != FPTU_OK)
      PBT_CHECK(fptu_last_error_code() == FPTU_ENOSPACE, "a text for a tuple without space: last error is %d", fptu_last_error_code());
    break;
  }
  case 1:
    (void)fptu_fetch(fptu_ro(), nullptr, 0, 0);
    PBT_CHECK(fptu_last_error_code() == FPTU_EINVAL, "fetch into nothing: last error is %d", fptu_last_error_code());
    { // nothing is an empty tuple
      fptu_ro none;
      none.sys.iov_base = s.chance(50) ? nullptr : &none;
      none.sys.iov_len = 0;
      const unsigned more = unsigned(s.below(6));
      const size_t n = fptu_space(more, 32);
      std::unique_ptr<char[]> b(new char[n]);
      fptu_rw *e = fptu_fetch(none, b.get(), n, more);
      PBT_CHECK(e, "fetch of nothing fails: %s", fptu_last_error_msg());
      PBT_CHECK(!fptu_check_rw(e) && fptu_is_empty_rw(e), "fetch of nothing gives something");
      PBT_CHECK(fptu_space4items(e) >= more, "fetch of nothing: room for %zu items of %u", fptu_space4items(e), more);
    }
    break;
  }
}

void check_ro(fptu_ro ro, const Model &m, Src &s, const std::vector<unsigned> &cols, const char *what) {
  const char *bad = fptu_check_ro(ro);
  PBT_CHECK(!bad, "%s: serialised form is invalid: %s", what, bad);
  PBT_CHECK(fptu_is_empty_ro(ro) ? m.empty() : true, "%s: not empty but said to be", what);
  check_content(fptu_begin_ro(ro), fptu_end_ro(ro), m, what);
  // some lookups and reads
  for (unsigned k = 0; k < 4; ++k) {
    const unsigned col = s.pick(cols);
    const LT &lt = s.pick(ltypes());
    auto it = m.find({int(lt.g), col});
    const fptu_field *pf = fptu::lookup(ro, col, lt.t);
    PBT_CHECK((pf != nullptr) == (it != m.end()), "%s: lookup of %s in column %u: %s", what, lt.name, col, pf ? "found" : "not found");
    if (s.chance(25)) {
      // there are no columns behind the last possible one
      const unsigned wrong = col + 2048 * unsigned(s.pick(std::vector<unsigned>{1, 2, 3, 32, 1024, 2097151u}));
      PBT_CHECK(!fptu::lookup(ro, wrong, lt.t), "%s: lookup of %s in column %u: found", what, lt.name, wrong);
      const fptu_field *end = fptu_end_ro(ro);
      PBT_CHECK(fptu_first(fptu_begin_ro(ro), end, wrong, fptu_type_or_filter(lt.t)) == end, "%s: %s in column %u: found", what, lt.name, wrong);
      PBT_CHECK(fptu::field_count(ro, wrong, lt.t) == 0, "%s: fields of %s in column %u are counted", what, lt.name, wrong);
    }
    if (pf)
      PBT_CHECK(fptu_field_type(pf) == lt.t && fptu_field_column(pf) == int(col), "%s: lookup gives another field", what);
    int err = -1;
    const bool want_err = s.chance(80);
    stale_error(s);
    const Val v = read_ro(ro, col, lt.g, want_err ? &err : nullptr);
    if (it == m.end()) {
      if (want_err)
        PBT_CHECK(err == FPTU_ENOFIELD, "%s: reading absent %s from column %u: error code %d", what, lt.name, col, err);
      PBT_CHECK(fptu_last_error_code() == FPTU_ENOFIELD, "%s: reading absent %s: last error is %d", what, lt.name, fptu_last_error_code());
    } else {
      if (want_err)
        PBT_CHECK(err == FPTU_OK, "%s: reading %s from column %u: error code %d", what, lt.name, col, err);
      bool found = false;
      for (auto &x : it->second)
        found = found || visible(lt.g, x) == v;
      PBT_CHECK(found, "%s: %s from column %u reads %s, have %s", what, lt.name, col, show(v).c_str(), show_multiset(it->second).c_str());
    }
    PBT_CHECK(fptu::field_count(ro, col, lt.t) == (it == m.end() ? 0 : it->second.size()), "%s: count of %s in column %u", what, lt.name, col);
    const Filter &f = s.pick(filters());
    const size_t n = matching(m, col, f);
    PBT_CHECK(fptu::field_count(ro, col, f.f) == n, "%s: %zu fields of %s in column %u, expected %zu", what, fptu::field_count(ro, col, f.f), f.name, col, n);
    PBT_CHECK((fptu::lookup(ro, col, f.f) != nullptr) == (n != 0), "%s: lookup by filter", what);
  }
  size_t calls = 0;
  PBT_CHECK(fptu::field_count(ro, count_all, &calls, nullptr) == items(m) && calls == items(m), "%s: filter sees %zu fields of %zu", what, calls, items(m));
  int col = int(s.pick(cols));
  PBT_CHECK(fptu::field_count(ro, by_column, nullptr, &col) == matching(m, unsigned(col), filters()[0]), "%s: fields of column %d", what, col);
}

Val ro_val(fptu_ro ro) { return iov_val(ro.sys); }

void c_api(Src &s, Ctx &ctx) {
  std::vector<unsigned> cols;
  for (unsigned k = 0; k < 3; ++k)
    cols.push_back(unsigned(s.chance(25) ? fptu_max_cols - s.below(3) : s.chance(10) ? 1023 + s.below(2) : s.below(4)));
  size_t n_items = s.below(s.chance(20) ? 200 : 14), n_bytes = s.below(s.chance(20) ? 4000 : 250);
  if (s.chance(2)) {
    n_items = fptu::max_fields - s.below(3) * s.below(4000);
    if (s.chance(50))
      n_bytes = fptu::max_tuple_bytes_netto - n_items * 4 - s.below(3) * s.below(40000);
  }
  fptu_rw *pt = nullptr;
  std::unique_ptr<char[]> own;
  const size_t need = fptu_space(n_items, n_bytes);
  bool alloc = s.chance(40);
  if (alloc) {
    pt = fptu_alloc(n_items, n_bytes);
    PBT_CHECK(pt, "fptu_alloc(%zu, %zu) fails", n_items, n_bytes);
  } else {
    if (s.chance(20) && need) { // not enough
      const size_t less = need - 1 - s.below(std::min<size_t>(need, 40));
      std::unique_ptr<char[]> b(new char[less]); // of exactly this size
      fptu_rw *q = fptu_init(b.get(), less, n_items);
      if (q)
        PBT_CHECK(fptu_space4items(q) >= n_items && !fptu_check_rw(q), "fptu_init in a small buffer is wrong");
      PBT_CHECK(!fptu_init(nullptr, need, n_items), "fptu_init(NULL)");
    }
    own.reset(new char[need]);
    pt = fptu_init(own.get(), need, n_items);
    PBT_CHECK(pt, "fptu_init of %zu bytes for %zu items fails", need, n_items);
  }
  struct Guard {
    fptu_rw *&pt;
    bool &alloc;
    ~Guard() {
      if (alloc)
        fptu_destroy(pt);
    }
  } guard{pt, alloc};
  ctx.log("items %zu, bytes %zu%s", n_items, n_bytes, alloc ? ", allocated" : "");
  PBT_CHECK(fptu_space4items(pt) >= n_items && fptu_space4data(pt) >= n_bytes, "space for %zu items and %zu bytes of %zu and %zu", fptu_space4items(pt), fptu_space4data(pt), n_items, n_bytes);
  PBT_CHECK(fptu_junkspace(pt) == 0 && fptu_is_empty_rw(pt) && !fptu_check_rw(pt), "a fresh tuple is not empty");
  Model m;
  const unsigned ops = unsigned(s.below(40));
  unsigned changes = 0, refusals = 0;
  for (unsigned k = 0; k < ops && !s.exhausted(); ++k) {
    const unsigned col = s.chance(2) ? unsigned(fptu_max_cols + 1 + s.below(70000)) : s.pick(cols);
    const LT &lt = s.pick(ltypes());
    const Key key{int(lt.g), col};
    const Val before = ro_val(fptu_take_noshrink(pt));
    const size_t f_items = fptu_space4items(pt), f_data = fptu_space4data(pt), junk = fptu_junkspace(pt);
    std::string what;
    auto unchanged = [&] {
      PBT_CHECK(ro_val(fptu_take_noshrink(pt)) == before, "%s: refused but the tuple has changed", what.c_str());
      PBT_CHECK(f_items == fptu_space4items(pt) && f_data == fptu_space4data(pt), "%s: refused but the free space has changed", what.c_str());
    };
    stale_error(s);
    switch (s.weighted({30, 30, 14, 3, 8, 8, 5, 3, 8, 6})) {
    case 0:
    case 1:
    case 2: {
      const Verb verb = Verb(s.below(3));
      const Val v = gen(s, lt.g);
      static const char *const names[] = {"upsert", "insert", "update"};
      what = pbt::fmt("%s %s column %u %s", names[verb], lt.name, col, show(v).c_str());
      ctx.log("%s", what.c_str());
      const fptu_error e = write(s, verb, pt, col, lt.g, v);
      if (e != FPTU_OK) {
        PBT_CHECK(fptu_last_error_code() == e, "%s: returns %d, last error is %d", what.c_str(), e, fptu_last_error_code());
        PBT_CHECK(fptu_last_error_msg() && *fptu_last_error_msg(), "%s: no message for the error %d", what.c_str(), e);
        if (s.chance(20)) {
          fptu_clear_error();
          PBT_CHECK(fptu_last_error_code() == FPTU_OK && fptu_last_error_msg() && !*fptu_last_error_msg(),
                    "%s: the error is not cleared", what.c_str());
        }
      }
      if (col > fptu_max_cols) {
        PBT_CHECK(e == FPTU_EINVAL, "%s: invalid column gives %d", what.c_str(), e);
        unchanged();
        break;
      }
      auto it = m.find(key);
      if (verb == UPDATE && it == m.end()) {
        PBT_CHECK(e == FPTU_ENOFIELD, "%s: no such field, but returns %d", what.c_str(), e);
        unchanged();
        break;
      }
      if (e == FPTU_ENOSPACE) {
        ++refusals;
        const size_t units = units_for(lt.g, v);
        PBT_CHECK(!(f_items >= 1 && f_data >= units * 4), "%s: refused, though %zu items and %zu bytes are free", what.c_str(), f_items, f_data);
        // content is intact
        check_content(fptu_begin_rw(pt), fptu_end_rw(pt), m, what.c_str());
        break;
      }
      PBT_CHECK(e == FPTU_OK, "%s: returns %d (%s)", what.c_str(), e, fptu_last_error_msg());
      ++changes;
      if (verb == INSERT || it == m.end())
        m[key].push_back(v);
      else if (it->second.size() == 1)
        it->second[0] = v;
      else { // any of them is replaced
        std::vector<Val> got;
        for (const fptu_field *pf = fptu::first(fptu_begin_rw(pt), fptu_end_rw(pt), col, lt.t); pf != fptu_end_rw(pt);
             pf = fptu::next(pf, fptu_end_rw(pt), col, lt.t))
          got.push_back(read_field(pf, lt.g));
        bool ok = false;
        for (size_t i = 0; i < it->second.size() && !ok; ++i) {
          std::vector<Val> c = it->second, d;
          c[i] = v;
          for (auto &x : c)
            d.push_back(visible(lt.g, x));
          if (same_multiset(d, got)) {
            it->second = c;
            ok = true;
          }
        }
        PBT_CHECK(ok, "%s: have %s, was %s", what.c_str(), show_multiset(got).c_str(), show_multiset(it->second).c_str());
      }
      break;
    }
    case 3: {
      what = pbt::fmt("upsert null column %u", col);
      ctx.log("%s", what.c_str());
      const fptu_error e = fptu_upsert_null(pt, col);
      if (col > fptu_max_cols) {
        PBT_CHECK(e == FPTU_EINVAL, "%s: invalid column gives %d", what.c_str(), e);
        unchanged();
      } else if (e == FPTU_ENOSPACE) {
        PBT_CHECK(f_items == 0 && !m.count({NIL, col}), "%s: refused, %zu items are free", what.c_str(), f_items);
        unchanged();
      } else {
        PBT_CHECK(e == FPTU_OK, "%s: returns %d", what.c_str(), e);
        m[{NIL, col}] = {Val()};
        ++changes;
      }
      break;
    }
    case 4: { // erase one by type
      what = pbt::fmt("erase %s column %u", lt.name, col);
      ctx.log("%s", what.c_str());
      const int r = fptu::erase(pt, col, lt.t);
      if (col > fptu_max_cols) {
        PBT_CHECK(r == -int(FPTU_EINVAL), "%s: invalid column gives %d", what.c_str(), r);
        unchanged();
        break;
      }
      auto it = m.find(key);
      PBT_CHECK(r == (it == m.end() ? 0 : 1), "%s: returns %d", what.c_str(), r);
      if (it == m.end()) {
        unchanged();
        break;
      }
      ++changes;
      std::vector<Val> got;
      for (const fptu_field *pf = fptu::first(fptu_begin_rw(pt), fptu_end_rw(pt), col, lt.t); pf != fptu_end_rw(pt);
           pf = fptu::next(pf, fptu_end_rw(pt), col, lt.t))
        got.push_back(read_field(pf, lt.g));
      bool ok = false;
      for (size_t i = 0; i < it->second.size() && !ok; ++i) {
        std::vector<Val> c = it->second, d;
        c.erase(c.begin() + long(i));
        for (auto &x : c)
          d.push_back(visible(lt.g, x));
        if (same_multiset(d, got)) {
          it->second = c;
          ok = true;
        }
      }
      PBT_CHECK(ok, "%s: have %s, was %s", what.c_str(), show_multiset(got).c_str(), show_multiset(it->second).c_str());
      if (it->second.empty())
        m.erase(it);
      break;
    }
    case 5: { // erase all by filter
      const Filter &f = s.pick(filters());
      what = pbt::fmt("erase %s column %u", f.name, col);
      ctx.log("%s", what.c_str());
      const int r = fptu::erase(pt, col, f.f);
      if (col > fptu_max_cols) {
        PBT_CHECK(r == -int(FPTU_EINVAL), "%s: invalid column gives %d", what.c_str(), r);
        unchanged();
        break;
      }
      const size_t n = matching(m, col, f);
      PBT_CHECK(r == int(n), "%s: returns %d, expected %zu", what.c_str(), r, n);
      for (auto it = m.begin(); it != m.end();)
        if (it->first.second == col && (it->first.first == NIL ? f.nil : has_genus(f.g, genus(it->first.first))))
          it = m.erase(it);
        else
          ++it;
      if (n)
        ++changes;
      else
        unchanged();
      break;
    }
    case 6: { // erase a particular field
      fptu_field *pf = fptu::lookup(pt, col, lt.t);
      auto it = m.find(key);
      PBT_CHECK((pf != nullptr) == (it != m.end()), "lookup of %s column %u: %s", lt.name, col, pf ? "found" : "not found");
      if (!pf)
        break;
      const Val v = read_field(pf, lt.g);
      what = pbt::fmt("erase the found %s column %u", lt.name, col);
      ctx.log("%s", what.c_str());
      fptu_erase_field(pt, pf);
      ++changes;
      size_t i = 0;
      while (i < it->second.size() && visible(lt.g, it->second[i]) != v)
        ++i;
      PBT_CHECK(i < it->second.size(), "%s: it held %s", what.c_str(), show(v).c_str());
      // texts that differ behind a NUL look the same; take the one that is gone
      std::vector<Val> got;
      for (const fptu_field *q = fptu::first(fptu_begin_rw(pt), fptu_end_rw(pt), col, lt.t); q != fptu_end_rw(pt);
           q = fptu::next(q, fptu_end_rw(pt), col, lt.t))
        got.push_back(read_field(q, lt.g));
      it->second.erase(it->second.begin() + long(i));
      if (it->second.empty())
        m.erase(it);
      break;
    }
    case 7:
      if (s.chance(30)) {
        what = "clear";
        ctx.log("clear");
        PBT_CHECK(fptu_clear(pt) == FPTU_OK, "fptu_clear fails");
        PBT_CHECK(fptu_clear(nullptr) == FPTU_EINVAL, "fptu_clear(NULL)");
        m.clear();
        PBT_CHECK(fptu_is_empty_rw(pt) && fptu_junkspace(pt) == 0, "not empty after fptu_clear");
        ++changes;
      }
      break;
    case 8: { // shrink
      what = "shrink";
      ctx.log("shrink (junk %zu)", junk);
      const bool moved = s.chance(50) ? fptu_shrink(pt) : fptu_cond_shrink(pt);
      if (!moved && junk == 0)
        unchanged();
      PBT_CHECK(moved || junk == 0, "shrink of %zu bytes of junk says nothing was moved", junk);
      PBT_CHECK(fptu_junkspace(pt) == 0, "junk remains after fptu_shrink");
      const size_t was = f_items * 4 + f_data, now = fptu_space4items(pt) * 4 + fptu_space4data(pt);
      PBT_CHECK(now == was + junk, "shrink: %zu bytes were free, %zu of junk, now %zu are free", was, junk, now);
      PBT_CHECK(!fptu_check_ro_ex(fptu_take_noshrink(pt), true), "holes remain after fptu_shrink");
      ctx.label("shrink");
      break;
    }
    default: { // pass through the serialised form
      const bool compact = s.chance(50);
      what = "fetch";
      fptu_ro ro = compact ? fptu_take(pt) : fptu_take_noshrink(pt);
      PBT_CHECK(!fptu_check_ro_ex(ro, compact), "serialised form is invalid");
      check_ro(ro, m, s, cols, "serialised");
      const unsigned more_items = unsigned(s.below(12)), more_bytes = unsigned(s.below(300));
      const char *err = "?";
      struct fptu_cbfs_result cbfs;
      const size_t n1 = fptu_check_and_get_buffer_size(ro, more_items, more_bytes, &err);
      const size_t n2 = fptu_get_buffer_size(ro, more_items, more_bytes);
      const size_t n3 = fptu_check_and_get_buffer_size_ex(ro, more_items, more_bytes, &cbfs);
      PBT_CHECK(!err && n1 == n2 && n1 == n3 && cbfs.err == FPTU_OK, "buffer sizes %zu, %zu, %zu, error %s", n1, n2, n3, err ? err : "none");
      ctx.log("fetch, %u more items, %u more bytes%s", more_items, more_bytes, compact ? ", compact" : "");
      std::unique_ptr<char[]> b(new char[n1]);
      if (s.chance(20)) { // arguments that must be refused
        const unsigned kind = unsigned(s.below(8));
        struct fptu_cbfs_result bad = cbfs;
        fptu_rw *r = nullptr;
        if (kind == 0)
          bad.err = FPTU_EINVAL;
        else if (kind == 1)
          bad.err_msg = s.chance(50) ? nullptr : "whatever";
        else if (kind == 5) { // damaged source
          Val junk = ro_val(ro) + Val(4, '\0');
          fptu_ro dam;
          dam.sys.iov_base = &junk[0];
          dam.sys.iov_len = junk.size();
          const char *why = nullptr;
          PBT_CHECK(fptu_check_and_get_buffer_size(dam, more_items, more_bytes, &why) == 0 && why && *why, "size of a damaged tuple is given");
          PBT_CHECK(fptu_check_and_get_buffer_size_ex(dam, more_items, more_bytes, &bad) == 0 && bad.err == FPTU_EINVAL && bad.err_msg && *bad.err_msg,
                    "size of a damaged tuple is given");
        }
        if (kind == 6) { // a buffer that is too small, of exactly this size
          const size_t needed = fptu_get_buffer_size(ro, 0, 0);
          const size_t less = s.below(needed);
          std::unique_ptr<char[]> small(new char[less]);
          r = s.chance(50) ? fptu_fetch(ro, small.get(), less, more_items) : fptu_fetch_ex(ro, small.get(), less, more_items, &cbfs);
          PBT_CHECK(!r, "fetch into %zu bytes of %zu succeeds", less, needed);
          PBT_CHECK(fptu_last_error_code() == FPTU_ENOSPACE, "fetch into %zu bytes of %zu: error %d", less, needed, fptu_last_error_code());
        } else if (kind == 7) { // more than a tuple may have
          const bool by_items = s.chance(50);
          const unsigned i = by_items ? fptu::max_fields + 1 + unsigned(s.below(70000)) : more_items;
          const unsigned n = by_items ? more_bytes : fptu::max_tuple_bytes_netto + 1 + unsigned(s.below(70000));
          const char *why = nullptr;
          PBT_CHECK(fptu_check_and_get_buffer_size(ro, i, n, &why) == 0 && why && *why, "%u more items and %u bytes are promised", i, n);
          fptu_clear_error();
          PBT_CHECK(fptu_get_buffer_size(ro, i, n) == 0 && fptu_last_error_code() == FPTU_EINVAL, "%u more items and %u bytes are promised", i, n);
          PBT_CHECK(fptu_check_and_get_buffer_size_ex(ro, i, n, &bad) == 0 && bad.err == FPTU_EINVAL && bad.err_msg && *bad.err_msg,
                    "%u more items and %u bytes are promised", i, n);
        } else if (kind == 2)
          r = fptu_fetch_ex(ro, nullptr, n1, more_items, &bad);
        else if (kind == 3)
          r = fptu_fetch_ex(ro, b.get(), n1, more_items, nullptr);
        else if (kind == 4)
          r = fptu_fetch(ro, nullptr, n1, more_items);
        else
          r = fptu_fetch_ex(ro, b.get(), n1, more_items, &bad);
        PBT_CHECK(kind == 6 || (!r && fptu_last_error_code() == FPTU_EINVAL), "fetch with wrong arguments (kind %u) succeeds or gives error %d", kind, fptu_last_error_code());
        PBT_CHECK(fptu_check_and_get_buffer_size(ro, more_items, more_bytes, nullptr) == ~size_t(0) &&
                      fptu_check_and_get_buffer_size_ex(ro, more_items, more_bytes, nullptr) == ~size_t(0),
                  "size without a place for the error is given");
      }
      fptu_rw *q = s.chance(50) ? fptu_fetch(ro, b.get(), n1, more_items) : fptu_fetch_ex(ro, b.get(), n1, more_items, &cbfs);
      PBT_CHECK(q, "fetch into %zu bytes fails: %s", n1, fptu_last_error_msg());
      PBT_CHECK(fptu_space4items(q) >= more_items && fptu_space4data(q) >= more_bytes, "fetched tuple has space for %zu items and %zu bytes, not %u and %u", fptu_space4items(q), fptu_space4data(q), more_items, more_bytes);
      const Val old = ro_val(ro);
      PBT_CHECK(!fptu_check_rw(q), "fetched tuple is invalid: %s", fptu_check_rw(q));
      check_content(fptu_begin_rw(q), fptu_end_rw(q), m, "fetched");
      PBT_CHECK(ro_val(ro) == old, "the source of fptu_fetch has changed");
      if (alloc)
        fptu_destroy(pt);
      alloc = false;
      pt = q;
      own = std::move(b);
      ctx.label("fetch");
    }
    }
    const char *bad = fptu_check_rw(pt);
    PBT_CHECK(!bad, "%s: tuple is invalid: %s", what.c_str(), bad);
    PBT_CHECK(fptu_is_empty_rw(pt) == m.empty(), "%s: fptu_is_empty_rw() is %d, there are %zu fields", what.c_str(), int(fptu_is_empty_rw(pt)), items(m));
    check_content(fptu_begin_rw(pt), fptu_end_rw(pt), m, what.c_str());
    if (s.chance(30))
      check_ro(fptu_take_noshrink(pt), m, s, cols, what.c_str());
    {
      size_t calls = 0;
      PBT_CHECK(fptu::field_count(pt, count_all, &calls, nullptr) == items(m) && calls == items(m),
                "%s: filter sees %zu fields of %zu", what.c_str(), calls, items(m));
      int one = int(cols[0]);
      PBT_CHECK(fptu::field_count(pt, by_column, nullptr, &one) == matching(m, cols[0], filters()[0]),
                "%s: fields of column %d", what.c_str(), one);
    }
    PBT_CHECK(fptu::field_count(pt, cols[0], filters()[0].f) == matching(m, cols[0], filters()[0]), "%s: count in column %u", what.c_str(), cols[0]);
  }
  if (refusals)
    ctx.label("no space");
  if (changes >= 4)
    ctx.nontrivial();
}

// what the readers give for an absent value or for a value of another type
bool gives_denil(const fptu_field *pf, genus g) {
  static const uint32_t n32 = ~0u;
  static const uint64_t n64 = ~uint64_t(0);
  switch (g) {
  case fptu::f32: {
    const float f = fptu_field_fp32(pf);
    return !memcmp(&f, &n32, 4);
  }
  case fptu::f64: {
    const double f = fptu_field_fp64(pf);
    return !memcmp(&f, &n64, 8);
  }
  case fptu::bin96:
    return !fptu_field_96(pf);
  case fptu::bin128:
    return !fptu_field_128(pf);
  case fptu::bin160:
    return !fptu_field_160(pf);
  case fptu::bin256:
    return !fptu_field_256(pf);
  case fptu::text:
    return !fptu_field_cstr(pf);
  case fptu::varbin:
    return fptu_field_opaque(pf).iov_len == 0;
  case fptu::nested:
    return fptu_field_nested(pf).sys.iov_len == 0;
  default: {
    const Val v = read_field(pf, g);
    return v == Val(v.size(), '\0');
  }
  }
}

fptu_lge sign(int x) { return x == 0 ? fptu_eq : x < 0 ? fptu_lt : fptu_gt; }

fptu_lge lex(const Val &a, const Val &b) {
  const int d = memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
  return sign(d ? d : a.size() < b.size() ? -1 : a.size() > b.size());
}

void c_readers(Src &s, Ctx &ctx) {
  const size_t room = fptu_space(16, 6000);
  std::unique_ptr<char[]> buf(new char[room]);
  fptu_rw *pt = fptu_init(buf.get(), room, 16);
  PBT_CHECK(pt, "fptu_init");
  std::map<unsigned, std::pair<const LT *, Val>> m;
  const unsigned n = 1 + unsigned(s.below(6));
  for (unsigned k = 0; k < n; ++k) {
    const LT &lt = s.chance(40) ? *ltype(s.chance(70) ? fptu::text : fptu::varbin) : s.pick(ltypes());
    const unsigned col = unsigned(s.chance(20) ? s.below(fptu_max_cols + 1) : k);
    if (m.count(col))
      continue;
    const Val v = gen(s, lt.g);
    const fptu_error e = write(s, UPSERT, pt, col, lt.g, v);
    if (e == FPTU_ENOSPACE)
      continue;
    PBT_CHECK(e == FPTU_OK, "upsert %s column %u %s: %d", lt.name, col, show(v).c_str(), e);
    ctx.log("%s column %u %s", lt.name, col, show(v).c_str());
    m[col] = {&lt, v};
  }
  // exact copy, sometimes with a garbage in the padding of texts
  const Val flat = ro_val(fptu_take(pt));
  const size_t whole = flat.size();
  uint32_t *const copy = new uint32_t[whole / 4];
  std::unique_ptr<uint32_t[]> holder(copy);
  memcpy(copy, flat.data(), whole);
  fptu_ro ro = as_ro(copy, whole);
  const bool garbage = s.chance(50);
  if (garbage) {
    for (const fptu_field *pf = fptu_begin_ro(ro); pf != fptu_end_ro(ro); ++pf)
      if (fptu_field_type(pf) == fptu_cstr) {
        const struct iovec iov = fptu_field_as_iovec(pf);
        char *end = static_cast<char *>(iov.iov_base) + iov.iov_len;
        while (iov.iov_len && (end - reinterpret_cast<char *>(copy)) % 4)
          *end++ = char(s.chance(80) ? 'A' + s.below(26) : s.below(256));
      }
    const char *bad = fptu_check_ro(ro);
    if (bad) { // may be refused, then nothing is promised
      ctx.label("garbage refused");
      memcpy(copy, flat.data(), whole);
    } else
      ctx.label("garbage accepted");
  }
  PBT_CHECK(!fptu_check_ro(ro), "serialised form is invalid");
  for (auto &x : m) {
    const unsigned col = x.first;
    const LT &lt = *x.second.first;
    const Val &v = x.second.second;
    const fptu_field *pf = fptu::lookup(ro, col, lt.t);
    PBT_CHECK(pf, "%s in column %u is not found", lt.name, col);
    int err = -1;
    PBT_CHECK(read_ro(ro, col, lt.g, &err) == visible(lt.g, v) && err == FPTU_OK, "%s from column %u: error %d", lt.name, col, err);
    PBT_CHECK(read_field(pf, lt.g) == visible(lt.g, v), "%s in column %u reads %s, expected %s", lt.name, col,
              show(read_field(pf, lt.g)).c_str(), show(v).c_str());
    for (auto &o : ltypes())
      if (o.g != lt.g) {
        stale_error(s);
        PBT_CHECK(gives_denil(pf, o.g), "%s in column %u is read as %s", lt.name, col, o.name);
        PBT_CHECK(fptu_last_error_code() == FPTU_EINVAL, "%s in column %u is read as %s: last error %d", lt.name, col, o.name, fptu_last_error_code());
      }
    // comparisons
    const size_t len = lt.g == fptu::bin96 ? 12 : lt.g == fptu::bin128 ? 16 : lt.g == fptu::bin160 ? 20 : lt.g == fptu::bin256 ? 32 : 0;
    if (len) {
      Val w = v;
      if (s.chance(70))
        w[s.below(len)] = char(s.below(256));
      const uint8_t *q = reinterpret_cast<const uint8_t *>(w.data());
      const fptu_lge r = len == 12 ? fptu_cmp_96(ro, col, q) : len == 16 ? fptu_cmp_128(ro, col, q) : len == 20 ? fptu_cmp_160(ro, col, q) : fptu_cmp_256(ro, col, q);
      PBT_CHECK(r == lex(v, w), "fptu_cmp of %s with %s gives %d", show(v).c_str(), show(w).c_str(), r);
      PBT_CHECK(fptu_cmp_96(ro, fptu_max_cols, q) == (m.count(fptu_max_cols) && m[fptu_max_cols].first->g == fptu::bin96 ? lex(m[fptu_max_cols].second, w.substr(0, 12)) : fptu_ic), "fptu_cmp_96 of an absent column");
    }
    if (lt.g == fptu::varbin) {
      Val w = v;
      if (s.chance(50) && w.size())
        w[s.below(w.size())] = char(s.below(256));
      if (s.chance(40))
        w.resize(s.below(w.size() + 3), 'x');
      const fptu_lge r = fptu_cmp_opaque(ro, col, w.data(), w.size());
      PBT_CHECK(r == lex(v, w), "fptu_cmp_opaque of %s with %s gives %d", show(v).c_str(), show(w).c_str(), r);
      PBT_CHECK(fptu_cmp_binary(v.data(), v.size(), w.data(), w.size()) == lex(v, w), "fptu_cmp_binary");
    }
  }
  for (auto &o : ltypes())
    PBT_CHECK(gives_denil(nullptr, o.g), "no field is read as a %s value", o.name);
  PBT_CHECK(fptu_field_is_dead(nullptr) && fptu_field_column(nullptr) < 0 && fptu_field_type(nullptr) == fptu_null, "properties of no field");
  // tags
  for (unsigned k = 0; k < 4; ++k) {
    const LT &lt = s.pick(ltypes());
    const unsigned col = unsigned(s.below(fptu_max_cols + 1));
    const fptu_tag_t tag = fptu_tag_t(fptu_make_tag(col, lt.t));
    PBT_CHECK(fptu_get_colnum(tag) == col && fptu_get_type(tag) == lt.t, "tag of %s column %u: column %u, type %d", lt.name, col, fptu_get_colnum(tag), int(fptu_get_type(tag)));
    PBT_CHECK(fptu_tag_is_fixedsize(tag) == (lt.g != fptu::text && lt.g != fptu::varbin && lt.g != fptu::nested), "tag of %s is of fixed size: %d", lt.name, int(fptu_tag_is_fixedsize(tag)));
    PBT_CHECK(!fptu_tag_is_deleted(tag), "tag of %s is of a deleted field", lt.name);
  }
  if (m.size() >= 2)
    ctx.nontrivial();
}

} // namespace

int main(int argc, char **argv) {
  return pbt::driver(argc, argv,
                     {{"c_api", "at least 4 calls changed the tuple", c_api},
                      {"c_readers", "the tuple has at least two fields", c_readers}});
}
