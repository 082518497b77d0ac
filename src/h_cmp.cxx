// C19: comparisons of binary values, of fields with raw data, of string views.
#include "fast_positive/tuples.h"
#include "fast_positive/tuples/legacy.h"
#include "fast_positive/tuples/details/legacy_compat.h"
#include "pbt.h"
#include <memory>
#include <string>
#include <vector>
using pbt::Ctx;
using pbt::Src;
using fptu::string_view;

// heap copy of exactly the given size: a read beyond it is a sanitizer report
struct Exact {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
};

static std::string gen_bytes(Src &s, size_t n) {
  std::string r(n, '\0');
  const unsigned style = unsigned(s.below(3));
  for (char &c : r)
    c = char(style == 0 ? s.below(256) : style == 1 ? (s.chance(50) ? 0x80 : 0x7f) : 'a');
  return r;
}
// a related value: equal, shares a prefix, differs in one byte, truncated, extended
static std::string relative_of(Src &s, const std::string &a, bool same_size) {
  std::string b = a;
  switch (s.below(same_size ? 3 : 6)) {
  case 0:
    break;
  case 1:
    if (!b.empty())
      b[s.below(b.size())] ^= char(1u << s.below(8));
    break;
  case 2:
    if (!b.empty()) {
      const size_t i = s.below(b.size());
      b[i] = char(s.below(256));
      for (size_t k = i + 1; k < b.size(); ++k)
        b[k] = char(s.below(256));
    }
    break;
  case 3:
    b.resize(s.below(b.size() + 1));
    break;
  case 4:
    b += gen_bytes(s, 1 + s.below(5));
    break;
  default:
    b = gen_bytes(s, s.below(12));
  }
  return b;
}

static int lex(const std::string &a, const std::string &b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    if (a[i] != b[i])
      return uint8_t(a[i]) < uint8_t(b[i]) ? -1 : 1;
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
static fptu_lge lge(int d) { return d < 0 ? fptu_lt : d > 0 ? fptu_gt : fptu_eq; }

static void h_binary(Src &s, Ctx &ctx) {
  const size_t n = s.chance(80) ? s.below(20) : s.below(300);
  const std::string a = gen_bytes(s, n), b = relative_of(s, a, false);
  const Exact ea(a), eb(b);
  const fptu_lge got = fptu_cmp_binary(ea.p.get(), ea.n, eb.p.get(), eb.n);
  const fptu_lge rev = fptu_cmp_binary(eb.p.get(), eb.n, ea.p.get(), ea.n);
  ctx.log("%zu and %zu bytes", a.size(), b.size());
  PBT_CHECK(got == lge(lex(a, b)), "fptu_cmp_binary gives %d, lexicographic order is %d", got, lex(a, b));
  PBT_CHECK(rev == lge(lex(b, a)), "reversed fptu_cmp_binary gives %d", rev);
  PBT_CHECK(fptu_cmp_binary(ea.p.get(), ea.n, ea.p.get(), ea.n) == fptu_eq, "not equal to itself");
  PBT_CHECK(!memcmp(ea.p.get(), a.data(), a.size()) && !memcmp(eb.p.get(), b.data(), b.size()), "operand modified");
  const std::string c = relative_of(s, s.chance(50) ? a : b, false);
  const Exact ec(c);
  const fptu_lge bc = fptu_cmp_binary(eb.p.get(), eb.n, ec.p.get(), ec.n),
                 ac = fptu_cmp_binary(ea.p.get(), ea.n, ec.p.get(), ec.n);
  if ((got & fptu_le) && (bc & fptu_le))
    PBT_CHECK(ac & fptu_le, "not transitive");

  // string views
  const string_view va(ea.p.get(), ea.n), vb(eb.p.get(), eb.n), vc(ec.p.get(), ec.n);
  const bool eq = a == b;
  PBT_CHECK((va == vb) == eq && (va != vb) == !eq && (vb == va) == eq, "equality of string views");
  PBT_CHECK((va < vb) + (va > vb) + (va == vb) == 1, "string views: not exactly one of <, ==, >");
  PBT_CHECK((va < vb) == (vb > va) && (va <= vb) == !(va > vb) && (va >= vb) == !(va < vb) &&
                (va <= vb) == ((va < vb) || eq) && (va >= vb) == (vb <= va),
            "operators of string views disagree");
  PBT_CHECK(!(va <= vb && vb <= vc) || va <= vc, "order of string views is not transitive");
  if (eq)
    PBT_CHECK(std::hash<string_view>()(va) == std::hash<string_view>()(vb), "equal strings hash differently");
  const intptr_t ab = string_view::compare(va, vb), ba = string_view::compare(vb, va);
  PBT_CHECK((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0) && (ab == 0) == eq && (ab < 0) == (va < vb), "compare()");
  const std::string &sb = b;
  PBT_CHECK(string_view::compare(va, sb) == ab && string_view::compare(sb, va) == ba, "compare() with std::string");
  if (a.size() == b.size())
    PBT_CHECK((ab < 0) == (lex(a, b) < 0), "strings of one length are not in lexicographic order");
  const string_view nil;
  PBT_CHECK(nil == string_view() && nil != va && nil < va && va > nil && nil.empty() && nil.nil() && !va.nil() &&
                va.empty() == a.empty() && va.size() == a.size(),
            "nil string view");
  PBT_CHECK(std::string(va) == a && va.begin() + a.size() == va.end(), "content of a string view");
  size_t pos = s.below(a.size() + 2);
  bool thrown = false;
  char ch = 0;
  try {
    ch = va.at(pos);
  } catch (const std::out_of_range &) {
    thrown = true;
  }
  PBT_CHECK(thrown == (pos >= a.size()) && (thrown || ch == a[pos]), "at(%zu) of %zu", pos, a.size());
  if (!a.empty())
    PBT_CHECK(va.front() == a.front() && va.back() == a.back() && va[a.size() / 2] == a[a.size() / 2], "element");
  string_view x = va, y = vb;
  x.swap(y);
  PBT_CHECK(x == vb && y == va, "swap");

  // numbers
  const int64_t p = int64_t(s.edgy()), q = s.chance(30) ? p : int64_t(s.edgy());
  PBT_CHECK(fptu::cmp2lge<int64_t>(p, q) == lge(p < q ? -1 : p > q) && fptu::diff2lge<int64_t>(p) == lge(p < 0 ? -1 : p > 0),
            "cmp2lge of %" PRId64 " and %" PRId64, p, q);
  const int ci = fptu::cmp2int<int64_t>(p, q);
  PBT_CHECK((ci < 0) == (p < q) && (ci > 0) == (p > q), "cmp2int");
  const uint64_t up = uint64_t(p), uq = uint64_t(q);
  const int cu = fptu::cmp2int<uint64_t>(up, uq);
  PBT_CHECK(fptu::cmp2lge<uint64_t>(up, uq) == lge(up < uq ? -1 : up > uq) && (cu < 0) == (up < uq) && (cu > 0) == (up > uq),
            "unsigned comparison");
  ctx.nontrivial();
  ctx.label(lex(a, b) == 0 ? "equal" : a.size() != b.size() ? "sizes differ" : "bytes differ");
}

static void h_fields(Src &s, Ctx &ctx) {
  // a tuple with fixed-size and opaque fields of several columns
  std::vector<char> mem(fptu_buffer_enough);
  fptu_rw *pt = fptu_init(mem.data(), mem.size(), 40);
  PBT_CHECK(pt, "fptu_init");
  static const unsigned sizes[] = {12, 16, 20, 32};
  struct F {
    unsigned col, kind; // 0..3 fixed, 4 opaque
    std::string v;
  };
  std::vector<F> model;
  auto find = [&](unsigned col, unsigned kind) -> F * {
    for (F &f : model)
      if (f.col == col && f.kind == kind)
        return &f;
    return nullptr;
  };
  const unsigned nf = 1 + unsigned(s.below(6));
  for (unsigned i = 0; i < nf; ++i) {
    const unsigned col = s.chance(80) ? unsigned(s.below(3)) : unsigned(s.below(fptu_max_cols + 1));
    const unsigned kind = unsigned(s.below(5));
    const std::string v = gen_bytes(s, kind < 4 ? sizes[kind] : s.chance(80) ? s.below(16) : s.below(300));
    const Exact e(v);
    const uint8_t *p = reinterpret_cast<const uint8_t *>(e.p.get());
    int err;
    switch (kind) {
    case 0:
      err = fptu_upsert_96(pt, col, p);
      break;
    case 1:
      err = fptu_upsert_128(pt, col, p);
      break;
    case 2:
      err = fptu_upsert_160(pt, col, p);
      break;
    case 3:
      err = fptu_upsert_256(pt, col, p);
      break;
    default:
      err = fptu_upsert_opaque(pt, col, e.p.get(), e.n);
    }
    PBT_CHECK(err == 0, "upsert: %d", err);
    if (F *f = find(col, kind))
      f->v = v;
    else
      model.push_back({col, kind, v});
    ctx.log("column %u: %s of %zu bytes", col, kind < 4 ? "fixed" : "opaque", v.size());
  }
  fptu_ro ro = fptu_take_noshrink(pt);
  if (s.chance(50))
    ro = fptu_take(pt);
  const size_t bytes = ro.total_bytes;
  // exact copy of the serialised form
  Exact image(std::string(static_cast<const char *>(ro.sys.iov_base), bytes));
  fptu_ro copy;
  copy.sys.iov_base = image.p.get();
  copy.sys.iov_len = bytes;
  bool compared = false;
  for (unsigned i = 0; i < 6; ++i) {
    unsigned col = unsigned(s.below(3)), kind = unsigned(s.below(5));
    if (!model.empty() && s.chance(80)) {
      const F &f = model[s.below(model.size())];
      col = f.col;
      kind = s.chance(85) ? f.kind : kind;
    }
    F *f = find(col, kind);
    const std::string base = f ? f->v : gen_bytes(s, kind < 4 ? sizes[kind] : s.below(8));
    const std::string v = relative_of(s, base, kind < 4);
    const Exact e(v);
    const uint8_t *p = reinterpret_cast<const uint8_t *>(e.p.get());
    fptu_lge got, null_got = fptu_ic;
    switch (kind) {
    case 0:
      got = fptu_cmp_96(copy, col, p);
      null_got = fptu_cmp_96(copy, col, nullptr);
      break;
    case 1:
      got = fptu_cmp_128(copy, col, p);
      null_got = fptu_cmp_128(copy, col, nullptr);
      break;
    case 2:
      got = fptu_cmp_160(copy, col, p);
      null_got = fptu_cmp_160(copy, col, nullptr);
      break;
    case 3:
      got = fptu_cmp_256(copy, col, p);
      null_got = fptu_cmp_256(copy, col, nullptr);
      break;
    default: {
      got = fptu_cmp_opaque(copy, col, e.p.get(), e.n);
      struct iovec iov;
      iov.iov_base = e.p.get();
      iov.iov_len = e.n;
      PBT_CHECK(fptu_cmp_opaque_iov(copy, col, iov) == got, "fptu_cmp_opaque_iov differs from fptu_cmp_opaque");
    }
    }
    PBT_CHECK(null_got == fptu_ic, "comparison with a null pointer gives %d", null_got);
    const fptu_lge want = f ? lge(lex(f->v, v)) : (kind == 4 && v.empty()) ? fptu_eq : fptu_ic;
    PBT_CHECK(got == want, "column %u kind %u (%s, %zu and %zu bytes): %d, expected %d", col, kind, f ? "present" : "absent",
              f ? f->v.size() : 0, v.size(), got, want);
    compared |= f != nullptr;
    PBT_CHECK(memcmp(e.p.get(), v.data(), v.size()) == 0, "operand modified");
  }
  PBT_CHECK(!memcmp(image.p.get(), ro.sys.iov_base, bytes), "tuple modified by comparison");
  if (compared)
    ctx.nontrivial();
}

int main(int argc, char **argv) {
  return pbt::driver(argc, argv,
                     {{"cmp_binary", "every case compares three related byte strings both ways", h_binary},
                      {"cmp_fields", "a case is non-trivial when a present field was compared", h_fields}});
}
