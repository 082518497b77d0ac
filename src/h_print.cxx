// C15: integer printing; C16: floating point printing.
#include "fast_positive/erthink/erthink_d2a.h"
#include "fast_positive/erthink/erthink_u2a.h"
#include "pbt.h"
#include "print_alt.h"
#include <charconv>
#include <cmath>
#include <sstream>

using pbt::Ctx;
using pbt::Src;

namespace {

// --- C15 ---------------------------------------------------------------------
struct Decimal { // odometer: decimal digits of a running value
  char d[24];
  int n; // digits
  void init(uint64_t v) {
    n = 0;
    char t[24];
    do {
      t[n++] = char('0' + v % 10);
      v /= 10;
    } while (v);
    for (int i = 0; i < n; ++i)
      d[23 - i] = t[i];
  }
  void inc() {
    int i = 23;
    while (i > 23 - n && d[i] == '9')
      d[i--] = '0';
    if (i == 23 - n) {
      d[i] = '1';
      n++;
    } else
      d[i]++;
  }
  const char *p() const { return d + 24 - n; }
};

constexpr char fill = '#';
struct Guard {
  char b[64];
  Guard() { memset(b, fill, sizeof(b)); }
  char *at() { return b + 16; }
  void verify(size_t maxlen, const char *what, uint64_t v) {
    for (size_t i = 0; i < 16; ++i)
      if (b[i] != fill)
        pbt::fail("%s(%" PRIu64 ") wrote before its buffer", what, v);
    for (size_t i = 16 + maxlen; i < sizeof(b); ++i)
      if (b[i] != fill)
        pbt::fail("%s(%" PRIu64 ") wrote beyond %zu characters", what, v, maxlen);
  }
};

template <typename T>
void one_int(T v, char *(*fn)(T, char *), size_t maxlen, const char *what) {
  Guard g;
  char *e = fn(v, g.at());
  Decimal d;
  bool neg = std::is_signed<T>::value && v < 0;
  uint64_t a = neg ? uint64_t(0) - uint64_t(int64_t(v)) : uint64_t(v);
  d.init(a);
  std::string want = (neg ? "-" : "") + std::string(d.p(), size_t(d.n));
  std::string got = e >= g.at() && e <= g.at() + 30 ? std::string(g.at(), e) : "<bad end pointer>";
  PBT_CHECK(got == want, "%s: got '%s', expected '%s'", what, got.c_str(), want.c_str());
  g.verify(maxlen, what, a);
}
void all_forms(uint64_t v) {
  one_int<uint64_t>(v, [](uint64_t x, char *b) { return erthink::u2a(x, b); }, 20, "u2a64");
  one_int<int64_t>(int64_t(v), [](int64_t x, char *b) { return erthink::i2a(x, b); }, 20, "i2a64");
  one_int<uint32_t>(uint32_t(v), [](uint32_t x, char *b) { return erthink::u2a(x, b); }, 10, "u2a32");
  one_int<int32_t>(int32_t(v), [](int32_t x, char *b) { return erthink::i2a(x, b); }, 11, "i2a32");
}

void int_random(Src &s, Ctx &c) {
  for (int i = 0; i < 400; ++i) {
    uint64_t v;
    switch (s.weighted({3, 2, 2, 2, 1})) {
    case 0: { // power of ten +- small
      unsigned e = unsigned(s.below(20));
      uint64_t p = 1;
      while (e--)
        p *= 10;
      v = p * s.range(1, 9) + s.below(5) - 2;
      c.label("around d*10^k");
      break;
    }
    case 1: // digit groups: 4-digit groups chosen from edge values
    {
      static const unsigned k[] = {0, 1, 9, 10, 99, 100, 999, 1000, 9999, 5050, 1234, 8008};
      v = 0;
      unsigned n = unsigned(s.range(1, 5));
      while (n--)
        v = v * 10000 + k[s.below(12)];
      c.label("edge 4-digit groups");
      break;
    }
    case 2:
      v = s.edgy();
      c.label("edgy");
      break;
    case 3: // random digit count
      v = s.bits();
      for (unsigned n = unsigned(s.below(20)); n--;)
        v /= 10;
      c.label("random digit count");
      break;
    default:
      v = s.bits();
      c.label("uniform 64-bit");
    }
    if (i == 0)
      c.log("first value %" PRIu64, v);
    all_forms(v);
    all_forms(0 - v);
    if (v > UINT32_MAX)
      c.nontrivial();
  }
}

// every 32-bit value, in 4096 blocks, both unsigned and signed
void int_sweep32(Src &s, Ctx &c) {
  const uint64_t block = s.given(c.index, 4096);
  uint32_t base = uint32_t(block << 20);
  Decimal d;
  d.init(base);
  Guard g;
  c.log("all values of block %" PRIu64 " (2^20 values from %u)", block, base);
  for (uint32_t i = 0; i < (1u << 20); ++i, d.inc()) {
    const uint32_t v = base + i;
    char *e = erthink::u2a(v, g.at());
    if (e - g.at() != d.n || memcmp(g.at(), d.p(), size_t(d.n)))
      one_int<uint32_t>(v, [](uint32_t x, char *b) { return erthink::u2a(x, b); }, 10, "u2a32");
    // the same magnitude, negative
    if (v <= 0x80000000u) {
      const int32_t neg = int32_t(0 - v);
      e = erthink::i2a(neg, g.at());
      const int sg = v ? 1 : 0;
      if (e - g.at() != d.n + sg || memcmp(g.at() + sg, d.p(), size_t(d.n)) || (sg && g.at()[0] != '-'))
        one_int<int32_t>(neg, [](int32_t x, char *b) { return erthink::i2a(x, b); }, 11, "i2a32");
      if (v < 0x80000000u) {
        e = erthink::i2a(int32_t(v), g.at());
        if (e - g.at() != d.n || memcmp(g.at(), d.p(), size_t(d.n)))
          one_int<int32_t>(int32_t(v), [](int32_t x, char *b) { return erthink::i2a(x, b); }, 11, "i2a32");
      }
    }
  }
  g.verify(11, "block", base);
  c.label("32-bit values enumerated", 1u << 20);
  c.nontrivial();
}

// --- C16 ---------------------------------------------------------------------
struct Text {
  std::string s;   // printed
  std::string dig; // significant digits without leading/trailing zeros
  bool neg = false, special = false;
  long exp10 = 0; // value = 0.dig * 10^exp10
};

bool parse(const std::string &t, Text &o) {
  o.s = t;
  size_t i = 0;
  if (i < t.size() && t[i] == '-') {
    o.neg = true;
    i++;
  }
  std::string d;
  long point = -1;
  size_t start = i;
  while (i < t.size() && (isdigit((unsigned char)t[i]) || t[i] == '.')) {
    if (t[i] == '.') {
      if (point >= 0)
        return false;
      point = long(d.size());
    } else
      d += t[i];
    i++;
  }
  if (i == start || d.empty())
    return false;
  long e = 0;
  if (i < t.size()) {
    if (t[i] != 'e')
      return false;
    i++;
    bool en = false;
    if (i < t.size() && (t[i] == '+' || t[i] == '-'))
      en = t[i++] == '-';
    size_t st = i;
    while (i < t.size() && isdigit((unsigned char)t[i]))
      e = e * 10 + (t[i++] - '0');
    if (i == st || i != t.size())
      return false;
    if (en)
      e = -e;
  }
  if (point < 0)
    point = long(d.size());
  o.exp10 = point + e;
  size_t lead = 0;
  while (lead < d.size() && d[lead] == '0')
    lead++;
  o.exp10 -= long(lead);
  d.erase(0, lead);
  while (!d.empty() && d.back() == '0')
    d.pop_back();
  o.dig = d;
  return true;
}

struct Stat {
  uint64_t n = 0, longer = 0, inexact = 0;
};

using PrintFn = char *(*)(const double &, char *);
using PrintBufFn = std::pair<char *, char *> (*)(const double &, char *b, size_t n);

std::string print23(PrintFn fn, double v, const char *what) {
  char buf[64];
  memset(buf, fill, sizeof(buf));
  char *e = fn(v, buf + 16);
  PBT_CHECK(e > buf + 16 && e <= buf + 16 + erthink::d2a_max_chars, "%s: length %ld for %a", what, long(e - buf - 16), v);
  for (int i = 0; i < 16; ++i)
    PBT_CHECK(buf[i] == fill, "%s(%a) wrote before the buffer", what, v);
  for (size_t i = 16 + erthink::d2a_max_chars; i < sizeof(buf); ++i)
    PBT_CHECK(buf[i] == fill, "%s(%a) wrote beyond d2a_max_chars", what, v);
  return std::string(buf + 16, e);
}
template <typename P> std::string print_with(double v, const char *what) {
  constexpr size_t size = P::buffer_size;
  char buf[size + 32];
  memset(buf, fill, sizeof(buf));
  P printer(buf + 16, buf + 16 + size);
  erthink::grisu::convert(printer, v);
  auto r = printer.finalize_and_get();
  PBT_CHECK(r.first >= buf + 16 && r.second > r.first && r.second <= buf + 16 + size, "%s(%a): bad range", what, v);
  for (size_t i = 0; i < 16; ++i)
    PBT_CHECK(buf[i] == fill && buf[16 + size + i] == fill, "%s(%a) wrote outside of the buffer", what, v);
  return std::string(r.first, r.second);
}

void check_text(const std::string &t, double v, const char *what, bool roundtrip_digits, Stat *st, bool integers_in_full) {
  if (std::isnan(v)) {
    PBT_CHECK(t == "nan" || t == "-nan" || t == "+nan", "%s: NaN printed as '%s'", what, t.c_str());
    return;
  }
  if (std::isinf(v)) {
    PBT_CHECK(t == (v < 0 ? "-inf" : "inf") || (v > 0 && t == "+inf"), "%s: infinity printed as '%s'", what, t.c_str());
    return;
  }
  std::string body = (!t.empty() && t[0] == '+') ? t.substr(1) : t;
  Text x;
  PBT_CHECK(parse(body, x), "%s: malformed text '%s' for %a", what, t.c_str(), v);
  char *end;
  double back = strtod(t.c_str(), &end);
  PBT_CHECK(*end == 0 && !memcmp(&back, &v, 8), "%s: '%s' reads back as %a, not %a", what, t.c_str(), back, v);
  if (v == 0 || !roundtrip_digits)
    return;
  // an independent shortest representation
  char sb[64];
  auto r = std::to_chars(sb, sb + sizeof(sb), v, std::chars_format::scientific);
  Text ref;
  parse(std::string(sb, r.ptr), ref);
  if (integers_in_full && std::fabs(v) < 18446744073709551616.0 && std::floor(v) == v)
    return; // documented: integers are printed in full by the fast form
  PBT_CHECK(x.dig.size() <= 17, "%s: %zu significant digits in '%s' for %a", what, x.dig.size(), t.c_str(), v);
  if (st) {
    st->n++;
    st->longer += x.dig.size() > ref.dig.size();
    st->inexact += x.dig.size() == ref.dig.size() && x.dig != ref.dig;
  }
}

double gen_double(Src &s, Ctx &c) {
  uint64_t b;
  switch (s.weighted({4, 2, 2, 2, 2, 2, 2, 2})) {
  case 0:
    c.label("uniform bits");
    b = s.bits();
    break;
  case 1: { // power of two and neighbours
    c.label("power of two +-ulp");
    uint64_t e = s.below(2047);
    b = (e << 52) + s.below(7) - 3;
    break;
  }
  case 2: { // subnormal
    c.label("subnormal");
    b = s.bits() >> s.range(12, 63);
    break;
  }
  case 3: { // short decimal
    c.label("short decimal");
    char t[40];
    snprintf(t, sizeof(t), "%" PRIu64 "e%d", s.bits() >> s.below(64), int(s.below(640)) - 330);
    double d = strtod(t, nullptr);
    memcpy(&b, &d, 8);
    b += s.below(3) - 1;
    break;
  }
  case 4: { // power of ten +- ulps
    c.label("power of ten +-ulp");
    char t[40];
    snprintf(t, sizeof(t), "%de%d", int(s.range(1, 9)), int(s.below(640)) - 330);
    double d = strtod(t, nullptr);
    memcpy(&b, &d, 8);
    b += s.below(9) - 4;
    break;
  }
  case 5: { // integers
    c.label("integer valued");
    double d = double(s.edgy());
    memcpy(&b, &d, 8);
    break;
  }
  case 6: { // sparse / dense mantissa
    c.label("sparse mantissa");
    uint64_t m = s.chance(50) ? UINT64_C(0xFFFFFFFFFFFFF) << s.below(52) : UINT64_C(1) << s.below(52);
    b = (s.below(2047) << 52) | ((m ^ s.below(8)) & UINT64_C(0xFFFFFFFFFFFFF));
    break;
  }
  default:
    c.label("small decimal a/10^k");
    {
      double d = double(s.below(1000000));
      for (uint64_t k = s.below(12); k--;)
        d /= 10;
      memcpy(&b, &d, 8);
    }
  }
  b = s.chance(20) ? b | (UINT64_C(1) << 63) : b;
  double d;
  memcpy(&d, &b, 8);
  return d;
}

using shodan = erthink::grisu::shodan_printer<false>;
using shodan_acc = erthink::grisu::shodan_printer<true>;
using shodan_sign = erthink::grisu::shodan_printer<true, -4, 10, true>;

void check_all(double v, Stat &acc, Stat &fast) {
  check_text(print23(erthink::d2a_accurate, v, "d2a_accurate"), v, "d2a_accurate", true, &acc, false);
  check_text(print23(erthink::d2a_fast, v, "d2a_fast"), v, "d2a_fast", true, &fast, true);
  check_text(print23(alt_d2a_accurate, v, "d2a_accurate/no-mul"), v, "d2a_accurate/no-mul", true, nullptr, false);
  check_text(print23(alt_d2a_fast, v, "d2a_fast/no-mul"), v, "d2a_fast/no-mul", true, nullptr, true);
  check_text(print_with<shodan>(v, "shodan"), v, "shodan", false, nullptr, false);
  check_text(print_with<shodan_acc>(v, "shodan accurate"), v, "shodan accurate", false, nullptr, false);
  check_text(print_with<shodan_sign>(v, "shodan signed"), v, "shodan signed", false, nullptr, false);
}

void double_print(Src &s, Ctx &c) {
  Stat acc, fast;
  for (int i = 0; i < 300; ++i) {
    double v = gen_double(s, c);
    if (i == 0)
      c.log("first value %a = %s", v, print23(erthink::d2a_accurate, v, "").c_str());
    check_all(v, acc, fast);
    if (s.exhausted())
      break;
  }
  double z = 0.0;
  std::ostringstream o;
  o << erthink::output_double<true>(z) << erthink::output_double<false>(-1.5);
  PBT_CHECK(o.str() == "0-15e-1" || strtod(o.str().c_str(), nullptr) == 0, "stream output '%s'", o.str().c_str());
  c.nontrivial();
}

// documented quality figures, measured on blocks of uniform bit patterns
void double_quality(Src &s, Ctx &c) {
  Stat acc, fast;
  uint64_t k = s.bits();
  pbt::Rng r(k);
  const int N = 20000;
  for (int i = 0; i < N; ++i) {
    uint64_t b = r.next();
    double v;
    memcpy(&v, &b, 8);
    check_text(print23(erthink::d2a_accurate, v, "d2a_accurate"), v, "d2a_accurate", true, &acc, false);
    check_text(print23(erthink::d2a_fast, v, "d2a_fast"), v, "d2a_fast", true, &fast, true);
  }
  c.log("20000 patterns from seed %" PRIx64 ": %" PRIu64 " longer than shortest, %" PRIu64 " with another last digit", k, acc.longer, acc.inexact);
  c.label("uniform patterns", acc.n);
  c.label("longer than shortest (accurate)", acc.longer);
  c.label("not nearest (accurate)", acc.inexact);
  // documented 0.037% and 0.06%; allow an order of magnitude
  PBT_CHECK(acc.longer * 200 <= acc.n, "accurate form is longer than needed for %" PRIu64 " of %" PRIu64 " values", acc.longer, acc.n);
  PBT_CHECK(acc.inexact * 200 <= acc.n, "accurate form differs from the nearest for %" PRIu64 " of %" PRIu64 " values", acc.inexact, acc.n);
  PBT_CHECK(fast.longer * 200 <= fast.n, "fast form is longer than needed for %" PRIu64 " of %" PRIu64 " values", fast.longer, fast.n);
  c.nontrivial();
}
} // namespace

int main(int argc, char **argv) {
  return pbt::driver(
      argc, argv,
      {{"int_random", "a block of generated integers printed by u2a/i2a in 32 and 64 bit forms next to an independent digit-by-digit conversion; non-trivial: contains a value above 2^32", int_random},
       {"int_sweep32", "a block of 2^20 consecutive 32-bit values, printed by u2a and i2a (both signs), compared with a decimal odometer; every block is non-trivial", int_sweep32},
       {"double_print", "a block of doubles (uniform, subnormal, neighbours of powers of two and ten, short decimals, integers) printed by every printer, parsed back by strtod and compared bit for bit; every block is non-trivial", double_print},
       {"double_quality", "a block of 20000 uniform bit patterns, digits compared with the shortest representation of std::to_chars; every block is non-trivial", double_quality}});
}
