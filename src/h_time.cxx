// C14: date-time conversions and printing.
#include "fast_positive/tuples/legacy.h"
#include "pbt.h"
#include <cmath>
#include <string>
#include <sys/time.h>
#include <time.h>
using fptu::datetime_t;
using pbt::Ctx;
using pbt::Src;
typedef unsigned __int128 u128;

// days since 1970-01-01 -> civil date, by walking years and months
static void civil(uint64_t days, int &y, int &m, int &d) {
  y = 1970;
  auto leap = [](int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
  while (days >= (leap(y) ? 366u : 365u)) {
    days -= leap(y) ? 366 : 365;
    ++y;
  }
  static const int len[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  m = 1;
  for (;;) {
    unsigned l = unsigned(len[m - 1] + (m == 2 && leap(y)));
    if (days < l)
      break;
    days -= l;
    ++m;
  }
  d = int(days) + 1;
}

static void check_print(uint64_t x) {
  const std::string s = std::to_string(datetime_t::from_fixedpoint_32dot32(x));
  int Y, M, D, h, mi, se, n = 0;
  unsigned long ns = 0;
  const int got = sscanf(s.c_str(), "%4d-%2d-%2dZ%2d:%2d:%2d.%9lu%n", &Y, &M, &D, &h, &mi, &se, &ns, &n);
  PBT_CHECK(got == 7 && size_t(n) == s.size() && s.size() == 29, "%" PRIx64 " printed as '%s'", x, s.c_str());
  // the printed moment in ns must be within 1 ns of the value
  const u128 exact_q = u128(x) * 1000000000u; // ns * 2^32
  // candidates: floor and ceil
  for (unsigned up = 0; up < 2; ++up) {
    const u128 t = (exact_q >> 32) + up;
    if (up && uint32_t(exact_q) == 0)
      break;
    const uint64_t sec = uint64_t(t / 1000000000u), frac = uint64_t(t % 1000000000u);
    int y, m, d;
    civil(sec / 86400, y, m, d);
    const unsigned tod = unsigned(sec % 86400);
    if (Y == y && M == m && D == d && h == int(tod / 3600) && mi == int(tod / 60 % 60) && se == int(tod % 60) &&
        ns == frac)
      return;
  }
  pbt::fail("%" PRIx64 " printed as '%s', which is another moment", x, s.c_str());
}

static bool near_frac(uint32_t fraction, uint64_t v, uint64_t per) {
  // |fraction/2^32 - v/per| < 2^-32
  const u128 a = u128(fraction) * per, b = u128(v) << 32;
  return (a > b ? a - b : b - a) < per;
}
static bool near_unit(uint64_t v, uint32_t fraction, uint64_t per) {
  // |v/per - fraction/2^32| < 1/per
  const u128 a = u128(v) << 32, b = u128(fraction) * per;
  return v < per && (a > b ? a - b : b - a) < (u128(1) << 32);
}

struct Unit {
  const char *name;
  uint64_t per;
  datetime_t (*from)(uint64_t);
  uint_fast32_t (*to)(uint_fast32_t);      // fraction -> units
  uint_fast32_t (*frac)(uint_fast32_t);    // units -> fraction
};
static const Unit units[] = {
    {"ms", 1000, [](uint64_t v) { return datetime_t::from_milliseconds(v); }, datetime_t::fractional2ms,
     datetime_t::ms2fractional},
    {"us", 1000000, [](uint64_t v) { return datetime_t::from_usec(v); }, datetime_t::fractional2us,
     datetime_t::us2fractional},
    {"ns", 1000000000, [](uint64_t v) { return datetime_t::from_nsec(v); }, datetime_t::fractional2ns,
     datetime_t::ns2fractional},
    {"100ns", 10000000, [](uint64_t v) { return datetime_t::from_100ns(v); }, nullptr, nullptr},
};

static uint32_t gen_frac(Src &s) {
  switch (s.below(5)) {
  case 0: // around a whole number of ns / us / ms
  {
    const uint64_t per = units[s.below(3)].per;
    const uint64_t v = s.chance(50) ? s.below(per) : (s.chance(50) ? per - 1 - s.below(4) : s.below(4));
    return uint32_t((uint64_t(v) << 32) / per + s.below(3) - 1);
  }
  case 1:
    return UINT32_MAX - uint32_t(s.below(8)); // rounds up to a whole second
  case 2:
    return uint32_t(s.below(8));
  case 3: {
    // half of a ns: rounding decides
    const uint64_t v = s.below(1000000000);
    return uint32_t(((v * 2 + 1) << 31) / 1000000000 + s.below(3) - 1);
  }
  default:
    return uint32_t(s.bits());
  }
}
static uint32_t gen_sec(Src &s) {
  switch (s.below(5)) {
  case 0: // around a midnight
    return uint32_t(s.below(49711) * 86400 + s.below(3) - 1);
  case 1:
    return UINT32_MAX - uint32_t(s.below(4));
  case 2:
    return uint32_t(s.below(4));
  case 3: // around the signed limit
    return uint32_t(0x80000000u + s.below(5) - 2);
  default:
    return uint32_t(s.bits());
  }
}

static void h_time(Src &s, Ctx &ctx) {
  const uint32_t sec = gen_sec(s), frac = gen_frac(s);
  const uint64_t x = uint64_t(sec) << 32 | frac;
  ctx.log("moment %08x.%08x", sec, frac);
  const datetime_t t = datetime_t::from_fixedpoint_32dot32(x);
  PBT_CHECK(t.utc_seconds() == sec && t.fractional() == frac && t.fixedpoint_32dot32() == x, "parts");
  PBT_CHECK(t.fractional_seconds() == std::ldexp(double(frac), -32), "fractional_seconds");
  PBT_CHECK(t.fractional_seconds() >= 0 && t.fractional_seconds() < 1, "fraction out of a second");
  const long double exact = std::ldexp((long double)x, -32);
  PBT_CHECK(std::fabs((long double)t.seconds() - exact) <= std::ldexp(1.0L, -21), "seconds()");
  fptu_datetime_C c = t;
  PBT_CHECK(c.fixedpoint == x && c.utc == sec && c.fractional == frac, "C form");
  PBT_CHECK(datetime_t(c) == t, "from C form");
  datetime_t t2;
  t2 = c;
  PBT_CHECK(t2 == t && !(t2 != t) && t2 <= t && t2 >= t && !(t2 < t) && !(t2 > t), "assign");
  check_print(x);
  PBT_CHECK(datetime_t::from_seconds(sec).fixedpoint_32dot32() == uint64_t(sec) << 32, "from_seconds");
  const time_t tt = sec;
  PBT_CHECK(datetime_t(&tt).fixedpoint_32dot32() == uint64_t(sec) << 32, "from time_t");

  // a second moment, for order
  const uint64_t x2 = s.chance(50) ? x + s.below(5) - 2 : (uint64_t(gen_sec(s)) << 32 | gen_frac(s));
  const datetime_t o = datetime_t::from_fixedpoint_32dot32(x2);
  PBT_CHECK((t < o) == (x < x2) && (t > o) == (x > x2) && (t <= o) == (x <= x2) && (t >= o) == (x >= x2) &&
                (t == o) == (x == x2) && (t != o) == (x != x2),
            "order of %" PRIx64 " and %" PRIx64, x, x2);

  for (const Unit &u : units) {
    // units of the fraction
    if (u.to) {
      const uint64_t v = u.to(frac);
      PBT_CHECK(near_unit(v, frac, u.per), "%08x is %" PRIu64 " %s", frac, v, u.name);
      const uint32_t f2 = uint32_t(x2);
      const uint64_t v2 = u.to(f2);
      PBT_CHECK(frac <= f2 ? v <= v2 : v >= v2, "fractional2%s not monotonic at %08x/%08x", u.name, frac, f2);
      const uint64_t f = u.frac(uint_fast32_t(v));
      PBT_CHECK(f <= UINT32_MAX && near_frac(uint32_t(f), v, u.per), "%" PRIu64 "%s is %" PRIx64, v, u.name, f);
    }
    // a whole moment in units
    uint64_t within;
    switch (s.below(4)) {
    case 0:
      within = u.per - 1 - s.below(3);
      break;
    case 1:
      within = s.below(3);
      break;
    default:
      within = s.below(u.per);
    }
    const uint64_t n = uint64_t(sec) * u.per + within;
    const datetime_t a = u.from(n);
    PBT_CHECK(a.utc_seconds() == sec && near_frac(a.fractional(), within, u.per),
              "from %" PRIu64 " %s: %08x.%08x", n, u.name, a.utc_seconds(), a.fractional());
    PBT_CHECK(datetime_t(n, uint_fast32_t(u.per)) == a, "datetime_t(units, per second) of %s", u.name);
    if (u.to) {
      const uint64_t back = uint64_t(a.utc_seconds()) * u.per + u.to(a.fractional());
      PBT_CHECK(back + 1 >= n && back <= n + 1 && u.to(a.fractional()) < u.per, "%" PRIu64 " %s reads back as %" PRIu64, n,
                u.name, back);
      if (u.per <= 1000000) {
        // coarse units: at most one unit less, exactly the same once rounded
        const uint64_t rounded =
            uint64_t(a.utc_seconds()) * u.per + uint64_t((u128(a.fractional()) * u.per + (1u << 31)) >> 32);
        PBT_CHECK(rounded == n, "%" PRIu64 " %s is %" PRIu64 " when rounded", n, u.name, rounded);
      }
    }
    // monotonic
    uint64_t n2 = n + s.below(4);
    if (n2 / u.per <= UINT32_MAX) {
      const datetime_t b = u.from(n2);
      PBT_CHECK(a <= b && (n == n2 || u.per > UINT32_MAX || a < b), "from %s is not monotonic at %" PRIu64, u.name, n);
    }
    if (u.per == 1000000) {
      struct timeval tv;
      tv.tv_sec = sec;
      tv.tv_usec = long(within);
      PBT_CHECK(datetime_t::from_timeval(tv) == a && datetime_t(tv) == a, "timeval");
    }
    if (u.per == 1000000000) {
      struct timespec ts;
      ts.tv_sec = sec;
      ts.tv_nsec = long(within);
      PBT_CHECK(datetime_t::from_timespec(ts) == a && datetime_t(ts) == a, "timespec");
    }
  }
  ctx.nontrivial();
  ctx.label(frac > UINT32_MAX - 3 ? "carry" : frac ? "fraction" : "whole");
}

static uint64_t clock_fp() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return uint64_t(ts.tv_sec) << 32 | ((uint64_t(ts.tv_nsec) << 32) / 1000000000u);
}
static void h_now(Src &s, Ctx &ctx) {
  const uint64_t slack = uint64_t(1) << 30; // a quarter of a second: granularity of a coarse clock
  const uint64_t before = clock_fp();
  uint64_t got, mask = 0;
  const unsigned how = unsigned(s.below(4));
  if (how == 0)
    got = datetime_t::now_fine().fixedpoint_32dot32();
  else if (how == 1)
    got = datetime_t::now_coarse().fixedpoint_32dot32();
  else if (how == 2)
    got = datetime_t::now(int(s.edgy() & 0x7fffffff)).fixedpoint_32dot32();
  else {
    const unsigned bits = unsigned(s.range(1, 40));
    mask = bits >= 32 ? UINT32_MAX : (uint64_t(1) << bits) - 1;
    got = datetime_t::now(-int(bits)).fixedpoint_32dot32();
    PBT_CHECK((got & mask) == 0, "now(-%u) is %" PRIx64, bits, got);
  }
  const uint64_t after = clock_fp();
  PBT_CHECK(got <= after + 1 && got + mask + slack >= before, "now() is %" PRIx64 ", the clock was %" PRIx64 "..%" PRIx64,
            got, before, after);
  ctx.nontrivial();
}

// every day of 1970..2106: the last representable moment before midnight, the
// carry into it, midnight itself and noon
static void h_days(Src &s, Ctx &ctx) {
  const uint64_t day = s.given(ctx.index, 49711);
  const uint64_t sec = day * 86400;
  if (sec) {
    check_print((sec << 32) - 1);
    check_print((sec << 32) - 2);
    check_print((sec << 32) - 3);
    check_print((sec << 32) - 0x80000000u);
  }
  check_print(sec << 32);
  check_print((sec << 32) + 1);
  if (sec + 86399 <= UINT32_MAX) {
    check_print((sec + 43200) << 32);
    check_print(((sec + 86399) << 32) | 0xffffffffu);
    check_print(((sec + s.below(86400)) << 32) | uint32_t(s.bits()));
  }
  ctx.nontrivial();
}

int main(int argc, char **argv) {
  return pbt::driver(argc, argv,
                     {{"time_convert", "every case converts one moment in all units and prints it", h_time},
                      {"time_now", "every case asks for the current time", h_now},
                      {"time_days", "every case prints the moments around one midnight", h_days}});
}
