// C09: every scan implementation against a plain linear search, on indexes that
// lie against inaccessible pages.
#include "fp.h"
#if defined(__x86_64__)
#include <xmmintrin.h>
#endif
using namespace fptu::details;
using pbt::Ctx;
using pbt::Src;

struct Impl {
  const char *name;
  scan_func_t fn;
};
static const field_loose *ifunc_scan(const field_loose *b, const field_loose *e, const uint16_t t) {
  return fptu_scan(b, e, t);
}
static const std::vector<Impl> &impls() {
  static std::vector<Impl> v;
  if (v.empty()) {
    v.push_back({"fptu_scan", ifunc_scan});
    v.push_back({"referential", fptu_scan_referential});
    v.push_back({"unroll", fptu_scan_unroll});
#if defined(__x86_64__)
    __builtin_cpu_init();
    if (__builtin_cpu_supports("sse2"))
      v.push_back({"SSE2", fptu_scan_SSE2});
    if (__builtin_cpu_supports("avx"))
      v.push_back({"AVX", fptu_scan_AVX});
    if (__builtin_cpu_supports("avx2"))
      v.push_back({"AVX2", fptu_scan_AVX2});
#endif
  }
  return v;
}

constexpr size_t page = 4096;
constexpr size_t data_pages = 10; // 8191 descriptors and more
// [guard][data_pages][guard]; the part actually accessible is chosen per case
struct Arena {
  char *base;
  Arena() {
    base = static_cast<char *>(
        mmap(nullptr, (data_pages + 2) * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (base == MAP_FAILED || mprotect(base + page, data_pages * page, PROT_READ | PROT_WRITE))
      abort();
  }
  uint32_t *first() { return reinterpret_cast<uint32_t *>(base + page); }
  static constexpr size_t units = data_pages * page / 4;
};
static Arena &arena() {
  static Arena a;
  return a;
}

static void check_all(const uint32_t *p, ptrdiff_t n, uint16_t tag) {
  const field_loose *begin = reinterpret_cast<const field_loose *>(p), *end = begin + n;
  ptrdiff_t want = -1;
  for (ptrdiff_t i = 0; i < n; ++i)
    if (uint16_t(p[i] >> 16) == tag) {
      want = i;
      break;
    }
  for (const Impl &im : impls()) {
    const field_loose *got = im.fn(begin, end, tag);
    const ptrdiff_t g = got ? got - begin : -1;
    PBT_CHECK(g == want && (!got || (reinterpret_cast<uintptr_t>(got) & 3) == 0),
              "%s finds %td, the first is %td (length %td, page offset %zu)", im.name, g, want, n,
              size_t(reinterpret_cast<uintptr_t>(p) & (page - 1)));
  }
}

static void h_random(Src &s, Ctx &ctx) {
  Arena &a = arena();
  const size_t n = s.chance(80) ? s.below(s.chance(50) ? 12 : 80) : s.chance(70) ? s.below(600) : s.below(8192);
  // position: against the leading guard, against the trailing one or in the middle
  size_t at;
  switch (s.below(4)) {
  case 0:
    at = s.below(24);
    break;
  case 1:
    at = Arena::units - n - s.below(std::min<size_t>(24, Arena::units - n + 1));
    break;
  case 2: // around a page boundary inside
    at = (s.range(1, data_pages - 1)) * (page / 4);
    at -= std::min<size_t>(at, s.below(40));
    break;
  default:
    at = s.below(page / 4);
  }
  if (at + n > Arena::units)
    at = Arena::units - n;
  uint32_t *p = a.first() + at;
  const uint16_t tag = uint16_t(s.bits());
  const unsigned density = unsigned(s.pick(std::vector<unsigned>{0, 1, 5, 30, 90}));
  // decoys: the tag in the offset half, off by one bit or byte, swapped bytes
  pbt::Rng r(s.bits());
  auto element = [&]() -> uint32_t {
    const uint64_t x = r.next();
    uint16_t hi;
    switch (x % 6) {
    case 0:
      hi = uint16_t(tag ^ (1u << (x >> 8 & 15)));
      break;
    case 1:
      hi = uint16_t(tag << 8 | tag >> 8);
      break;
    case 2:
      hi = uint16_t(tag + 1 - (x >> 8 & 2));
      break;
    case 3:
      hi = uint16_t((tag & 0xff00) | (x >> 16 & 0xff));
      break;
    default:
      hi = uint16_t(x >> 16);
    }
    if (r.next() % 100 < density)
      hi = tag;
    else if (hi == tag)
      hi = uint16_t(~tag);
    const uint16_t lo = (x >> 40) % 3 ? uint16_t(x >> 48) : tag;
    return uint32_t(hi) << 16 | lo;
  };
  for (size_t i = 0; i < n; ++i)
    p[i] = element();
  if (n && s.chance(40)) // a single match at a chosen place
    p[s.below(n)] = uint32_t(tag) << 16 | uint16_t(r.next());
  // matches just outside of the index must not be found
  for (size_t k = 1; k <= 10; ++k) {
    if (at >= k)
      p[-ptrdiff_t(k)] = uint32_t(tag) << 16 | tag;
    if (at + n + k <= Arena::units)
      p[n + k - 1] = uint32_t(tag) << 16 | tag;
  }
#if defined(__x86_64__)
  // a caller may have set any floating-point mode: search must not depend on it
  const unsigned csr = _mm_getcsr();
  struct Restore {
    unsigned csr;
    ~Restore() { _mm_setcsr(csr); }
  } restore{csr};
  if (s.chance(25))
    _mm_setcsr(csr | 0x8040); // flush-to-zero, denormals-are-zero
#endif
  ctx.log("length %zu at %zu tag %04x density %u", n, at, tag, density);
  check_all(p, ptrdiff_t(n), tag);
  // the chain of all matches, as by repeated "next"
  size_t from = 0, found = 0;
  while (found < 40) {
    check_all(p + from, ptrdiff_t(n - from), tag);
    const field_loose *b = reinterpret_cast<const field_loose *>(p);
    const field_loose *m = impls()[0].fn(b + from, b + n, tag);
    if (!m)
      break;
    from = size_t(m - b) + 1;
    ++found;
  }
  if (n == 0 && at > 0)
    check_all(p, -1, tag); // a hollow tuple
  if (n)
    ctx.nontrivial();
  ctx.label(n < 8 ? "short" : n < 64 ? "medium" : "long");
}

// every length below 290, every single-match position, several placements
static void h_sweep(Src &s, Ctx &ctx) {
  Arena &a = arena();
  const size_t n = s.given(ctx.index, 290);
  const size_t upage = page / 4;
  std::vector<size_t> where;
  for (size_t k = 0; k <= 9; ++k) {
    where.push_back(k);
    where.push_back(Arena::units - n - k);
    where.push_back(upage * 3 - k);
    where.push_back(upage * 3 + k);
    if (upage * 3 >= n + k) {
      where.push_back(upage * 3 - n - k);
      where.push_back(upage * 3 - n + k);
    }
  }
  const uint16_t tag = uint16_t(s.bits());
  for (size_t at : where) {
    uint32_t *p = a.first() + at;
    const size_t lo = at > 12 ? at - 12 : 0, hi = std::min(Arena::units, at + n + 12);
    for (size_t i = lo; i < hi; ++i)
      a.first()[i] = (i < at || i >= at + n) ? uint32_t(tag) << 16 | tag : uint32_t(uint16_t(tag + 1)) << 16 | tag;
    check_all(p, ptrdiff_t(n), tag);
    const size_t step = n > 80 ? 1 + s.below(3) : 1;
    for (size_t m = 0; m < n; m += step) {
      const uint32_t keep = p[m];
      p[m] = uint32_t(tag) << 16;
      check_all(p, ptrdiff_t(n), tag);
      if (m + 1 < n) {
        const uint32_t keep2 = p[m + 1];
        p[m + 1] = uint32_t(tag) << 16;
        check_all(p, ptrdiff_t(n), tag);
        p[m + 1] = keep2;
      }
      p[m] = keep;
    }
  }
  ctx.nontrivial();
}

int main(int argc, char **argv) {
  return pbt::driver(argc, argv,
                     {{"scan_random", "a case is non-trivial when the index is not empty", h_random},
                      {"scan_sweep", "every case covers one index length with all positions of a match", h_sweep}});
}
