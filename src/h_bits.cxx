// C17: low-level bit operations and the arena allocator.
#include "fast_positive/erthink/erthink_bswap.h"
#include "fast_positive/erthink/erthink_carryadd.h"
#include "fast_positive/erthink/erthink_casting.h"
#include "fast_positive/erthink/erthink_clz.h"
#include "fast_positive/erthink/erthink_endian.h"
#include "fast_positive/erthink/erthink_misc.h"
#include "fast_positive/erthink/erthink_mul.h"
#include "fast_positive/erthink/erthink_short_alloc.h"
#include "bits_alt.h"
#include "pbt.h"
#include <memory>
#include <type_traits>

using pbt::Ctx;
using pbt::Src;
typedef unsigned __int128 u128;

namespace {
template <typename T> T ref_swap(T v) {
  T r = 0;
  for (size_t i = 0; i < sizeof(T); ++i)
    r = T(r << 8 | ((v >> (8 * i)) & 0xff));
  return r;
}
template <> uint8_t ref_swap(uint8_t v) { return v; }

template <typename U> void swaps(U v) {
  using S = typename std::make_signed<U>::type;
  const U w = ref_swap(v);
  PBT_CHECK(erthink::bswap<U>(v) == w, "bswap<u%zu>(%" PRIx64 ")", sizeof(U) * 8, uint64_t(v));
  PBT_CHECK(erthink::bswap<S>(S(v)) == S(w), "bswap<i%zu>(%" PRIx64 ")", sizeof(U) * 8, uint64_t(v));
  // host is little endian here: le is identity, be is a swap
  const uint16_t probe = 1;
  const bool le = *reinterpret_cast<const uint8_t *>(&probe) == 1;
  const U be = le ? w : v, lev = le ? v : w;
  PBT_CHECK(erthink::h2be<U>(v) == be && erthink::be2h<U>(v) == be, "be u%zu(%" PRIx64 ")", sizeof(U) * 8, uint64_t(v));
  PBT_CHECK(erthink::h2le<U>(v) == lev && erthink::le2h<U>(v) == lev, "le u%zu(%" PRIx64 ")", sizeof(U) * 8, uint64_t(v));
  PBT_CHECK(erthink::h2be<S>(S(v)) == S(be) && erthink::be2h<S>(S(v)) == S(be), "be i%zu(%" PRIx64 ")", sizeof(U) * 8, uint64_t(v));
  PBT_CHECK(erthink::h2le<S>(S(v)) == S(lev) && erthink::le2h<S>(S(v)) == S(lev), "le i%zu(%" PRIx64 ")", sizeof(U) * 8, uint64_t(v));
}

int ref_clz(uint64_t v, int bits) {
  int n = 0;
  for (int i = bits - 1; i >= 0 && !((v >> i) & 1); --i)
    n++;
  return n;
}

void check_add(uint64_t a, uint64_t b, unsigned carry) {
  uint64_t s = 0;
  u128 full = u128(a) + b;
  unsigned c = erthink::add64carry_first(a, b, &s);
  PBT_CHECK(s == uint64_t(full) && (c != 0) == (full >> 64 != 0), "add64carry_first(%" PRIx64 ", %" PRIx64 ")", a, b);
  full += carry;
  s = 0;
  c = erthink::add64carry_next(carry, a, b, &s);
  PBT_CHECK(s == uint64_t(full) && (c != 0) == (full >> 64 != 0), "add64carry_next(%u, %" PRIx64 ", %" PRIx64 ") = %u:%" PRIx64, carry, a, b, c, s);
  s = 0;
  erthink::add64carry_last(carry, a, b, &s);
  PBT_CHECK(s == uint64_t(full), "add64carry_last(%u, %" PRIx64 ", %" PRIx64 ")", carry, a, b);
}

template <typename T> void check_abs(T v) {
  using U = typename std::make_unsigned<T>::type;
  erthink::branchless_abs<T> p(v);
  U want = v < 0 ? U(U(0) - U(v)) : U(v);
  PBT_CHECK(p.unsigned_abs == want && p.expanded_sign == (v < 0 ? T(-1) : T(0)), "branchless_abs<%zu>(%lld)", sizeof(T) * 8, (long long)v);
}

uint64_t operand(Src &s) {
  switch (s.weighted({4, 2, 2, 2})) {
  case 0:
    return s.edgy();
  case 1: { // runs of ones
    unsigned n = unsigned(s.below(65)), sh = unsigned(s.below(64));
    uint64_t m = n >= 64 ? ~0ull : (1ull << n) - 1;
    return (m << sh) + s.below(3) - 1;
  }
  case 2: // halves
    return (s.edgy() << 32) | uint32_t(s.edgy());
  default:
    return s.bits();
  }
}

void bits(Src &s, Ctx &c) {
  for (int i = 0; i < 500; ++i) {
    uint64_t a = operand(s), b = operand(s);
    unsigned carry = unsigned(s.below(2));
    if (i == 0)
      c.log("a=%" PRIx64 " b=%" PRIx64 " carry=%u", a, b, carry);
    swaps<uint64_t>(a);
    swaps<uint32_t>(uint32_t(a));
    swaps<uint16_t>(uint16_t(a));
    swaps<uint8_t>(uint8_t(a));
    if (a) {
      PBT_CHECK(erthink::clz64(a) == ref_clz(a, 64), "clz64(%" PRIx64 ")", a);
      PBT_CHECK(erthink::clz<unsigned long>(a) == ref_clz(a, 64) && erthink::clz<unsigned long long>(a) == ref_clz(a, 64), "clz(%" PRIx64 ")", a);
      PBT_CHECK(erthink::fallback_clz64(a) == ref_clz(a, 64), "fallback_clz64(%" PRIx64 ")", a);
    }
    if (uint32_t(a)) {
      PBT_CHECK(erthink::clz32(uint32_t(a)) == ref_clz(uint32_t(a), 32), "clz32(%x)", uint32_t(a));
      PBT_CHECK(erthink::fallback_clz32(uint32_t(a)) == ref_clz(uint32_t(a), 32), "fallback_clz32(%x)", uint32_t(a));
    }
    check_add(a, b, carry);
    check_add(a, ~a, carry);
    check_add(a, ~a + s.below(3), carry);
    check_add(~0ull, b, carry);
    // multi-word chain: 192-bit addition
    {
      uint64_t x[3] = {a, b, operand(s)}, y[3] = {operand(s), s.chance(50) ? ~b : operand(s), operand(s)}, r[3];
      unsigned k = erthink::add64carry_first(x[0], y[0], &r[0]);
      k = erthink::add64carry_next(k, x[1], y[1], &r[1]);
      erthink::add64carry_last(k, x[2], y[2], &r[2]);
      u128 t = 0;
      for (int j = 0; j < 3; ++j) {
        t = u128(x[j]) + y[j] + (t >> 64);
        PBT_CHECK(r[j] == uint64_t(t), "carry chain word %d", j);
      }
    }
    uint64_t h = 0, l = erthink::mul_64x64_128(a, b, &h);
    u128 p = u128(a) * b;
    PBT_CHECK(l == uint64_t(p) && h == uint64_t(p >> 64), "mul_64x64_128(%" PRIx64 ", %" PRIx64 ")", a, b);
    l = alt_mul_64x64_128(a, b, &h);
    PBT_CHECK(l == uint64_t(p) && h == uint64_t(p >> 64), "portable mul_64x64_128(%" PRIx64 ", %" PRIx64 ")", a, b);
    PBT_CHECK(erthink::mul_32x32_64(uint32_t(a), uint32_t(b)) == uint64_t(uint32_t(a)) * uint32_t(b), "mul_32x32_64(%x, %x)", uint32_t(a), uint32_t(b));
    check_abs<int64_t>(int64_t(a));
    check_abs<int32_t>(int32_t(a));
    PBT_CHECK(erthink::msb(a) == bool(a >> 63) && erthink::msb(uint32_t(a)) == bool(uint32_t(a) >> 31), "msb(%" PRIx64 ")", a);
    double d = erthink::bit_cast<double>(a);
    PBT_CHECK(memcmp(&d, &a, 8) == 0 && erthink::bit_cast<uint64_t>(b) == b, "bit_cast(%" PRIx64 ")", a);
    if (uint64_t(u128(a) + b >> 64))
      c.label("carry out");
  }
  c.nontrivial();
}

// every 16-bit value and every single-bit / all-ones pattern
void bits_sweep(Src &s, Ctx &c) {
  uint64_t block = s.given(c.index, 256);
  c.log("block %" PRIu64, block);
  for (uint32_t i = 0; i < 256; ++i) {
    uint64_t v = block * 256 + i;
    swaps<uint16_t>(uint16_t(v));
    swaps<uint32_t>(uint32_t(v * 65537u));
    for (int sh = 0; sh < 49; ++sh) {
      uint64_t w = v << sh;
      if (!w)
        continue;
      if (erthink::clz64(w) != ref_clz(w, 64) || erthink::fallback_clz64(w) != ref_clz(w, 64))
        pbt::fail("clz64(%" PRIx64 ")", w);
      uint32_t x = uint32_t(w >> (w >> 32 ? 32 : 0));
      if (x && (erthink::clz32(x) != ref_clz(x, 32) || erthink::fallback_clz32(x) != ref_clz(x, 32)))
        pbt::fail("clz32(%x)", x);
    }
  }
  c.nontrivial();
}

// arena: model = list of live blocks with their fill pattern
template <bool OUTLIVE, size_t N, size_t A> void arena_run(Src &s, Ctx &c) {
  using Arena = erthink::allocation_arena<OUTLIVE, N, A>;
  struct Block {
    char *p;
    size_t n;
    unsigned char pat;
  };
  auto arena = std::make_unique<Arena>();
  std::vector<Block> live;
  bool heap = false, inside = false, reused = false, failed = false;
  char *last_freed = nullptr;
  size_t ops = s.range(1, 60);
  auto verify = [&](const Block &b) {
    for (size_t i = 0; i < b.n; ++i)
      PBT_CHECK((unsigned char)b.p[i] == b.pat, "block %p+%zu was overwritten", (void *)b.p, b.n);
  };
  for (size_t k = 0; k < ops && !s.exhausted(); ++k) {
    if (live.empty() || s.chance(60)) {
      size_t n = s.chance(20) ? s.below(N * 2) : s.below(N / 3 + 2);
      size_t used = arena->used();
      char *p = nullptr;
      try {
        p = s.chance(50) ? arena->template allocate<A>(n) : arena->template allocate<1>(n);
      } catch (const std::bad_alloc &) {
        failed = true;
        PBT_CHECK(!OUTLIVE, "heap fallback is allowed but the arena is refused");
        size_t need = (n + A - 1) / A * A;
        PBT_CHECK(need > N - used || used == N, "refused %zu bytes with %zu of %zu used", n, used, N);
        continue;
      }
      c.log("alloc %zu -> %+ld", n, long(p - reinterpret_cast<char *>(arena.get())));
      PBT_CHECK(p && uintptr_t(p) % A == 0, "misaligned block");
      bool in = arena->chunk_in_bounds(p, n) && arena->pointer_in_bounds(p);
      const char *lo = reinterpret_cast<char *>(arena.get()), *hi = lo + sizeof(Arena);
      PBT_CHECK(in == (p >= lo && p < hi), "pointer_in_bounds is wrong");
      if (in) {
        inside = true;
        PBT_CHECK(arena->used() <= N, "used() > size");
        if (p == last_freed)
          reused = true;
      } else {
        PBT_CHECK(OUTLIVE, "block outside of the arena");
        heap = true;
        size_t need = (n + A - 1) / A * A;
        PBT_CHECK(need > N - used || used == N, "heap used for %zu bytes with %zu of %zu used", n, used, N);
      }
      for (auto &b : live)
        PBT_CHECK(p + n <= b.p || b.p + b.n <= p || !n || !b.n, "overlapping blocks");
      Block b{p, n, (unsigned char)(k * 37 + 1)};
      memset(p, b.pat, n);
      live.push_back(b);
    } else {
      size_t i = s.chance(50) ? live.size() - 1 : s.below(live.size());
      verify(live[i]);
      c.log("free #%zu (%zu bytes)", i, live[i].n);
      last_freed = live[i].p;
      arena->deallocate(live[i].p, live[i].n);
      live.erase(live.begin() + long(i));
    }
    for (auto &b : live)
      verify(b);
  }
  while (!live.empty()) {
    verify(live.back());
    arena->deallocate(live.back().p, live.back().n);
    live.pop_back();
  }
  if (heap) c.label("arena: heap fallback");
  if (reused) c.label("arena: block reused");
  if (failed) c.label("arena: refused");
  if (inside && (heap || reused || failed))
    c.nontrivial();
}

// containers over the allocator
void arena_containers(Src &s, Ctx &c) {
  using Arena = erthink::allocation_arena<true, 512>;
  Arena arena, other;
  {
    using A = erthink::short_alloc<uint32_t, Arena>;
    A aa(arena), ab(other), ac(aa);
    PBT_CHECK(aa == ac && !(aa == ab), "allocator equality");
    std::vector<uint32_t, A> v{A(arena)}, w{A(other)};
    std::vector<uint32_t> m, n;
    size_t ops = s.range(1, 80);
    for (size_t i = 0; i < ops && !s.exhausted(); ++i) {
      uint32_t x = uint32_t(s.edgy());
      switch (s.below(6)) {
      case 0:
      case 1:
        v.push_back(x);
        m.push_back(x);
        break;
      case 2:
        w.push_back(x);
        n.push_back(x);
        break;
      case 3:
        v.resize(x % 100);
        m.resize(x % 100);
        break;
      case 4:
        w = v;
        n = m;
        break;
      case 5:
        v.shrink_to_fit();
        break;
      }
      PBT_CHECK(std::equal(v.begin(), v.end(), m.begin(), m.end()) && std::equal(w.begin(), w.end(), n.begin(), n.end()), "container content differs at step %zu", i);
    }
    if (m.size() + n.size() > 128) {
      c.label("containers beyond arena");
      c.nontrivial();
    }
  }
}

void arena(Src &s, Ctx &c) {
  switch (s.below(5)) {
  case 0:
    return arena_run<true, 256, 16>(s, c);
  case 1:
    return arena_run<false, 256, 16>(s, c);
  case 2:
    return arena_run<true, 64, 8>(s, c);
  case 3:
    return arena_run<false, 1024, 4>(s, c);
  default:
    return arena_containers(s, c);
  }
}
} // namespace

int main(int argc, char **argv) {
  return pbt::driver(argc, argv,
                     {{"bits", "500 generated operand pairs per case (edge values, runs of ones, random) through every primitive, against digit-by-digit or 128-bit reference arithmetic; every block is non-trivial", bits},
                      {"bits_sweep", "all 16-bit values, shifted over the whole word; every block is non-trivial", bits_sweep},
                      {"arena", "history of allocations and releases on an arena against a list of live blocks with fill patterns; non-trivial: the arena was exhausted or a released block reused", arena}});
}
