// C21: views, hexadecimal/format text, and the byte-range and guard helpers of
// the buffer layer.
#include "src/1Hippeus/hipagut.cxx"
#include "src/1Hippeus/utils.cxx"

#include "fast_positive/tuples.h"
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <string>
#include <string_view>
#include <unordered_map>
using pbt::Ctx;
using pbt::Src;
typedef fptu::string_view View;

static std::string show(const std::string &s) {
  std::string r;
  for (unsigned char c : s)
    r += (c >= 32 && c < 127) ? std::string(1, char(c)) : pbt::fmt("\\x%02x", c);
  return "'" + r + "'";
}

// ---------------------------------------------------------------------------
// pollute / is_zeroed / probe_pages touch exactly the given range
static void ranges(Src &s, Ctx &ctx) {
  const size_t room = 16 + s.below(s.chance(10) ? 5000 : 120);
  const size_t from = s.below(std::min<size_t>(room, 24) + 1);
  const size_t n = s.chance(5) ? 0 : s.below(room - from + 1);
  const size_t guard = 16;
  std::vector<uint8_t> mem(guard + room + guard + 16);
  uint8_t *const base = reinterpret_cast<uint8_t *>((reinterpret_cast<uintptr_t>(mem.data()) + 15) & ~uintptr_t(15)) + guard;
  uint8_t *const p = base + from;
  ctx.log("range of %zu bytes at offset %zu (address mod 8 is %zu)", n, from, size_t(uintptr_t(p) & 7));
  if (n && (uintptr_t(p) & 7 || n & 7))
    ctx.nontrivial(), ctx.label("unaligned");
  if (n && (uintptr_t(p) & 7) + n < 8)
    ctx.label("inside one word");
  // -- zero probe: zeros inside, noise around, then a single bit inside
  for (auto &b : mem)
    b = uint8_t(s.chance(30) ? 0 : 0xA5);
  memset(p, 0, n);
  const std::vector<uint8_t> before = mem;
  const bool z = hippeus::is_zeroed(p, ptrdiff_t(n));
  PBT_CHECK(z == (n > 0), "is_zeroed says %d for %zu zero bytes", z, n);
  if (n) {
    const size_t at = s.chance(25) ? 0 : s.chance(30) ? n - 1 : s.below(n);
    p[at] = uint8_t(1u << s.below(8));
    ctx.log("bit 0x%02x at byte %zu", p[at], at);
    PBT_CHECK(!hippeus::is_zeroed(p, ptrdiff_t(n)), "is_zeroed ignores byte %zu of %zu", at, n);
    p[at] = 0;
  }
  PBT_CHECK(mem == before, "is_zeroed has changed the memory");
  PBT_CHECK(!hippeus::is_zeroed(p, -ptrdiff_t(s.below(9))), "is_zeroed says yes for no bytes");
  // -- pollution with a mask: exact range, every byte xor'ed, twice is identity
  for (auto &b : mem)
    b = uint8_t(s.bits());
  const std::vector<uint8_t> orig = mem;
  const bool random = s.chance(40);
  uintptr_t mask = 0;
  if (!random)
    for (unsigned i = 0; i < sizeof(mask); ++i)
      mask |= uintptr_t(1 + s.below(255)) << i * 8;
  ctx.log("pollute with %" PRIx64, uint64_t(mask));
  hippeus::pollute(p, ptrdiff_t(n), mask);
  size_t changed = 0;
  const size_t lo = size_t(p - mem.data());
  for (size_t i = 0; i < mem.size(); ++i)
    if (i < lo || i >= lo + n)
      PBT_CHECK(mem[i] == orig[i], "pollute of %zu bytes has changed byte %td of the range", n, ptrdiff_t(i) - ptrdiff_t(lo));
    else {
      changed += mem[i] != orig[i];
      if (!random) {
        const uint8_t want = uint8_t(orig[i] ^ (mask >> (uintptr_t(mem.data() + i) & 7) * 8));
        PBT_CHECK(mem[i] == want, "pollute of %zu bytes: byte %zu is %02x, expected %02x", n, i - lo, mem[i], want);
      }
    }
  if (random && n >= 64)
    PBT_CHECK(changed > n / 2, "pollute of %zu bytes has changed %zu bytes only", n, changed);
  hippeus::pollute(p, ptrdiff_t(n), mask);
  if (!random)
    PBT_CHECK(mem == orig, "pollute twice with a mask is not the identity");
  mem = orig;
  hippeus::pollute(p, -ptrdiff_t(s.below(40)), mask);
  PBT_CHECK(mem == orig, "pollute of no bytes has changed the memory");
  hippeus::probe_pages(p, ptrdiff_t(n), s.chance(50), 1 + s.below(64));
  PBT_CHECK(mem == orig, "probe_pages has changed the memory");
  // -- rounding of sizes up to the grid of powers
  const unsigned step = 1 + unsigned(s.below(4)), low = unsigned(s.below(12));
  const unsigned high = low + step * (1 + unsigned(s.below((60 - low) / step)));
  const uint64_t v = s.chance(30) ? (uint64_t(1) << s.below(63)) + s.below(3) - 1 : s.edgy();
  const size_t got = hippeus::log2size(v, low, high, step);
  size_t want = size_t(1) << low;
  unsigned k = low;
  while (want < v && k < high)
    k += step, want = size_t(1) << k;
  ctx.log("log2size(%" PRIu64 ", %u, %u, %u) is %zu", v, low, high, step, got);
  PBT_CHECK(got == want, "log2size(%" PRIu64 ", %u, %u, %u) is %zu, expected %zu", v, low, high, step, got, want);
}

// ---------------------------------------------------------------------------
// a guard is intact until damaged, and damage is seen
static void guards(Src &s, Ctx &ctx) {
  const uint32_t sig = uint32_t(s.chance(30) ? s.edgy() : s.bits());
  hippeus_hipagut a[3];
  for (auto &g : a)
    g.body = s.bits();
  const hippeus_hipagut left = {{a[0].random_chirp, a[0].derived_mesh}}, right = {{a[2].random_chirp, a[2].derived_mesh}};
  const unsigned kind = unsigned(s.below(7));
  const uint64_t noise = s.bits();
  const uint32_t other = s.chance(40) ? sig ^ (1u << s.below(32)) : uint32_t(s.chance(30) ? s.edgy() : s.bits());
  uint64_t flip = 0;
  for (unsigned i = 0, n = 1 + unsigned(s.below(kind == 0 ? 1 : 4)); i < n; ++i)
    flip ^= uint64_t(1) << s.below(64);
  ctx.log("signature %08x, damage kind %u (flip %016" PRIx64 ", other signature %08x)", sig, kind, flip, other);
  // a damaged guard may pass by an accident of probability 2^-32; three in a row may not
  bool seen = false;
  for (unsigned attempt = 0; attempt < 3 && !seen; ++attempt) {
    hipagut_setup(&a[1], sig);
    PBT_CHECK(hipagut_probe(&a[1], sig), "a fresh guard %016" PRIx64 " is reported as damaged", uint64_t(a[1].body));
    PBT_CHECK(a[0].body == left.body && a[2].body == right.body, "a neighbour of the guard has been changed");
    const uint64_t good = a[1].body;
    PBT_CHECK(hipagut_probe(&a[1], sig) && a[1].body == good, "probing has changed the guard");
    hippeus_hipagut slave;
    hipagut_setup_link(&slave, &a[1]);
    PBT_CHECK(hipagut_probe_link(&slave, &a[1]), "a fresh linked guard is reported as damaged");
    switch (kind) {
    case 0:
    case 1: // bits
      if (flip == 0)
        return;
      a[1].body = good ^ flip;
      break;
    case 2:
      a[1].body = 0;
      break;
    case 3:
      a[1].body = ~uint64_t(0);
      break;
    case 4:
      hipagut_drown(&a[1]);
      break;
    case 5:
      if (noise == good)
        return;
      a[1].body = noise;
      break;
    case 6: // foreign signature
      if (other == sig)
        return;
      seen = !hipagut_probe(&a[1], other);
      ctx.nontrivial(), ctx.label("foreign signature");
      continue;
    }
    ctx.nontrivial(), ctx.label(kind < 2 ? "bits flipped" : "overwritten");
    seen = !hipagut_probe(&a[1], sig);
    if (kind == 0 && seen) { // one changed bit of the second word cannot cancel out
      a[1].body = good ^ (uint64_t(1) << (32 + s.below(32)));
      PBT_CHECK(!hipagut_probe(&a[1], sig), "one changed bit is not seen");
    }
    if (kind == 2 || kind == 3 || kind == 4)
      PBT_CHECK(seen, "an overwritten guard (kind %u) passes for intact", kind);
  }
  PBT_CHECK(seen, "damage of kind %u is not seen", kind);
}

// ---------------------------------------------------------------------------
// string_view against std::string
static std::string some(Src &s, const std::string &like) {
  std::string r = like;
  switch (s.below(6)) {
  case 0:
    return r;
  case 1:
    if (!r.empty())
      r[s.below(r.size())] = char(s.bits());
    return r;
  case 2:
    r.push_back(char(s.chance(50) ? 0 : s.bits()));
    return r;
  case 3:
    if (!r.empty())
      r.pop_back();
    return r;
  default: {
    const size_t n = s.weighted({10, 60, 25, 5}) == 0 ? 0 : s.below(s.chance(5) ? 3000 : 24);
    r.clear();
    for (size_t i = 0; i < n; ++i)
      r.push_back(char(s.chance(60) ? 'a' + s.below(3) : s.bits()));
    return r;
  }
  }
}
static int sign(intptr_t v) { return (v > 0) - (v < 0); }
// shorter is less, equal length goes by bytes; a nil view is less than the empty
static int model_cmp(const std::string *a, const std::string *b) {
  const intptr_t la = a ? intptr_t(a->size()) : -1, lb = b ? intptr_t(b->size()) : -1;
  if (la != lb)
    return la < lb ? -1 : 1;
  if (la <= 0)
    return 0;
  for (size_t i = 0; i < a->size(); ++i)
    if ((*a)[i] != (*b)[i])
      return uint8_t((*a)[i]) < uint8_t((*b)[i]) ? -1 : 1;
  return 0;
}
static View make(const std::string &t, unsigned way) {
  switch (way) {
  case 0:
    return View(t.data(), t.size());
  case 1:
    return View(t.data(), t.data() + t.size());
  case 2:
    return View(t);
  case 3:
    return View(std::string_view(t));
  default: {
    std::string_view v(t);
    View r("other");
    r = v;
    return r;
  }
  }
}
static void same_as(const View &v, const std::string *t, const char *how) {
  const std::string m = t ? *t : std::string();
  PBT_CHECK(v.nil() == !t, "%s: nil() is %d", how, v.nil());
  PBT_CHECK(v.empty() == m.empty() && v.length() == m.size() && v.size() == m.size(), "%s: length is %zu, expected %zu", how, v.size(), m.size());
  PBT_CHECK(std::string(v) == m, "%s: to std::string gives %s, expected %s", how, show(std::string(v)).c_str(), show(m).c_str());
  PBT_CHECK(std::string_view(v) == std::string_view(m), "%s: to std::string_view differs", how);
  PBT_CHECK(std::string(v.begin(), v.end()) == m && std::string(v.cbegin(), v.cend()) == m, "%s: iteration differs", how);
  PBT_CHECK(std::string(v.rbegin(), v.rend()) == std::string(m.rbegin(), m.rend()), "%s: reverse iteration differs", how);
  PBT_CHECK(std::string(v.crbegin(), v.crend()) == std::string(m.rbegin(), m.rend()), "%s: reverse iteration differs", how);
  for (size_t i = 0; i < m.size(); i += 1 + i / 8)
    PBT_CHECK(v[i] == m[i] && v.at(i) == m[i], "%s: character %zu differs", how, i);
  if (!m.empty())
    PBT_CHECK(v.front() == m.front() && v.back() == m.back() && v.at(m.size() - 1) == m.back(), "%s: first or last character differs", how);
}
static void refused(const View &v, size_t at) {
  bool threw = false;
  try {
    (void)v.at(at);
  } catch (const std::out_of_range &) {
    threw = true;
  }
  PBT_CHECK(threw, "at(%zu) of %zu characters is not refused", at, v.size());
}
static void views(Src &s, Ctx &ctx) {
  const std::string a = some(s, ""), b = some(s, a);
  const bool anil = s.chance(6), bnil = s.chance(6);
  const unsigned wa = unsigned(s.below(5)), wb = unsigned(s.below(5));
  const std::string *const ma = anil ? nullptr : &a, *const mb = bnil ? nullptr : &b;
  ctx.log("a %s %s, b %s %s", anil ? "nil" : "", show(a).c_str(), bnil ? "nil" : "", show(b).c_str());
  View va = anil ? (s.chance(50) ? View() : View(static_cast<const char *>(nullptr), size_t(s.below(9)))) : make(a, wa);
  View vb = bnil ? View(static_cast<const char *>(nullptr)) : make(b, wb);
  same_as(va, ma, "a");
  same_as(vb, mb, "b");
  refused(va, va.size());
  refused(va, va.size() + s.below(9));
  refused(va, ~size_t(0) - s.below(3));
  if (!anil && a.find('\0') == std::string::npos) {
    const View z(a.c_str());
    same_as(z, ma, "from C string");
    PBT_CHECK(z == va, "view of a C string differs");
  }
  const int want = model_cmp(ma, mb);
  if (want && a.size() == b.size())
    ctx.nontrivial(), ctx.label("same length, other bytes");
  else if (want == 0 && !a.empty())
    ctx.nontrivial(), ctx.label("equal");
  else if (want)
    ctx.nontrivial(), ctx.label("other length");
  PBT_CHECK(sign(View::compare(va, vb)) == want && sign(View::compare(vb, va)) == -want, "compare gives %d and %d, expected %d", sign(View::compare(va, vb)),
            sign(View::compare(vb, va)), want);
  PBT_CHECK((va == vb) == (want == 0) && (va != vb) == (want != 0) && (va < vb) == (want < 0) && (va <= vb) == (want <= 0) && (va > vb) == (want > 0) &&
                (va >= vb) == (want >= 0),
            "operators disagree with the order %d", want);
  if (want == 0)
    PBT_CHECK(va.hash_value() == vb.hash_value() && std::hash<View>()(va) == std::hash<View>()(vb), "equal views have other hashes");
  if (!bnil) { // against std::string
    PBT_CHECK(sign(View::compare(va, b)) == want && sign(View::compare(b, va)) == -want, "compare with std::string is wrong, expected %d", want);
    const std::string &sb = b;
    PBT_CHECK(va.operator==(sb) == (want == 0) && va.operator!=(sb) == (want != 0) && va.operator<(sb) == (want < 0) && va.operator<=(sb) == (want <= 0) &&
                  va.operator>(sb) == (want > 0) && va.operator>=(sb) == (want >= 0),
              "operators with std::string on the right disagree with the order %d", want);
    PBT_CHECK(::operator==(va, sb) == (want == 0) && ::operator!=(va, sb) == (want != 0) && ::operator<(va, sb) == (want < 0) &&
                  ::operator<=(va, sb) == (want <= 0) && ::operator>(va, sb) == (want > 0) && ::operator>=(va, sb) == (want >= 0),
              "free operators with std::string on the right disagree with the order %d", want);
    PBT_CHECK(::operator==(sb, va) == (want == 0) && ::operator!=(sb, va) == (want != 0) && ::operator<(sb, va) == (want > 0) &&
                  ::operator<=(sb, va) == (want >= 0) && ::operator>(sb, va) == (want < 0) && ::operator>=(sb, va) == (want <= 0),
              "free operators with std::string on the left disagree with the order %d", want);
  }
  // as a key
  std::unordered_map<View, int> map;
  map[va] = 1;
  map[vb] = 2;
  PBT_CHECK(map.size() == (want ? 2u : 1u) && map[vb] == 2 && map[va] == (want ? 1 : 2), "as keys of a map the views are mixed up");
  // exchange
  va.swap(vb);
  same_as(va, mb, "a after swap");
  same_as(vb, ma, "b after swap");
  std::string_view std_v(a);
  va.swap(std_v);
  same_as(va, &a, "a after swap with std::string_view");
  PBT_CHECK(std_v == std::string_view(bnil ? std::string() : b), "std::string_view after swap differs");
}

// ---------------------------------------------------------------------------
static void text(Src &s, Ctx &ctx) {
  const size_t n = s.chance(10) ? s.below(2000) : s.below(40);
  std::string d;
  for (size_t i = 0; i < n; ++i)
    d.push_back(char(s.chance(30) ? (s.chance(50) ? 0x09 : 0xf0) + s.below(3) : s.bits()));
  const std::string got = fptu::hexadecimal(d.data(), n);
  std::string want;
  for (unsigned char c : d) {
    char two[3];
    snprintf(two, sizeof(two), "%02x", c);
    want += two;
  }
  ctx.log("hexadecimal of %zu bytes: %s", n, got.c_str());
  PBT_CHECK(got == want, "hexadecimal gives %s, expected %s", got.c_str(), want.c_str());
  if (n)
    ctx.nontrivial(), ctx.label("hexadecimal");
  // format: the same as snprintf into a buffer that is large enough
  std::string word;
  const size_t len = s.chance(20) ? s.below(5000) : s.below(40);
  for (size_t i = 0; i < len; ++i)
    word.push_back(char(33 + s.below(94)));
  const long long i = (long long)(s.edgy());
  const unsigned u = unsigned(s.edgy());
  double f = 0;
  const uint64_t fb = s.bits();
  memcpy(&f, &fb, sizeof(f));
  const int width = int(s.below(60)), prec = int(s.below(20));
  std::vector<char> buf(len + 1000);
  snprintf(buf.data(), buf.size(), "%s|%lld|%*u|%.*e|%c%%", word.c_str(), i, width, u, prec, f, 'x');
  const std::string out = fptu::format("%s|%lld|%*u|%.*e|%c%%", word.c_str(), i, width, u, prec, f, 'x');
  PBT_CHECK(out == buf.data(), "format gives %s, expected %s", show(out).c_str(), buf.data());
  PBT_CHECK(fptu::format("%s", word.c_str()) == word, "format of a text of %zu characters differs", len);
  PBT_CHECK(fptu::format("%s", "").empty(), "format of an empty text is not empty");
  // names of types are distinct and not empty
  const unsigned x = unsigned(s.below(32)), y = unsigned(s.below(32));
  const View nx = std::to_string(fptu::genus(x)), ny = std::to_string(fptu::genus(y));
  PBT_CHECK(!nx.empty() && (nx == ny) == (x == y), "names of types %u and %u: %s and %s", x, y, nx.data(), ny.data());
}

int main(int argc, char **argv) {
  return pbt::driver(argc, argv,
                     {{"ranges", "the range is not aligned to words at both ends", ranges},
                      {"guards", "the guard has been damaged, or is probed with a foreign signature", guards},
                      {"views", "equal non-empty texts, texts of the same length with other bytes, or of other lengths", views},
                      {"text", "at least one byte is printed", text}});
}
