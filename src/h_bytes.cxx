// C05, C06: serialised tuples built by hand (any legal layout), then damaged;
// validation is compared with the independent validator, and whatever it
// accepts is read, searched, iterated, copied and edited.
#include "world.h"
#include <sys/mman.h>
#include <set>
#include <unistd.h>

using namespace fp;

namespace {

void put16(Val &b, size_t at, unsigned v) {
  b[at] = char(v);
  b[at + 1] = char(v >> 8);
}

// payload of a stretchy value
Val encode(genus g, const Val &v) {
  Val o;
  switch (g) {
  case fptu::text:
    if (v.size() < 254)
      o.push_back(char(v.size()));
    else {
      const size_t n = v.size() - 254;
      o.push_back(char(254 + (n & 1)));
      o.push_back(char(n >> 1));
      o.push_back(char(n >> 9));
    }
    o += v;
    break;
  case fptu::varbin:
    o.resize(4);
    put16(o, 0, unsigned((v.size() + 3) / 4 + 1));
    put16(o, 2, unsigned(v.size() & 3));
    o += v;
    break;
  case fptu::nested:
    o = v;
    break;
  case fptu::property:
    o.push_back(char(v.size() - 1));
    o += v;
    break;
  default:
    o = v;
  }
  o.resize((o.size() + 3) / 4 * 4, '\0');
  return o;
}

struct Slot { // one index entry
  genus g;
  unsigned id;
  Val v;        // value
  Val payload;  // what goes into the data area
  unsigned inplace = 0;
};

struct Forged {
  Val bytes;
  size_t index = 0, pre_units = 0;
};

// lay a tuple out: entries in the given order, payload in another order
Forged forge(Src &s, const World &w, std::vector<Slot> slots,
             const std::vector<std::optional<Val>> &pre) {
  Forged f;
  f.index = slots.size();
  f.pre_units = (w.sd.preplaced_bytes + 3) / 4;
  const size_t pivot = 1 + f.index;
  Val pre_area(f.pre_units * 4, '\0');
  struct Chunk {
    Val data;
    size_t from; // unit position of the referring word
    size_t ref;  // byte position of the 16-bit offset
    bool in_pre;
  };
  std::vector<Chunk> chunks;
  for (size_t i = 0; i < slots.size(); ++i)
    if (!slots[i].payload.empty())
      chunks.push_back({slots[i].payload, 1 + i, (1 + i) * 4, false});
  for (size_t k = 0; k < w.sd.pre.size(); ++k) {
    const auto &d = w.sd.pre[k];
    if (is_stretchy(d.g)) {
      if (pre[k])
        chunks.push_back({encode(d.g, *pre[k]), pivot + d.offset / 4, d.offset, true});
    } else if (pre[k])
      pre_area.replace(d.offset, pre[k]->size(), *pre[k]);
  }
  // random order of the payload
  for (size_t i = chunks.size(); i > 1; --i)
    std::swap(chunks[i - 1], chunks[i - 1 - s.below(i)]);
  Val b(pivot * 4, '\0');
  for (size_t i = 0; i < slots.size(); ++i) {
    put16(b, (1 + i) * 4, slots[i].inplace);
    put16(b, (1 + i) * 4 + 2, unsigned(slots[i].g) << 11 | slots[i].id);
  }
  b += pre_area;
  for (auto &c : chunks) {
    const size_t at = b.size() / 4;
    // pre-placed offsets count from the unit of the slot
    const size_t ref = c.in_pre ? pivot * 4 + c.ref : c.ref;
    put16(b, ref, unsigned(at - c.from));
    b += c.data;
  }
  put16(b, 0, unsigned(b.size() / 4));
  unsigned lf = unsigned(f.index) << 3;
  if (w.sd.preplaced_bytes)
    lf |= 2;
  put16(b, 2, lf);
  f.bytes = b;
  return f;
}

Slot hole_slot(Src &s) {
  Slot h;
  h.g = fptu::hole;
  h.id = 0;
  size_t n;
  switch (s.weighted({30, 50, 10, 10})) {
  case 0:
    return h; // empty slot
  case 1:
    n = 1 + s.below(6);
    break;
  case 2:
    n = 1 + s.below(300);
    break;
  default:
    n = 2040 + s.below(16);
    break;
  }
  h.id = n >= 0x7ff ? 0x7ff : unsigned(n);
  h.payload.assign(n * 4, '\0');
  for (size_t k = 0; k < h.payload.size() && k < 64; ++k)
    h.payload[k] = char(s.below(4) * 85);
  if (h.id == 0x7ff) {
    put16(h.payload, 0, unsigned(n));
    put16(h.payload, 2, 0);
  }
  return h;
}

Slot value_slot(Src &s, genus g, unsigned id) {
  GenOpt o;
  o.max_len = 24;
  Slot e;
  e.g = g;
  e.id = id;
  const GInfo &gi = ginfo(g);
  if (is_stretchy(g)) {
    if (g == fptu::nested) {
      e.v = s.pick(nested_pool());
      if (s.chance(20)) { // opaque content with a proper length
        e.v = s.bytes(4 * (1 + s.below(5)));
        put16(e.v, 0, unsigned(e.v.size() / 4));
      }
    } else
      e.v = gen_value(s, g, o);
    e.payload = encode(g, e.v);
  } else if (gi.loose_units == 0) {
    e.v = gen_value(s, g, o);
    memcpy(&e.inplace, e.v.data(), e.v.size());
  } else {
    const bool reserved = g == fptu::app_reserved_64 || g == fptu::app_reserved_128;
    e.v = reserved ? s.bytes(gi.size) : gen_value(s, g, o);
    e.payload = encode(g, e.v);
  }
  return e;
}

// a well-formed tuple of a layout of its own
Forged gen_forged(Src &s, World &w) {
  std::vector<Slot> slots;
  for (auto &f : w.flds) {
    if (f.preplaced)
      continue;
    const unsigned n = f.collection ? unsigned(s.below(4)) : unsigned(s.chance(70));
    for (unsigned k = 0; k < n; ++k)
      slots.push_back(value_slot(s, f.g, f.tok.id()));
  }
  const unsigned extra = unsigned(s.below(4));
  for (unsigned k = 0; k < extra; ++k)
    if (s.chance(60))
      slots.push_back(hole_slot(s));
    else {
      genus g = s.chance(10) ? genus(s.below(31)) : s.pick(settable());
      slots.push_back(value_slot(s, g, unsigned(s.chance(10) ? s.below(2048) : 900 + s.below(4))));
    }
  if (s.chance(3)) { // many of them
    const unsigned n = unsigned(s.below(200));
    for (unsigned k = 0; k < n; ++k)
      slots.push_back(s.chance(30) ? hole_slot(s)
                                   : value_slot(s, s.pick(settable()), 700 + unsigned(s.below(10))));
  }
  for (size_t i = slots.size(); i > 1; --i)
    std::swap(slots[i - 1], slots[i - 1 - s.below(i)]);
  std::vector<std::optional<Val>> pre;
  for (auto &d : w.sd.pre) {
    if (s.chance(35))
      pre.push_back(std::nullopt);
    else {
      GenOpt o;
      o.max_len = 24;
      Val v = is_stretchy(d.g) ? value_slot(s, d.g, 0).v : gen_value(s, d.g, o);
      pre.push_back(v);
    }
  }
  return forge(s, w, slots, pre);
}

// damage at places that matter
void mutate(Src &s, Ctx &ctx, Forged &f) {
  Val &b = f.bytes;
  const unsigned n = 1 + unsigned(s.below(3));
  for (unsigned k = 0; k < n && b.size() >= 4; ++k) {
    const size_t units = b.size() / 4;
    auto get = [&](size_t at) { return unsigned((unsigned char)b[at]) | unsigned((unsigned char)b[at + 1]) << 8; };
    auto tweak = [&](size_t at) {
      unsigned v = get(at);
      switch (s.below(6)) {
      case 0:
        v += 1;
        break;
      case 1:
        v -= 1;
        break;
      case 2:
        v ^= 1u << s.below(16);
        break;
      case 3:
        v = unsigned(s.below(units + 2));
        break;
      case 4:
        v = unsigned(s.below(65536));
        break;
      default:
        v = s.chance(50) ? 0 : 0xffff;
      }
      put16(b, at, v);
      ctx.log("  16 bits at byte %zu := %u", at, v & 0xffff);
    };
    switch (s.weighted({10, 8, 22, 18, 12, 12, 6, 6, 6, 6})) {
    case 0: // size
      tweak(0);
      break;
    case 1: // number of fields and flags
      if (s.chance(50)) {
        unsigned v = get(2) ^ (1u << s.below(3));
        put16(b, 2, v);
        ctx.log("  flags toggled");
      } else
        tweak(2);
      break;
    case 2: // offset of a field
      if (f.index && (1 + f.index) * 4 <= b.size())
        tweak((1 + s.below(f.index)) * 4);
      break;
    case 3: // type and number of a field
      if (f.index && (1 + f.index) * 4 <= b.size()) {
        const size_t at = (1 + s.below(f.index)) * 4 + 2;
        switch (s.below(3)) {
        case 0:
          put16(b, at, unsigned(s.below(32)) << 11 | (get(at) & 0x7ff));
          ctx.log("  another type at byte %zu", at);
          break;
        case 1:
          put16(b, at, (get(at) & ~0x7ffu) | unsigned(s.below(2048)));
          ctx.log("  another number at byte %zu", at);
          break;
        default:
          tweak(at);
        }
      }
      break;
    case 4: // something in the data: lengths, pre-placed slots
      tweak(2 * s.below(b.size() / 2));
      break;
    case 5: { // the first word of some payload
      if (!f.index || (1 + f.index) * 4 > b.size())
        break;
      const size_t pos = 1 + s.below(f.index);
      const size_t at = pos + get(pos * 4);
      if (at < units)
        tweak(at * 4 + 2 * s.below(2));
      break;
    }
    case 6: // cut
      b.resize(s.chance(50) ? (units - 1 - s.below(std::min<size_t>(units, 4))) * 4 : s.below(b.size() + 1));
      ctx.log("  cut to %zu bytes", b.size());
      if (b.size() >= 4 && s.chance(60))
        put16(b, 0, unsigned(b.size() / 4));
      break;
    case 7: // extend
      b += s.bytes(s.chance(70) ? 4 * (1 + s.below(3)) : 1 + s.below(7));
      ctx.log("  extended to %zu bytes", b.size());
      if (s.chance(60))
        put16(b, 0, unsigned(b.size() / 4));
      break;
    case 8: // an entry repeats or changes place with another
      if (f.index > 1 && (1 + f.index) * 4 <= b.size()) {
        const size_t i = (1 + s.below(f.index)) * 4, j = (1 + s.below(f.index)) * 4;
        for (int x = 0; x < 4; ++x)
          s.below(2) ? std::swap(b[i + x], b[j + x]) : void(b[i + x] = b[j + x]);
        ctx.log("  entries at %zu and %zu mixed", i, j);
      }
      break;
    default: { // one bit anywhere
      const size_t at = s.below(b.size());
      b[at] = char(b[at] ^ (1 << s.below(8)));
      ctx.log("  bit of byte %zu flipped", at);
    }
    }
  }
}

// a copy of the bytes that ends at an inaccessible page, at a unit-aligned
// address
struct Guarded {
  char *map = nullptr, *p = nullptr;
  size_t map_bytes = 0;
  explicit Guarded(const Val &v) {
    const size_t page = 4096;
    const size_t body = (v.size() + 8 + page - 1) / page * page;
    map_bytes = body + 2 * page;
    map = static_cast<char *>(
        mmap(nullptr, map_bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (map == MAP_FAILED)
      _exit(3);
    if (mprotect(map + page, body, PROT_READ | PROT_WRITE))
      _exit(3);
    p = map + page + body - v.size();
    // keep the unit alignment when the length is odd
    p = reinterpret_cast<char *>(reinterpret_cast<uintptr_t>(p) & ~uintptr_t(3));
    memcpy(p, v.data(), v.size());
    // the input is never written by anybody
    if (mprotect(map + page, body, PROT_READ))
      _exit(3);
  }
  ~Guarded() { munmap(map, map_bytes); }
};
struct Heap { // for the address sanitizer: exact size
  char *block;
  char *p;
  explicit Heap(const Val &v, bool shift) {
    block = static_cast<char *>(malloc(v.size() + (shift ? 4 : 0)));
    p = block + (shift ? 4 : 0);
    if (!v.empty())
      memcpy(p, v.data(), v.size());
  }
  ~Heap() { free(block); }
};

bool readable(genus g) {
  return g != fptu::hole && g != fptu::app_reserved_64 && g != fptu::app_reserved_128;
}

using Map = std::map<std::pair<int, unsigned>, std::vector<Val>>;

Map loose_map(const ref::Result &r) {
  Map m;
  for (auto &e : r.loose)
    m[{int(e.g), e.id}].push_back(e.v);
  return m;
}

// reading everything an accepted tuple has
template <typename T>
void read_all(const T &t, const World &w, const ref::Result &r, const char *what) {
  Map m = loose_map(r);
  for (auto &x : m) {
    const genus g = genus(x.first.first);
    if (!readable(g) || x.first.second > 1023)
      continue;
    const token single(g, x.first.second, false, true), many(g, x.first.second, true, true);
    PBT_CHECK(t.is_present(single), "%s: %s#%u is not found", what, ginfo(g).name, x.first.second);
    Fld f{single, g, false, false, true, "x"};
    Val v;
    try {
      v = get_value(t, single, g);
    } catch (const fptu::field_absent &) {
      v = natural_empty(g);
    }
    bool any = false;
    for (auto &y : x.second)
      any = any || y == v;
    PBT_CHECK(any, "%s: %s#%u reads %s, which no entry has", what, ginfo(g).name,
              x.first.second, show(v).c_str());
    std::vector<Val> got;
    auto c = reader_for_index(t).collection(many);
    for (auto it = c.begin(); it != c.end(); ++it) {
      Val e;
      try {
        e = acc_value(*it, g);
      } catch (const fptu::field_absent &) {
        e = natural_empty(g);
      }
      got.push_back(e);
      PBT_CHECK(got.size() <= r.index_size, "%s: endless collection", what);
    }
    PBT_CHECK(same_multiset(got, x.second), "%s: collection %s#%u reads %s, expected %s", what,
              ginfo(g).name, x.first.second, show_multiset(got).c_str(),
              show_multiset(x.second).c_str());
    if (g == fptu::nested)
      for (auto &y : x.second) {
        // the content of a nested tuple is validated on its own
        if (is_natural_empty(g, y))
          continue;
        Aligned a(y);
        const ref::Result n = ref::parse(a.buf.data(), y.size(), ref::SchemaDesc());
        fptu::tuple_ro_weak nested;
        try {
          nested = t.get_nested_weak(single);
        } catch (const fptu::field_absent &) { // entry without a payload
          continue;
        }
        const char *trouble = nested.validate(nullptr);
        if (val_of_nested(nested.get_impl()) == y && n.verdict != ref::EITHER) {
          PBT_CHECK((trouble == nullptr) == (n.verdict == ref::ACCEPT),
                    "%s: nested tuple: validation says %s, expected %s", what,
                    trouble ? trouble : "ok", n.why.c_str());
        }
      }
  }
  // fields that are not there
  for (auto &f : w.flds)
    if (!f.preplaced && !m.count({int(f.g), f.tok.id()}))
      PBT_CHECK(!t.is_present(f.tok), "%s: absent %s is found", what, show(f).c_str());
  // pre-placed ones
  for (auto &f : w.flds) {
    if (!f.preplaced)
      continue;
    for (size_t k = 0; k < w.sd.pre.size(); ++k)
      if (w.sd.pre[k].offset == size_t(f.tok.preplaced_offset())) {
        std::optional<Val> want;
        if (r.slot_present[k])
          want = r.slots[k];
        const auto got = read_single(t, f, what);
        PBT_CHECK(got == want, "%s: pre-placed %s reads %s, expected %s", what, show(f).c_str(),
                  got ? show(*got).c_str() : "absent", want ? show(*want).c_str() : "absent");
      }
  }
  // iteration over loose fields
  Map seen;
  size_t n = 0;
  for (auto it = t.begin_loose(); it != t.end_loose(); ++it) {
    PBT_CHECK(++n <= r.index_size, "%s: endless iteration", what);
    const genus g = it.field_type();
    if (g == fptu::hole)
      continue;
    if (!readable(g)) {
      seen[{int(g), it.field_id()}].push_back(Val());
      continue;
    }
    Val e;
    try {
      e = acc_value(*it, g);
    } catch (const fptu::field_absent &) {
      e = natural_empty(g);
    }
    seen[{int(g), it.field_id()}].push_back(e);
  }
  for (auto &x : m)
    if (!readable(genus(x.first.first)))
      for (auto &y : x.second)
        y.clear();
  for (auto &x : m)
    std::sort(x.second.begin(), x.second.end());
  for (auto &x : seen)
    std::sort(x.second.begin(), x.second.end());
  PBT_CHECK(seen == m, "%s: iteration visits other fields than there are", what);
  PBT_CHECK(n == r.index_size, "%s: iteration visits %zu entries of %zu", what, n, r.index_size);
}

size_t walk_fields(const fptu::tuple_ro_weak &t, const fptu::schema *sch) {
  size_t n = 0;
  for (auto it = t.cbegin(sch); it != t.cend(sch); ++it) {
    PBT_CHECK(++n < 70000, "endless iteration");
    const token tok = (*it).token();
    if (tok.is_preplaced() || it.field_type() == fptu::hole)
      continue;
  }
  return n;
}

struct Stage {
  World w;
  Forged f;
  ref::Result r;
  bool pristine;
};

Stage gen_stage(Src &s, Ctx &ctx, unsigned pristine_percent) {
  Stage x;
  WorldOpt wo;
  wo.schema_percent = 60;
  wo.max_fields = 6;
  wo.stretchy_percent = 50;
  x.w = gen_world(s, ctx, wo);
  x.pristine = false;
  if (s.chance(4)) { // nothing but noise
    x.f.bytes = s.bytes(s.below(60));
    if (x.f.bytes.size() >= 4 && s.chance(80))
      put16(x.f.bytes, 0, unsigned(x.f.bytes.size() / 4));
    if (x.f.bytes.size() >= 4 && s.chance(80))
      put16(x.f.bytes, 2, unsigned(s.below(5)) << 3 | (x.w.sd.preplaced_bytes ? 2 : 0));
  } else {
    x.f = gen_forged(s, x.w);
    if (x.f.bytes.size() > 65535 * 4) {
      x.f.bytes.resize(65534 * 4);
    }
    if (s.chance(pristine_percent))
      x.pristine = true;
    else
      mutate(s, ctx, x.f);
  }
  x.r = ref::parse(x.f.bytes.data(), x.f.bytes.size(), x.w.sd);
  ctx.log("%zu bytes, index %zu, pre-placed %zu: %s %s", x.f.bytes.size(), x.f.index,
          x.f.pre_units, x.r.verdict == ref::ACCEPT ? "well-formed" : x.r.verdict == ref::REJECT ? "malformed:" : "either",
          x.r.why.c_str());
  ctx.label(x.r.verdict == ref::ACCEPT ? "well-formed" : x.r.verdict == ref::REJECT ? "malformed" : "undetermined");
  if (x.r.verdict == ref::REJECT)
    ctx.label("malformed: " + x.r.why);
  return x;
}

// C06: the verdict
void verdict(Src &s, Ctx &ctx) {
  Stage x = gen_stage(s, ctx, 15);
  Guarded g(x.f.bytes);
  const char *trouble =
      fptu::tuple_ro_weak::validate(g.p, x.f.bytes.size(), x.w.schema(), false);
  ctx.log("validation says: %s", trouble ? trouble : "ok");
  if (x.pristine)
    PBT_CHECK(x.r.verdict != ref::REJECT, "harness: forged tuple is malformed: %s", x.r.why.c_str());
  if (x.r.verdict == ref::ACCEPT)
    PBT_CHECK(trouble == nullptr, "well-formed tuple is rejected: %s", trouble);
  if (x.r.verdict == ref::REJECT)
    PBT_CHECK(trouble != nullptr, "malformed tuple (%s) is accepted", x.r.why.c_str());
  const char *strict =
      fptu::tuple_ro_weak::validate(g.p, x.f.bytes.size(), x.w.schema(), true);
  PBT_CHECK((strict == nullptr) == (trouble == nullptr && x.r.holes_count == 0),
            "validation without holes says %s, with holes %s, there are %zu holes",
            strict ? strict : "ok", trouble ? trouble : "ok", x.r.holes_count);
  // the constructors agree
  bool made = true;
  try {
    fptu::tuple_ro_weak t(g.p, x.f.bytes.size(), x.w.schema());
  } catch (const fptu::bad_tuple &) {
    made = false;
  } catch (const fptu::tuple_hollow &) {
    made = false;
  }
  PBT_CHECK(made == (trouble == nullptr), "constructor %s what validation %s",
            made ? "accepts" : "rejects", trouble ? "rejects" : "accepts");
  if (s.chance(30)) {
    made = true;
    try {
      fptu::tuple_rw_fixed t(g.p, x.f.bytes.size(), 2, 40, x.w.schema());
      const char *bad = t.validate();
      PBT_CHECK(!bad, "modifiable form of an accepted tuple is invalid: %s", bad);
    } catch (const fptu::bad_tuple &) {
      made = false;
    } catch (const fptu::tuple_hollow &) {
      made = false;
    } catch (const fptu::tuple_too_large &) {
      made = trouble == nullptr;
    }
    PBT_CHECK(made == (trouble == nullptr), "modifiable form: constructor %s what validation %s (%s)",
              made ? "accepts" : "rejects", trouble ? "rejects" : "accepts", trouble ? trouble : "");
    made = true;
    try {
      fptu::tuple_ro_managed t(g.p, x.f.bytes.size(), x.w.schema());
      // (adjacent holes may have been joined)
      PBT_CHECK(t.size() <= x.f.bytes.size() && !t.validate(x.w.schema()), "managed copy is invalid");
    } catch (const fptu::bad_tuple &) {
      made = false;
    } catch (const fptu::tuple_hollow &) {
      made = false;
    }
    PBT_CHECK(made == (trouble == nullptr), "managed form: constructor %s what validation %s",
              made ? "accepts" : "rejects", trouble ? "rejects" : "accepts");
  }
  if (!x.w.sch) {
    fptu_ro ro;
    ro.sys.iov_base = g.p;
    ro.sys.iov_len = x.f.bytes.size();
    PBT_CHECK((fptu_check_ro(ro) == nullptr) == (trouble == nullptr), "fptu_check_ro disagrees");
    PBT_CHECK((fptu_check_ro_ex(ro, true) == nullptr) == (strict == nullptr), "fptu_check_ro_ex disagrees");
  }
  if (!x.pristine && x.f.index && x.f.bytes.size() >= 8)
    ctx.nontrivial();
}

// C05: nothing goes beyond the memory; accepted tuples are usable
void edit(Src &s, Ctx &ctx, Stage &x, fptu::tuple_rw_fixed &t) {
  // model of the content
  World w2;
  w2.sd = x.w.sd;
  std::vector<Cell> m;
  Map loose = loose_map(x.r);
  std::set<std::pair<int, unsigned>> done;
  for (auto &f : x.w.flds) {
    Fld g = f;
    Cell c;
    if (f.preplaced) {
      for (size_t k = 0; k < x.w.sd.pre.size(); ++k)
        if (x.w.sd.pre[k].offset == size_t(f.tok.preplaced_offset()) && x.r.slot_present[k])
          c.v = x.r.slots[k];
    } else {
      auto it = loose.find({int(f.g), f.tok.id()});
      done.insert({int(f.g), f.tok.id()});
      if (it != loose.end()) {
        if (!f.collection && it->second.size() > 1) { // damaged: repeats
          g.collection = true;
          g.tok = token(f.g, f.tok.id(), true, f.discernible);
        }
        if (g.collection)
          c.coll = it->second;
        else
          c.v = it->second[0];
      }
    }
    w2.flds.push_back(g);
    m.push_back(c);
  }
  bool odd = false;
  for (auto &l : loose) {
    const genus g = genus(l.first.first);
    if (done.count(l.first))
      continue;
    if (!readable(g) || l.first.second > 1023) {
      odd = true;
      continue;
    }
    Fld f{token(g, l.first.second, true, true), g, false, true, true, "extra"};
    Cell c;
    c.coll = l.second;
    w2.flds.push_back(f);
    m.push_back(c);
  }
  // stretchy entries without payload and nulls inside collections read in a
  // way of their own; only the memory safety matters for such tuples
  bool loose_model = x.r.verdict == ref::EITHER || odd;
  for (size_t i = 0; i < w2.flds.size(); ++i) {
    const Fld &f = w2.flds[i];
    if (f.preplaced)
      continue;
    for (auto &v : m[i].coll)
      if (is_natural_empty(f.g, v))
        loose_model = true;
    if (m[i].v && is_natural_empty(f.g, *m[i].v) && (!f.discernible || f.g == fptu::nested))
      loose_model = true;
    if (m[i].v && f.g == fptu::nested)
      loose_model = loose_model || m[i].v->size() < 8;
  }
  auto look = [&](const char *what) {
    const char *bad = t.validate();
    PBT_CHECK(!bad, "%s: modifiable tuple became invalid: %s", what, bad);
    auto weak = t.take_weak_asis();
    const ref::Result r = ref::parse(weak.data(), weak.size(), x.w.sd);
    PBT_CHECK(r.verdict != ref::REJECT, "%s: serialised form is malformed: %s", what, r.why.c_str());
    if (!loose_model) {
      check_reads(t, w2, m, what);
      check_reads(weak, w2, m, what);
    } else
      read_all(weak, x.w, r, what);
  };
  look("conversion");
  const unsigned n = unsigned(s.below(8));
  GenOpt go;
  go.max_len = 30;
  for (unsigned k = 0; k < n && !s.exhausted(); ++k) {
    const size_t i = s.below(w2.flds.size());
    const Fld &f = w2.flds[i];
    std::string what;
    try {
      switch (s.weighted({50, 30, 20})) {
      case 0: {
        Val v = gen_value(s, f.g, go);
        if (f.collection) {
          if (is_natural_empty(f.g, v))
            continue;
          what = "insert into " + show(f) + " " + show(v);
          ctx.log("%s", what.c_str());
          insert_value(t, f.tok, f.g, v);
          m[i].coll.push_back(v);
        } else {
          what = "set " + show(f) + " " + show(v);
          ctx.log("%s", what.c_str());
          if (f.preplaced && !is_stretchy(f.g) && f.discernible && v == denil(f.g))
            continue;
          set_value(t, f.tok, f.g, v);
          m[i].v = written(f, v);
        }
        break;
      }
      case 1:
        what = "erase " + show(f);
        ctx.log("%s", what.c_str());
        if (f.collection) {
          t.erase(t.collection(f.tok));
          m[i].coll.clear();
        } else {
          t.erase(f.tok);
          m[i].v = erased(f);
        }
        break;
      default:
        what = "optimize";
        ctx.log("%s", what.c_str());
        t.optimize();
      }
    } catch (const fptu::insufficient_space &) {
      ctx.log("  no space");
    } catch (const fptu::tuple_overflow &) {
      ctx.log("  overflow");
    }
    look(what.c_str());
    ctx.label("edits");
  }
}

void hostile(Src &s, Ctx &ctx) {
  Stage x = gen_stage(s, ctx, 35);
  Heap h(x.f.bytes, s.chance(50));
  const size_t bytes = x.f.bytes.size();
  const char *trouble = fptu::tuple_ro_weak::validate(h.p, bytes, x.w.schema(), false);
  ctx.log("validation says: %s", trouble ? trouble : "ok");
  fptu_ro ro;
  ro.sys.iov_base = h.p;
  ro.sys.iov_len = bytes;
  if (!x.w.sch)
    (void)fptu_check_ro(ro);
  if (trouble)
    return;
  if (x.f.index)
    ctx.nontrivial();
  fptu::tuple_ro_weak t(h.p, bytes, x.w.schema());
  if (x.r.verdict == ref::REJECT || x.r.pool) {
    // C06 complains about it; here it is enough that nothing breaks
    x.r = ref::Result();
    walk_fields(t, x.w.schema());
    fptu::tuple_rw_fixed rw = fptu::tuple_rw_fixed::clone(t, 4, 100, x.w.schema());
    (void)rw.take_weak_asis();
    return;
  }
  read_all(t, x.w, x.r, "accepted bytes");
  walk_fields(t, x.w.schema());
  if (!x.w.sch) {
    size_t n = 0;
    for (auto i = fptu_begin_ro(ro); i != fptu_end_ro(ro); ++i)
      ++n;
    PBT_CHECK(n == x.r.index_size, "C iteration visits %zu of %zu", n, x.r.index_size);
    for (auto &f : x.w.flds)
      (void)fptu::lookup(ro, f.tok.id(), fptu_any);
  }
  const size_t more_items = s.below(5), more_bytes = s.below(120);
  if (s.chance(50)) {
    fptu::tuple_rw_fixed rw = fptu::tuple_rw_fixed::clone(t, more_items, more_bytes, x.w.schema());
    edit(s, ctx, x, rw);
  } else {
    fptu::tuple_ro_managed mg(h.p, bytes, x.w.schema());
    read_all(mg, x.w, x.r, "managed copy");
    fptu::tuple_rw_fixed rw = fptu::tuple_rw_fixed::clone(mg, more_items, more_bytes, x.w.schema());
    edit(s, ctx, x, rw);
  }
  if (!x.w.sch && s.chance(40)) {
    const char *trouble = nullptr;
    size_t need = fptu_check_and_get_buffer_size(ro, unsigned(more_items), unsigned(more_bytes), &trouble);
    PBT_CHECK(!trouble, "an accepted tuple is refused by the legacy checker: %s", trouble);
    PBT_CHECK(need >= bytes, "buffer size for an accepted tuple is %zu", need);
    std::unique_ptr<char[]> buf(new char[need]);
    fptu_rw *pt = fptu_fetch(ro, buf.get(), need, unsigned(more_items));
    PBT_CHECK(pt, "fptu_fetch refuses an accepted tuple");
    const char *bad = fptu_check_rw(pt);
    PBT_CHECK(!bad, "fptu_fetch makes an invalid tuple: %s", bad);
    for (unsigned k = 0; k < 3; ++k)
      (void)fptu_upsert_uint32(pt, unsigned(s.below(5)), unsigned(s.bits()));
    bad = fptu_check_rw(pt);
    PBT_CHECK(!bad, "fetched tuple became invalid: %s", bad);
    fptu_ro again = fptu_take_noshrink(pt);
    PBT_CHECK(!fptu_check_ro(again), "fetched tuple gives malformed bytes");
  }
}

} // namespace

int main(int argc, char **argv) {
  return pbt::driver(
      argc, argv,
      {{"verdict", "a tuple with an index was damaged (1..3 changes) before validation", verdict},
       {"hostile", "the bytes were accepted and hold at least one index entry", hostile}});
}
