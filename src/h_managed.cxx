// C18: histories of operations over a pool of read-only and modifiable
// managed tuples, with exact accounting of the buffers and failing allocations.
#include "world.h"
#include <atomic>
#include <new>
#include <thread>

using namespace fp;

namespace {

// An allocator of buffers that counts them; the memory comes from the
// library's own allocator.
struct Allot : hippeus_allot_t {
  std::set<const hippeus_buffer_t *> live;
  const char *wrong = nullptr;
  int fill = -1; // what the memory is filled with before it is given
  static inline int countdown = 0; // fail at this allocation
  static inline bool failed = false;

  Allot() {
    default_chunk = 4096;
    flags = 0;
    borrow = do_borrow;
    repay = do_repay;
    validate_ = do_validate;
  }
  static hippeus_buffer_t *do_borrow(hippeus_allot_t *self, std::size_t n, bool leastwise, hippeus_actor_t actor) {
    Allot *a = static_cast<Allot *>(self);
    if (countdown && --countdown == 0) {
      failed = true;
      throw std::bad_alloc();
    }
    hippeus_buffer_t *b = hippeus_allot_stdcxx.borrow(&hippeus_allot_stdcxx, n, leastwise, actor);
    b->host = hippeus::buffer_tag(self, false);
    if (a->fill >= 0)
      memset(static_cast<hippeus::buffer *>(b)->data(), a->fill, static_cast<hippeus::buffer *>(b)->size());
    a->live.insert(b);
    return b;
  }
  static void do_repay(hippeus_allot_t *self, hippeus_buffer_t *b, hippeus_actor_t actor) {
    Allot *a = static_cast<Allot *>(self);
    if (!a->live.erase(b)) {
      a->wrong = "a buffer is released that is not in use";
      return;
    }
    hippeus_allot_stdcxx.repay(&hippeus_allot_stdcxx, b, actor);
  }
  static bool do_validate(const hippeus_allot_t *, bool, bool) { return true; }
  hippeus::buffer_tag tag() const { return hippeus::buffer_tag(this, false); }
};

using Ro = fptu::tuple_ro_managed;
using Fixed = fptu::tuple_rw_fixed;
using Grow = fptu::tuple_rw_managed;

struct RoSlot {
  Ro h;
  bool full = false;
  Val bytes;             // exact content
  bool raw = false;      // no field model (a nested tuple)
  bool bare = false;     // made without the schema of the world
  std::vector<Cell> m;
};
struct RwSlot {
  std::unique_ptr<Fixed> f; // either of them
  std::unique_ptr<Grow> g;
  bool full = false; // has a tuple (not moved out)
  bool raw = false;
  Val bytes; // of a raw one
  std::vector<Cell> m;
  Fixed &any() { return f ? *f : *g; }
};

struct Pool {
  Src &s;
  Ctx &ctx;
  World w;
  std::unique_ptr<fptu::schema> other; // a schema that most tuples do not fit
  Allot a[2];
  RoSlot ro[4];
  RwSlot rw[3];
  unsigned steps = 0, shares = 0, moves = 0, faults = 0;
  std::string what;

  Pool(Src &s_, Ctx &c_) : s(s_), ctx(c_) {
    WorldOpt o;
    o.schema_percent = 50;
    o.max_fields = 5;
    w = gen_world(s, ctx, o);
    other = fptu::schema::create();
    for (unsigned n = 1 + unsigned(s.below(3)); n; --n)
      other->define_preplaced(pbt::fmt("other%u", n), n & 1 ? fptu::u64 : fptu::text, false, false, nullptr);
  }

  hippeus::buffer_tag tag() { return a[s.chance(25)].tag(); }
  static Val bytes_of(const void *p, size_t n) { return Val(static_cast<const char *>(p), n); }

  void snapshot(RoSlot &r) { r.bytes = bytes_of(r.h.data(), r.h.size()); }
  void filled(RoSlot &r, const RwSlot &src) {
    r.full = true;
    r.raw = src.raw;
    r.bare = false;
    r.m = src.m;
    snapshot(r);
    if (src.raw)
      PBT_CHECK(r.bytes == src.bytes, "%s: content of a nested tuple has changed", what.c_str());
  }
  void assigned(RoSlot &r, const RoSlot &src) {
    r.full = src.full;
    r.raw = src.raw;
    r.bare = src.bare;
    r.m = src.m;
    r.bytes = src.bytes;
  }

  void check_ro(RoSlot &r, size_t i) {
    const std::string where = what + pbt::fmt(", then ro%zu", i);
    PBT_CHECK(bool(r.h) == r.full, "%s: is %s", where.c_str(), r.h ? "not empty" : "empty");
    if (!r.full) {
      PBT_CHECK(!r.h.get_buffer(), "%s: an empty handle keeps a buffer", where.c_str());
      return;
    }
    PBT_CHECK(bytes_of(r.h.data(), r.h.size()) == r.bytes, "%s: its content has changed", where.c_str());
    if (!r.raw) {
      check_reads(r.h, w, r.m, where.c_str());
      const char *bug = r.h.validate(w.schema());
      PBT_CHECK(!bug, "%s: invalid: %s", where.c_str(), bug);
    }
  }
  void check_rw(RwSlot &r, size_t i) {
    const std::string where = what + pbt::fmt(", then rw%zu", i);
    if (!r.f && !r.g)
      return;
    PBT_CHECK(bool(r.any()) == r.full, "%s: is %s", where.c_str(), r.any() ? "not empty" : "empty");
    if (!r.full)
      return;
    const char *bug = r.any().validate();
    PBT_CHECK(!bug, "%s: invalid: %s", where.c_str(), bug);
    if (r.raw) {
      auto weak = r.any().take_weak_asis();
      PBT_CHECK(bytes_of(weak.data(), weak.size()) == r.bytes, "%s: its content has changed", where.c_str());
    } else {
      PBT_CHECK(r.any().schema() == w.schema(), "%s: schema is lost", where.c_str());
      check_reads(r.any(), w, r.m, where.c_str());
    }
  }
  void check_all() {
    std::set<const hippeus_buffer_t *> want[2], all;
    for (size_t i = 0; i < 4; ++i) {
      check_ro(ro[i], i);
      if (ro[i].full)
        all.insert(ro[i].h.get_buffer());
    }
    for (size_t i = 0; i < 3; ++i) {
      check_rw(rw[i], i);
      if (rw[i].full)
        all.insert(rw[i].any().get_buffer());
    }
    size_t n = 0;
    for (auto &x : a) {
      PBT_CHECK(!x.wrong, "%s: %s", what.c_str(), x.wrong);
      n += x.live.size();
    }
    for (auto b : all) {
      // its own guards are in place, the room after the data included
      const hippeus::buffer *hb = static_cast<const hippeus::buffer *>(b);
      PBT_CHECK(hb->check() && hb->ensure(), "%s: the guards of a buffer are damaged", what.c_str());
    }
    for (auto b : all)
      PBT_CHECK(a[0].live.count(b) || a[1].live.count(b), "%s: a released buffer is in use", what.c_str());
    PBT_CHECK(n == all.size(), "%s: %zu buffers are allocated, %zu are in use", what.c_str(), n, all.size());
  }

  // edit; returns whether anything could be changed
  template <typename T> void edit(T &t, std::vector<Cell> &m) {
    const size_t i = s.below(w.flds.size());
    const Fld &f = w.flds[i];
    GenOpt o;
    o.max_len = 40;
    try {
      if (s.chance(20)) {
        ctx.log("  erase %s", show(f).c_str());
        t.erase(f.tok);
        if (f.collection)
          m[i].coll.clear();
        else
          m[i].v = erased(f);
      } else if (f.collection) {
        const Val v = gen_value(s, f.g, o);
        ctx.log("  insert %s %s", show(f).c_str(), show(v).c_str());
        insert_value(t, f.tok, f.g, v);
        if (!insert_means_nothing(f, v))
          m[i].coll.push_back(v);
      } else {
        const Val v = gen_value(s, f.g, o);
        ctx.log("  set %s %s", show(f).c_str(), show(v).c_str());
        set_value(t, f.tok, f.g, v);
        m[i].v = written(f, v);
        if (always_present(f))
          m[i].v = v;
      }
    } catch (const fptu::insufficient_space &) {
    } catch (const fptu::tuple_overflow &) {
    } catch (const fptu::value_is_denil &) {
    }
  }

  void put(RwSlot &x, Fixed &&t, bool grow) {
    x.f.reset();
    x.g.reset();
    if (grow)
      x.g.reset(new Grow(std::move(t)));
    else
      x.f.reset(new Fixed(std::move(t)));
    x.full = true;
  }
  void moved_out(RwSlot &x) {
    x.full = false;
    ++moves;
  }

  void step() {
    const size_t i = s.below(4), j = s.below(4), k = s.below(3), l = s.below(3);
    RoSlot &A = ro[i], &B = ro[j];
    RwSlot &X = rw[k], &Y = rw[l];
    const bool can_edit = !A.bare || !w.schema();
    switch (s.weighted({12, 24, 8, 8, 6, 8, 8, 6, 6, 5, 6, 8, 6, 5, 5, 4})) {
    case 0: { // new modifiable
      const size_t items = s.below(12), bytes = s.below(160);
      const bool grow = s.chance(40);
      what = pbt::fmt("new rw%zu, %zu items, %zu bytes%s", k, items, bytes, grow ? ", growing" : "");
      ctx.log("%s", what.c_str());
      Fixed t(items, bytes, w.schema(), tag());
      put(X, std::move(t), grow);
      X.raw = false;
      X.m = w.initial;
      break;
    }
    case 1: {
      if (!X.full || X.raw)
        return;
      what = pbt::fmt("edit rw%zu", k);
      ctx.log("%s", what.c_str());
      for (unsigned n = 1 + unsigned(s.below(4)); n; --n)
        if (X.g)
          edit(*X.g, X.m);
        else
          edit(*X.f, X.m);
      break;
    }
    case 2: { // clone to read-only
      if (!X.full)
        return;
      const auto g = tag();
      const unsigned way = unsigned(s.below(5));
      what = pbt::fmt("ro%zu = clone of rw%zu, way %u", i, k, way);
      ctx.log("%s", what.c_str());
      Ro t;
      if (way == 0)
        t = X.any().take_managed_clone_asis(false, g);
      else if (way == 1) {
        t = X.any().take_managed_clone_optimized(false, g).first;
      } else if (way == 2) {
        t = X.any().take_managed_clone(s.chance(50), false, g).first;
      } else if (way == 3)
        t = Ro::clone(X.any(), g);
      else
        t = Ro::clone(X.any().take_weak_asis(), w.schema() && !X.raw ? w.schema() : nullptr, g);
      if (X.raw) {
        auto weak = X.any().take_weak_asis();
        X.bytes = bytes_of(weak.data(), weak.size());
      }
      A.h = std::move(t);
      PBT_CHECK(!t, "%s: moved-from handle is not empty", what.c_str());
      filled(A, X);
      break;
    }
    case 3: { // move to read-only
      if (!X.full)
        return;
      const unsigned way = unsigned(s.below(4));
      what = pbt::fmt("ro%zu = move of rw%zu, way %u", i, k, way);
      ctx.log("%s", what.c_str());
      if (way == 0)
        A.h = X.any().move_to_ro(true);
      else if (way == 1) {
        A.h = X.any().move_to_ro();
        if (X.raw)
          X.bytes = bytes_of(A.h.data(), A.h.size());
      } else if (way == 2)
        A.h = std::move(X.any());
      else {
        Ro t(std::move(X.any()));
        A.h.swap(t);
      }
      filled(A, X);
      moved_out(X);
      break;
    }
    case 4: { // read-only to modifiable by moving
      if (!can_edit)
        return;
      const unsigned way = unsigned(s.below(3));
      what = pbt::fmt("rw%zu = move of ro%zu, way %u", k, i, way);
      ctx.log("%s", what.c_str());
      const bool grow = s.chance(50);
      if (!A.full) {
        bool threw = false;
        try {
          Fixed t(std::move(A.h));
        } catch (const fptu::tuple_hollow &) {
          threw = true;
        }
        PBT_CHECK(threw, "%s: a tuple is made of nothing", what.c_str());
        return;
      }
      if (way == 0 && X.f)
        *X.f = std::move(A.h);
      else if (way == 1 && X.g)
        *X.g = std::move(A.h);
      else {
        Fixed t(std::move(A.h));
        put(X, std::move(t), grow);
      }
      X.full = true;
      X.raw = A.raw;
      X.m = A.m;
      X.bytes = A.bytes;
      PBT_CHECK(!A.h, "%s: moved-from handle is not empty", what.c_str());
      A.full = false;
      ++moves;
      break;
    }
    case 5: { // read-only to modifiable by cloning
      if (!can_edit || !A.full || A.raw)
        return;
      const size_t items = s.below(5), bytes = s.below(60);
      const unsigned way = unsigned(s.below(5));
      what = pbt::fmt("rw%zu = clone of ro%zu, way %u", k, i, way);
      ctx.log("%s", what.c_str());
      const bool grow = s.chance(50);
      const auto g = tag();
      if (way == 0)
        put(X, Fixed::clone(A.h, items, bytes, w.schema(), g), grow);
      else if (way == 1)
        put(X, Fixed::clone(A.h.take_weak(), items, bytes, w.schema(), g), grow);
      else if (way == 3) { // through a modifiable tuple that has no schema
        if (w.schema() && w.sd.preplaced_bytes)
          return;
        const Fixed bare = Fixed::clone(A.h.take_weak(), items, bytes, nullptr, g);
        PBT_CHECK(!bare.schema(), "%s: has got a schema", what.c_str());
        put(X, Fixed::clone(bare.take_managed_clone_asis(false, g), items, bytes, w.schema(), g), grow);
      } else if (way == 4) { // with another schema: either refused, or the content fits
        const bool fits = !A.h.validate(other.get());
        bool done = false;
        try {
          Ro src = A.h;
          if (!(w.schema() && w.sd.preplaced_bytes) && s.chance(50))
            src = Fixed::clone(A.h.take_weak(), items, bytes, nullptr, g).take_managed_clone_asis(false, g);
          Fixed t = Fixed::clone(src, items, bytes, other.get(), g);
          done = true;
          PBT_CHECK(t.schema() == other.get(), "%s: has no schema of its own", what.c_str());
        } catch (const fptu::bad_tuple_ro &) {
          PBT_CHECK(!done && !fits, "%s: valid content is refused", what.c_str());
          return;
        }
        PBT_CHECK(fits, "%s: accepted with a schema it does not fit", what.c_str());
        return;
      } else
        put(X, Grow::clone(A.h, fptu::initiation_scale::tiny, w.schema(), g), grow);
      X.raw = false;
      X.m = A.m;
      break;
    }
    case 6: { // copy
      what = pbt::fmt("ro%zu = ro%zu", j, i);
      ctx.log("%s", what.c_str());
      if (s.chance(50)) {
        B.h = A.h;
      } else {
        Ro t(A.h);
        B.h = std::move(t);
      }
      assigned(B, A);
      ++shares;
      break;
    }
    case 7: { // move
      if (i == j)
        return;
      what = pbt::fmt("ro%zu = move of ro%zu", j, i);
      ctx.log("%s", what.c_str());
      if (s.chance(50)) {
        B.h = std::move(A.h);
      } else {
        Ro t(std::move(A.h));
        B.h = std::move(t);
      }
      assigned(B, A);
      A.full = false;
      ++moves;
      break;
    }
    case 8: {
      what = pbt::fmt("swap ro%zu and ro%zu", i, j);
      ctx.log("%s", what.c_str());
      A.h.swap(B.h);
      if (i != j) {
        std::swap(A.full, B.full);
        std::swap(A.raw, B.raw);
        std::swap(A.bare, B.bare);
        std::swap(A.m, B.m);
        std::swap(A.bytes, B.bytes);
      }
      break;
    }
    case 9: {
      what = pbt::fmt("purge ro%zu", i);
      ctx.log("%s", what.c_str());
      A.h.purge();
      A.full = false;
      break;
    }
    case 10: { // clone of read-only
      const bool schema = w.schema() && !A.raw && s.chance(70);
      const auto g = tag();
      what = pbt::fmt("ro%zu = clone of ro%zu%s", j, i, schema ? " with schema" : "");
      ctx.log("%s", what.c_str());
      if (!A.full) {
        if (schema) {
          bool threw = false;
          try {
            B.h = Ro::clone(A.h, w.schema(), g);
          } catch (const fptu::tuple_hollow &) {
            threw = true;
          }
          PBT_CHECK(threw, "%s: nothing is cloned with a schema", what.c_str());
        } else {
          B.h = Ro::clone(A.h, nullptr, g);
          B.full = false;
        }
        break;
      }
      const bool weak = s.chance(30);
      Ro t;
      if (s.chance(25)) { // either refused, or the content fits
        const bool fits = !A.h.validate(other.get());
        ctx.log("  with another schema");
        try {
          t = weak ? Ro::clone(A.h.take_weak(), other.get(), g) : Ro::clone(A.h, other.get(), g);
        } catch (const fptu::bad_tuple_ro &) {
          PBT_CHECK(!fits, "%s: valid content is refused", what.c_str());
          return;
        }
        PBT_CHECK(fits, "%s: accepted with a schema it does not fit", what.c_str());
        return;
      }
      try {
        t = weak ? Ro::clone(A.h.take_weak(), schema ? w.schema() : nullptr, g) : Ro::clone(A.h, schema ? w.schema() : nullptr, g);
      } catch (const fptu::bad_tuple_ro &) {
        // a copy of pre-placed fields may require the schema
        PBT_CHECK(!schema && !A.raw && w.schema() && w.sd.preplaced_bytes, "%s: refused", what.c_str());
        ctx.label("clone without schema refused");
        return;
      }
      const bool same = t.get_buffer() == A.h.get_buffer();
      PBT_CHECK(bytes_of(t.data(), t.size()) == A.bytes, "%s: other content", what.c_str());
      const bool bare = A.raw ? A.bare : same ? A.bare : !schema;
      B.h = std::move(t);
      assigned(B, A);
      B.bare = bare;
      break;
    }
    case 11: { // a nested tuple as a handle of its own
      const bool of_rw = s.chance(35);
      if (of_rw ? !X.full || X.raw : !A.full || A.raw)
        return;
      const std::vector<Cell> &m = of_rw ? X.m : A.m;
      std::vector<size_t> c;
      for (size_t n = 0; n < w.flds.size(); ++n)
        if (w.flds[n].g == fptu::nested && !w.flds[n].collection)
          c.push_back(n);
      if (c.empty())
        return;
      const size_t n = s.pick(c);
      const Fld &f = w.flds[n];
      what = pbt::fmt("ro%zu = nested %s of %s%zu", j, show(f).c_str(), of_rw ? "rw" : "ro", of_rw ? k : i);
      ctx.log("%s", what.c_str());
      const Val v = m[n].v ? *m[n].v : Val();
      Ro t;
      try {
        if (of_rw)
          t = X.any().get_nested_managed(f.tok);
        else if (s.chance(50))
          t = A.h.get_nested_managed(f.tok);
        else {
          const fptu::tuple_ro_weak weak = A.h.get_nested_weak(f.tok);
          if (B.full && B.h.get_buffer() != A.h.get_buffer() && weak) {
            // of another buffer: refused, the handle would outlive the content
            bool threw = false;
            try {
              Ro wrong(weak, B.h);
            } catch (const std::logic_error &) {
              threw = true;
            }
            PBT_CHECK(threw, "%s: a handle to the content of another buffer is made", what.c_str());
          }
          t = Ro(weak, A.h);
        }
      } catch (const fptu::field_absent &) {
        PBT_CHECK(f.discernible && !m[n].v, "%s: said to be absent", what.c_str());
        return;
      }
      PBT_CHECK(bool(t) == !v.empty(), "%s: %s", what.c_str(), t ? "not empty" : "empty");
      B.h = std::move(t);
      B.full = !v.empty();
      B.raw = true;
      B.bare = false;
      B.bytes = v;
      B.m.clear();
      ++shares;
      ctx.label("nested");
      break;
    }
    case 12: { // modifiable: move, swap
      if (k == l || !X.full)
        return;
      const unsigned way = unsigned(s.below(2));
      what = pbt::fmt("%s rw%zu and rw%zu", way ? "swap" : "move", l, k);
      ctx.log("%s", what.c_str());
      if (way && Y.full) {
        X.any().swap(Y.any());
        std::swap(X.raw, Y.raw);
        std::swap(X.m, Y.m);
        std::swap(X.bytes, Y.bytes);
        return;
      }
      if (Y.f)
        *Y.f = std::move(X.any());
      else if (Y.g)
        *Y.g = std::move(X.any());
      else
        Y.f.reset(new Fixed(std::move(X.any())));
      Y.full = true;
      Y.raw = X.raw;
      Y.m = X.m;
      Y.bytes = X.bytes;
      moved_out(X);
      break;
    }
    case 13: {
      what = pbt::fmt("%s rw%zu", s.chance(50) ? "purge" : "destroy", k);
      ctx.log("%s", what.c_str());
      if (!X.f && !X.g)
        return;
      if (what[0] == 'p')
        X.any().purge();
      else {
        X.f.reset();
        X.g.reset();
      }
      X.full = false;
      break;
    }
    case 14: { // clone of modifiable
      if (!X.full || k == l)
        return;
      const auto g = tag();
      const unsigned way = unsigned(s.below(3));
      what = pbt::fmt("rw%zu = clone of rw%zu, way %u", l, k, way);
      ctx.log("%s", what.c_str());
      const bool grow = s.chance(50);
      if (way == 0)
        put(Y, Fixed::clone(X.any(), g), grow);
      else if (way == 1)
        put(Y, Fixed::clone(X.any(), s.below(4), s.below(50), g), grow);
      else
        put(Y, Grow::clone(X.any(), fptu::initiation_scale::tiny, g), grow);
      Y.raw = X.raw;
      Y.m = X.m;
      Y.bytes = X.bytes;
      break;
    }
    case 15: { // from bytes
      if (!A.full || A.raw)
        return;
      what = pbt::fmt("ro%zu from the bytes of ro%zu", j, i);
      ctx.log("%s", what.c_str());
      Ro t(A.h.data(), A.h.size(), w.schema(), tag());
      B.h = std::move(t);
      assigned(B, A);
      B.bare = false;
      break;
    }
    }
  }

  // a buffer notices writing beside it
  void damage() {
    hippeus::buffer *hb = hippeus::buffer::borrow(a[0].tag(), 1 + s.below(100), true);
    PBT_CHECK(hb->check() && hb->check(true) && hb->check_expect_invalid(), "a new buffer is said to be damaged");
    // just after the data, or just before the header's end
    uint8_t *const at = s.chance(50) ? hb->end() + s.below(4) : reinterpret_cast<uint8_t *>(&hb->guard_under) + s.below(4);
    const uint8_t was = *at, delta = uint8_t(1 + s.below(255));
    bool seen = false;
    for (unsigned i = 0; i < 3 && !seen; ++i) { // a 32-bit check may miss by accident
      *at = uint8_t(was ^ uint8_t(delta + i));
      if (*at != was)
        seen = !hb->check() && !hb->check_expect_invalid();
    }
    *at = was;
    PBT_CHECK(seen, "damage of a buffer is not noticed");
    PBT_CHECK(hb->check(), "a restored buffer is said to be damaged");
    hb->detach();
    PBT_CHECK(a[0].live.empty(), "the buffer is not released");
  }

  void run() {
    const unsigned n = 8 + unsigned(s.below(40));
    // something to start with
    for (size_t k = 0; k < 2; ++k) {
      Fixed t(s.below(10), s.below(120), w.schema(), tag());
      put(rw[k], std::move(t), s.chance(50));
      rw[k].m = w.initial;
      for (unsigned e = unsigned(s.below(5)); e; --e)
        if (rw[k].g)
          edit(*rw[k].g, rw[k].m);
        else
          edit(*rw[k].f, rw[k].m);
    }
    for (; steps < n && !s.exhausted(); ++steps) {
      const bool fault = s.chance(8);
      Allot::countdown = fault ? 1 + int(s.below(2)) : 0;
      Allot::failed = false;
      what = "nothing";
      try {
        step();
      } catch (const std::bad_alloc &) {
        PBT_CHECK(Allot::failed, "%s: out of memory", what.c_str());
        what += " (failed allocation)";
        ctx.log("  allocation fails");
        ++faults;
      } catch (const std::exception &e) {
        pbt::fail("%s: %s", what.c_str(), e.what());
      }
      Allot::countdown = 0;
      check_all();
    }
    // destroy everything in random order
    std::vector<unsigned> order = {0, 1, 2, 3, 4, 5, 6};
    for (size_t i = 6; i; --i)
      std::swap(order[i], order[s.below(i + 1)]);
    for (unsigned x : order) {
      what = x < 4 ? pbt::fmt("destroying ro%u", x) : pbt::fmt("destroying rw%u", x - 4);
      if (x < 4) {
        Ro t(std::move(ro[x].h));
        ro[x].full = false;
      } else {
        rw[x - 4].f.reset();
        rw[x - 4].g.reset();
        rw[x - 4].full = false;
      }
      check_all();
    }
    damage();
    if (faults)
      ctx.label("failed allocation");
    if (shares)
      ctx.label("shared buffer");
    if (shares && moves >= 2)
      ctx.nontrivial();
  }
};

void handles(Src &s, Ctx &ctx) {
  Allot::countdown = 0;
  fptu::defaults::allot_tag = hippeus::default_allot_tag();
  nested_pool();
  // the pool outlives a failure: its handles are not destroyed then, since a
  // broken handle would crash
  Pool *p = new Pool(s, ctx);
  fptu::defaults::allot_tag = p->a[0].tag();
  p->run();
  fptu::defaults::allot_tag = hippeus::default_allot_tag();
  delete p;
}

// The ways to make a tuple that take the schema, the allocator and the size
// from fptu::defaults or from a scale.
struct DefaultsGuard {
  std::unique_ptr<fptu::schema> &home;
  explicit DefaultsGuard(std::unique_ptr<fptu::schema> &h) : home(h) {}
  ~DefaultsGuard() {
    home = std::move(fptu::defaults::schema);
    fptu::defaults::setup(fptu::tiny, nullptr, hippeus::default_allot_tag());
  }
};

template <typename RW> void defaults_case(Src &s, Ctx &ctx, Pool &p, unsigned way, fptu::initiation_scale given) {
  using fptu::initiation_scale;
  World &w = p.w;
  const fptu::schema *const D = fptu::defaults::schema.get();
  const bool has_pre = D && w.sd.preplaced_bytes;
  const fptu::defaults ditto;
  // the source, made with the same schema
  std::vector<Cell> m = w.initial;
  Fixed src(s.below(10), s.below(120), D, p.a[1].tag());
  for (unsigned e = unsigned(s.below(6)); e; --e)
    p.edit(src, m);
  const auto image = src.take_weak_asis();
  const Val bytes(static_cast<const char *>(image.data()), image.size());
  const fptu::tuple_ro_weak weak(bytes.data(), bytes.size(), D);
  fptu::details::audit_holes_info holes;
  const char *trouble = fptu::details::tuple_ro::audit(bytes.data(), bytes.size(), D, holes);
  PBT_CHECK(!trouble, "the image is invalid: %s", trouble);
  const Ro ro = src.take_managed_clone_asis(false, p.a[1].tag());
  Fixed src2 = Fixed::clone(src, p.a[1].tag());

  const initiation_scale dflt = fptu::defaults::scale;
  initiation_scale scale = dflt;
  const fptu::schema *want_schema = D;
  Allot *want_allot = &p.a[0]; // the default one
  bool fresh = false, same_room = false;
  std::unique_ptr<RW> t;
  switch (way) {
  case 0: t.reset(new RW(ditto)); fresh = true; break;
  case 1: t.reset(new RW(given)); scale = given; fresh = true; break;
  case 2: t.reset(new RW()); scale = initiation_scale::scale_default; fresh = true; break;
  case 3: t.reset(new RW(given, D)); scale = given; fresh = true; break;
  case 4: t.reset(new RW(given, nullptr, p.a[1].tag())); scale = given; fresh = true; want_schema = nullptr; want_allot = &p.a[1]; break;
  case 5: t.reset(new RW(holes, weak, ditto)); break;
  case 6: t.reset(new RW(holes, weak, given)); scale = given; break;
  case 7: t.reset(new RW(holes, weak, given, D, p.a[1].tag())); scale = given; want_allot = &p.a[1]; break;
  case 8: t.reset(new RW(bytes.data(), bytes.size(), ditto)); break;
  case 9: t.reset(new RW(bytes.data(), bytes.size(), given)); scale = given; break;
  case 10: t.reset(new RW(bytes.data(), bytes.size(), given, D)); scale = given; break;
  case 11: t.reset(new RW(RW::clone(weak, ditto))); break;
  case 12: t.reset(new RW(RW::clone(weak, given))); scale = given; break;
  case 13: t.reset(new RW(RW::clone(weak, given, D))); scale = given; break;
  case 14: t.reset(new RW(RW::clone(ro, ditto))); break;
  case 15: t.reset(new RW(RW::clone(ro, given))); scale = given; break;
  case 16: t.reset(new RW(RW::clone(ro, given, D))); scale = given; break;
  case 17: t.reset(new RW(RW::clone(src, given))); scale = given; break;
  case 18: t.reset(new RW(RW::clone(src))); same_room = true; break;
  case 19: { // of nothing
    const Ro nothing;
    t.reset(new RW(RW::clone(nothing, s.below(8), s.below(100), D)));
    fresh = same_room = true;
    break;
  }
  case 20: { // refused: nothing to clone
    Fixed moved(std::move(src2));
    unsigned threw = 0;
    try {
      RW x(RW::clone(src2));
    } catch (const fptu::tuple_hollow &) {
      ++threw;
    }
    try {
      RW x(RW::clone(src2, given));
    } catch (const fptu::tuple_hollow &) {
      ++threw;
    }
    try {
      RW x(RW::clone(src2, 3, 4));
    } catch (const fptu::tuple_hollow &) {
      ++threw;
    }
    PBT_CHECK(threw == 3, "%u of 3 clones of a moved-out tuple are refused", threw);
    return;
  }
  case 22: { // refused: more than a tuple may have
    const size_t items = fptu::max_fields, room = fptu::max_tuple_bytes_netto;
    const size_t over_items = items + 1 + (s.chance(50) ? s.below(5) : s.bits() % (size_t(1) << 40));
    const size_t over_room = room + 1 + (s.chance(50) ? s.below(5) : s.bits() % (size_t(1) << 40));
    const bool by_items = s.chance(50);
    const size_t ni = by_items ? over_items : s.below(items), nb = by_items ? s.below(1000) : over_room;
    for (unsigned kind = 0; kind < 5; ++kind) {
      bool threw = false;
      try {
        if (kind == 0)
          RW x(ni, nb, D);
        else if (kind == 1)
          RW x(bytes.data(), bytes.size(), ni, nb, D);
        else if (kind == 2)
          RW x(RW::clone(weak, ni, nb, D));
        else if (kind == 3)
          RW x(RW::clone(ro, ni, nb, D));
        else
          RW x(RW::clone(src, ni, nb));
      } catch (const std::exception &) {
        threw = true;
      }
      // the room may be limited by the maximum instead
      PBT_CHECK(threw || kind == 4, "%zu items and %zu bytes are taken, kind %u", ni, nb, kind);
    }
    return;
  }
  case 21: { // refused: the content does not fit the default schema
    bool threw = false;
    const Val cut = bytes.substr(0, bytes.size() - 1 - s.below(bytes.size()));
    try {
      RW x(cut.data(), cut.size(), ditto);
      // nothing at all is a valid empty tuple, unless there are pre-placed fields
      PBT_CHECK(cut.empty(), "a cut image is taken");
      return;
    } catch (const fptu::bad_tuple_ro &) {
      threw = true;
    }
    PBT_CHECK(threw, "a cut image is taken");
    return;
  }
  }
  const char *const where = "made by default";
  PBT_CHECK(bool(*t), "%s: empty handle", where);
  PBT_CHECK(t->schema() == want_schema, "%s: the schema is %s", where, t->schema() ? "another one" : "lost");
  PBT_CHECK(want_allot->live.count(t->get_buffer()), "%s: another allocator is used", where);
  const char *bug = t->validate();
  PBT_CHECK(!bug, "%s: invalid: %s", where, bug);
  const bool plain = want_schema != D && has_pre;
  std::vector<Cell> mt = fresh ? w.initial : m;
  if (!plain)
    check_reads(*t, w, mt, where);
  if (fresh && !plain)
    for (size_t i = 0; i < mt.size(); ++i)
      PBT_CHECK(w.flds[i].preplaced || (!mt[i].v && mt[i].coll.empty()), "model");
  // the room promised by the scale: about 1K and 32 fields, then four times more each
  if (!same_room) {
    const size_t fields = std::min<size_t>(size_t(32) << 2 * unsigned(scale), fptu::max_fields);
    const size_t data = (size_t(fptu::max_tuple_bytes_netto) >> (8 - 2 * unsigned(scale)));
    const size_t have = fresh ? 0 : t->index_size();
    PBT_CHECK(t->head_space() + have >= fields - (fields >> 4), "%s: room for %zu fields, %zu are promised", where,
              t->head_space(), fields);
    // data and index come out of the same total at the largest scale
    const size_t pre = D ? w.sd.preplaced_bytes : 0;
    const size_t least = data - data / 4 > pre + 64 ? data - data / 4 - pre - 64 : 0;
    PBT_CHECK(t->tail_space_bytes() + (fresh ? 0 : bytes.size()) >= least, "%s: room for %zu bytes, about %zu are promised",
              where, t->tail_space_bytes(), data);
    if (fresh)
      PBT_CHECK(t->get_buffer()->size() >= fptu::estimate_space_for_tuple(scale, want_schema),
                "%s: the buffer is smaller than estimated", where);
  }
  PBT_CHECK(fptu::defaults::estimate_space_for_tuple() == fptu::estimate_space_for_tuple(dflt, D), "estimate by default");
  if (!plain) {
    for (unsigned e = 1 + unsigned(s.below(6)); e; --e)
      p.edit(*t, mt);
    check_reads(*t, w, mt, "edited");
    bug = t->validate();
    PBT_CHECK(!bug, "edited: invalid: %s", bug);
    // a reader that is not told the schema uses the default one
    const auto view = t->take_weak_asis();
    check_bytes(view.data(), view.size(), w, mt, "edited");
    if (want_schema == D) {
      auto a = view.cbegin(), b = view.cbegin(D);
      size_t n = 0, holes_seen = 0;
      for (; b != view.cend(D); ++a, ++b, ++n) {
        holes_seen += (*b).type() == fptu::hole; // deleted slots
        PBT_CHECK(a != view.cend(), "iteration by default stops after %zu fields", n);
        PBT_CHECK((*a).token() == (*b).token(), "iteration by default visits another field");
      }
      PBT_CHECK(a == view.cend(), "iteration by default goes on after %zu fields", n);
      // and back
      size_t back = n;
      for (auto c = view.cend(), d = view.cend(D); d != view.cbegin(D); --back) {
        PBT_CHECK(c != view.cbegin(), "backward iteration by default stops %zu fields before the first", back);
        --c, --d;
        PBT_CHECK((*c).token() == (*d).token(), "backward iteration by default visits another field");
      }
      PBT_CHECK(back == 0, "backward iteration misses %zu fields", back);
      size_t present = 0;
      for (size_t i = 0; i < mt.size(); ++i)
        present += w.flds[i].collection ? mt[i].coll.size() : size_t(mt[i].v.has_value());
      PBT_CHECK(n - holes_seen == present, "iteration by default visits %zu fields of %zu", n - holes_seen, present);
    }
  }
  // the source is as it was
  const auto again = src.take_weak_asis();
  PBT_CHECK(Pool::bytes_of(again.data(), again.size()) == bytes, "the source has changed");
  check_reads(ro, w, m, "the source");
}

// The same edits of tuples in differently filled memory give the same bytes.
template <typename T> void twins_of(Src &s, Ctx &ctx, Pool &p) {
  World &w = p.w;
  p.a[0].fill = 0;
  p.a[1].fill = s.chance(70) ? 255 : int(1 + s.below(254));
  const size_t items = s.below(12), bytes = s.below(300);
  std::unique_ptr<T> t[2];
  for (int k = 0; k < 2; ++k)
    t[k].reset(new T(items, bytes, w.schema(), p.a[k].tag()));
  auto same = [&](const char *what) {
    fptu::tuple_ro_weak v[2];
    Ro c[2];
    const unsigned way = unsigned(s.below(5));
    for (int k = 0; k < 2; ++k) {
      if (way == 3)
        v[k] = t[k]->take_weak_asis();
      else if (way == 4) {
        c[k] = t[k]->take_managed_clone_asis(false, p.a[k].tag());
        v[k] = c[k].take_weak();
      } else if (way == 0)
        v[k] = t[k]->take_weak_optimized().first;
      else {
        c[k] = way == 1 ? t[k]->take_managed_clone_optimized(false, p.a[k].tag()).first
                        : Fixed::clone(*t[k], 2, 10).take_managed_clone_optimized(false, p.a[k].tag()).first;
        v[k] = c[k].take_weak();
      }
    }
    PBT_CHECK(v[0].size() == v[1].size(), "%s: sizes of the same tuple are %zu and %zu", what, v[0].size(), v[1].size());
    const uint8_t *x = static_cast<const uint8_t *>(v[0].data()), *y = static_cast<const uint8_t *>(v[1].data());
    for (size_t i = 0; i < v[0].size(); ++i)
      PBT_CHECK(x[i] == y[i], "%s: byte %zu of %zu of the same tuple is 0x%02x and 0x%02x", what, i, v[0].size(), x[i], y[i]);
  };
  unsigned done = 0;
  for (unsigned n = 1 + unsigned(s.below(14)); n; --n) {
    const Fld &f = s.pick(w.flds);
    GenOpt o;
    o.max_len = s.chance(10) ? 700 : 40;
    const unsigned op = unsigned(s.weighted({20, 70, 8, 3}));
    const Val v = op == 1 ? gen_value(s, f.g, o) : Val();
    if (op == 3) {
      ctx.log("reset");
      for (auto &x : t)
        x->reset();
      same("reset");
      continue;
    }
    if (op == 2) {
      ctx.log("optimize");
      for (auto &x : t)
        x->optimize();
      continue;
    }
    ctx.log("%s %s %s", op ? f.collection ? "insert" : "set" : "erase", show(f).c_str(), show(v).c_str());
    bool ok[2];
    for (int k = 0; k < 2; ++k) {
      ok[k] = true;
      try {
        if (!op)
          t[k]->erase(f.tok);
        else if (f.collection)
          insert_value(*t[k], f.tok, f.g, v);
        else
          set_value(*t[k], f.tok, f.g, v);
      } catch (const fptu::insufficient_space &) {
        ok[k] = false;
      } catch (const fptu::tuple_overflow &) {
        ok[k] = false;
      } catch (const fptu::value_is_denil &) {
        ok[k] = false;
      }
    }
    PBT_CHECK(ok[0] == ok[1], "the same edit is accepted once and refused once");
    done += ok[0];
    if (s.chance(25))
      same("in between");
  }
  same("at last");
  if (done > 1)
    ctx.nontrivial();
}
void twins(Src &s, Ctx &ctx) {
  Allot::countdown = 0;
  nested_pool();
  Pool p(s, ctx);
  if (s.chance(50))
    twins_of<Fixed>(s, ctx, p);
  else
    twins_of<Grow>(s, ctx, p);
}

void by_default(Src &s, Ctx &ctx) {
  Allot::countdown = 0;
  nested_pool();
  Pool *p = new Pool(s, ctx);
  {
    DefaultsGuard guard(p->w.sch);
    const auto pick_scale = [&] {
      return fptu::initiation_scale(s.weighted({30, 20, 15, 6, 4}));
    };
    const auto dflt = pick_scale(), given = pick_scale();
    if (s.chance(5)) { // no allocator: the one of the library
      fptu::defaults::setup(dflt, std::move(p->w.sch), hippeus::buffer_tag());
      PBT_CHECK(fptu::defaults::allot_tag == hippeus::default_allot_tag(), "setup() without an allocator leaves none");
      p->w.sch = std::move(fptu::defaults::schema);
    }
    const fptu::schema *const D = p->w.schema();
    fptu::defaults::setup(dflt, std::move(p->w.sch), p->a[0].tag());
    PBT_CHECK(fptu::defaults::schema.get() == D && fptu::defaults::scale == dflt && fptu::defaults::allot_tag == p->a[0].tag(),
              "setup() does not set what it is given");
    const unsigned way = unsigned(s.below(23));
    const bool grow = s.chance(50);
    ctx.log("way %u, %s, default scale %d, given %d", way, grow ? "growing" : "fixed", int(dflt), int(given));
    try {
      if (grow)
        defaults_case<Grow>(s, ctx, *p, way, given);
      else
        defaults_case<Fixed>(s, ctx, *p, way, given);
    } catch (const std::exception &e) {
      pbt::fail("way %u: %s", way, e.what());
    }
    for (auto &x : p->a) {
      PBT_CHECK(!x.wrong, "%s", x.wrong);
      PBT_CHECK(x.live.empty(), "%zu buffers are not released", x.live.size());
    }
    ctx.label(pbt::fmt("way %u", way).c_str());
    if (D)
      ctx.nontrivial();
  }
  delete p;
}

// Handles of one buffer are used by several threads at once.
void threads(Src &s, Ctx &ctx) {
  struct Counting : hippeus_allot_t {
    std::atomic<long> live{0}, total{0};
    static hippeus_buffer_t *do_borrow(hippeus_allot_t *self, std::size_t n, bool leastwise, hippeus_actor_t actor) {
      Counting *a = static_cast<Counting *>(self);
      hippeus_buffer_t *b = hippeus_allot_stdcxx.borrow(&hippeus_allot_stdcxx, n, leastwise, actor);
      b->host = hippeus::buffer_tag(self, false);
      ++a->live;
      ++a->total;
      return b;
    }
    static void do_repay(hippeus_allot_t *self, hippeus_buffer_t *b, hippeus_actor_t actor) {
      --static_cast<Counting *>(self)->live;
      hippeus_allot_stdcxx.repay(&hippeus_allot_stdcxx, b, actor);
    }
    static bool do_validate(const hippeus_allot_t *, bool, bool) { return true; }
  };
  static Counting allot; // outlives everything
  allot.default_chunk = 4096;
  allot.flags = 0;
  allot.borrow = Counting::do_borrow;
  allot.repay = Counting::do_repay;
  allot.validate_ = Counting::do_validate;
  const hippeus::buffer_tag tag(&allot, false);
  const long before = allot.live;

  const token num(fptu::u64, 1, false, true), txt(fptu::text, 2, false, true);
  const uint64_t value = s.bits();
  Fixed t(8, 200, nullptr, tag);
  t.set_u64(num, value);
  t.set_string(txt, std::string(s.below(40), 'x'));
  Ro first(std::move(t));
  const Val bytes(static_cast<const char *>(first.data()), first.size());
  const unsigned n = 2 + unsigned(s.below(3)), rounds = 50 + unsigned(s.below(400));
  std::vector<uint64_t> seeds;
  for (unsigned i = 0; i < n; ++i)
    seeds.push_back(s.bits());
  ctx.log("%u threads, %u rounds", n, rounds);
  std::atomic<int> go{0}, bad{0};
  std::vector<std::thread> pool;
  for (unsigned i = 0; i < n; ++i) {
    Ro mine(first);
    pool.emplace_back([&, i, mine = std::move(mine)]() mutable {
      uint64_t x = seeds[i] | 1;
      ++go;
      while (go < int(n))
        ;
      try {
        for (unsigned k = 0; k < rounds; ++k) {
          x = x * 6364136223846793005ull + 1442695040888963407ull;
          switch (x >> 61) {
          case 0: {
            Ro a(mine), b;
            b = a;
            a.swap(b);
            break;
          }
          case 1: { // to modifiable form: others are not affected
            Fixed rw(Ro(std::move(Ro(mine))));
            rw.set_u64(num, x);
            if (rw.get_u64(num) != x)
              ++bad;
            break;
          }
          case 2: {
            Ro a = Ro::clone(mine, nullptr, tag);
            if (a.get_u64(num) != value)
              ++bad;
            break;
          }
          default: {
            Ro a(mine);
            Ro b(std::move(a));
            if (b.get_u64(num) != value)
              ++bad;
            mine = std::move(b);
          }
          }
        }
        if (Val(static_cast<const char *>(mine.data()), mine.size()) != bytes)
          ++bad;
      } catch (...) {
        ++bad;
      }
      mine.purge();
    });
  }
  first.purge();
  for (auto &p : pool)
    p.join();
  PBT_CHECK(!bad, "the content seen by a thread has changed");
  PBT_CHECK(allot.live == before, "%ld buffers are allocated, none is in use", allot.live - before);
  ctx.nontrivial();
}

} // namespace

int main(int argc, char **argv) {
  return pbt::driver(argc, argv,
                     {{"handles", "a buffer was shared and at least two handles were moved", handles},
                      {"by_default", "there is a default schema", by_default},
                      {"twins", "at least two edits were accepted", twins},
                      {"threads", "always", threads}});
}
