#include "h_token.h"
using namespace tk;
namespace {
const std::vector<Entry> &entries() {
  static const std::vector<Entry> v = [] {
    Entries v;
    entries_s1(v), entries_s2(v), entries_n1(v), entries_n2(v);
    entries_l1(v), entries_l2(v), entries_c1(v), entries_c2(v);
    return v;
  }();
  return v;
}

std::unique_ptr<fptu::schema> make_schema() {
  auto s = fptu::schema::create();
  for (auto &e : entries())
    s->import_definition(std::string(e.f.name), e.f.tok);
  // bool and enum members of the structure
  s->import_definition("s_bool", token(FPTU_TOKEN(Rec, f_bool)()));
  s->import_definition("s_enum", token(FPTU_TOKEN(Rec, f_enum)()));
  return s;
}
const fptu::schema *the_schema() {
  static const std::unique_ptr<fptu::schema> s = make_schema();
  return s.get();
}

template <typename T> Val bytes_of(const T &t) {
  const Weak w = t.take_weak_asis();
  return Val(static_cast<const char *>(w.data()), w.size());
}

// the structure laid over the pre-placed area of a tuple
template <typename T> const Rec *overlay(const T &t) {
  using Tok = FPTU_TOKEN(Rec, f_bin128);
  return reinterpret_cast<const Rec *>(reinterpret_cast<const char *>(&t.get_bin128(Tok())) - Tok::static_offset);
}

template <typename T> void check_overlay(const T &t) {
  const Rec *r = overlay(t);
#define F(NAME, GET)                                                           \
  {                                                                            \
    const auto a = t.GET(FPTU_TOKEN(Rec, NAME)());                             \
    PBT_CHECK(memcmp(&a, &r->NAME, sizeof(a)) == 0, "the member " #NAME " of the structure differs from the field"); \
  }
  F(f_u8, get_u8) F(f_i8, get_i8) F(f_u16, get_u16) F(f_i16, get_i16) F(f_u32, get_u32) F(f_i32, get_i32)
  F(f_f32, get_f32) F(f_u64, get_u64) F(f_i64, get_i64) F(f_f64, get_f64) F(f_t64, get_datetime)
  F(f_bin96, get_bin96) F(f_bin512, get_bin512) F(f_bool, get_bool) F(f_enum, get_enum)
#undef F
  auto str = [&](const auto &m, const Val &expect, const char *what, auto &&conv) {
    PBT_CHECK(conv(m.value_nothrow()) == expect, "value_nothrow() of the member %s differs from the field", what);
    const Val o = outcome([&] { return conv(m.value()); });
    PBT_CHECK(o == "=" + expect || (m.nil() && o[0] == '!'), "value() of the member %s differs from the field", what);
    PBT_CHECK(!m.nil() || is_natural_empty(fptu::text, expect) || what[0] == 'p' || expect.empty(), "nil member %s with a value", what);
  };
  str(r->f_text, val_of(t.get_string(FPTU_TOKEN(Rec, f_text)())), "text", [](const string_view &x) { return val_of(x); });
  str(r->f_varbin, val_of(t.get_varbinary(FPTU_TOKEN(Rec, f_varbin)())), "varbin", [](const string_view &x) { return val_of(x); });
  str(r->f_property, val_of_property(t.get_property(FPTU_TOKEN(Rec, f_property)())), "property",
      [](const fptu::property_pair &x) { return val_of_property(x); });
}

template <typename T, typename FW, typename FD, typename FR, typename FDR>
void history(Src &s, Ctx &ctx, T &a, T &b, FW fw, FD fd, FR fr, FDR fdr) {
  const auto &es = entries();
  auto everything = [&](const T &t) {
    std::vector<Val> all;
    for (auto &e : es)
      all.push_back(fdr(e, t, e.f.collection ? W_coll : W_get, 0));
    return all;
  };
  std::vector<size_t> some;
  const size_t n = 2 + s.below(8);
  for (size_t i = 0; i < n; ++i)
    some.push_back(s.below(es.size()));
  size_t writes = 0, refused = 0;
  const size_t steps = 1 + s.below(24);
  for (size_t i = 0; i < steps && !s.exhausted(); ++i) {
    const Entry &e = es[s.pick(some)];
    static const What menu[] = {W_set, W_aset, W_erase, W_aempty, W_foreign_set};
    const What w = menu[s.weighted({40, 20, 15, 5, 12})];
    const unsigned k = unsigned(s.below(16));
    Val v = gen_value(s, e.f.g);
    const std::vector<Val> before = everything(a);
    if (e.f.collection && s.chance(60)) {
      // insertion takes run-time tokens only; both do the same
      auto ins = [&](T &t) { return outcome([&] { insert_value(t, e.f.tok, e.f.g, v); return Val(); }); };
      const Val ra = ins(a), rb = ins(b);
      ctx.log("insert %s %s -> %s", e.f.name.c_str(), show(v).c_str(), ra.c_str());
      PBT_CHECK(ra == rb, "harness: the same insertion gave two outcomes");
    } else {
      const Val ra = fw(e, a, w, k, v), rb = fd(e, b, w, k, v);
      ctx.log("op %d(%u) %s %s -> %s / %s", int(w), k, e.f.name.c_str(), show(v).c_str(), ra.c_str(), rb.c_str());
      PBT_CHECK(ra == rb, "operation %d(%u) on %s: by the static token '%s', by the run-time token '%s'", int(w), k,
                e.f.name.c_str(), ra.c_str(), rb.c_str());
      if (ra[0] == '!')
        ++refused;
      else
        ++writes;
    }
    PBT_CHECK(bytes_of(a) == bytes_of(b), "the tuples differ after the operation %d(%u) on %s", int(w), k, e.f.name.c_str());
    const std::vector<Val> after = everything(a);
    for (size_t j = 0; j < es.size(); ++j)
      PBT_CHECK(&es[j] == &e || before[j] == after[j], "the operation %d(%u) on %s changes %s from %s to %s", int(w), k,
                e.f.name.c_str(), es[j].f.name.c_str(), show(before[j]).c_str(), show(after[j]).c_str());
    const Entry &r = es[s.chance(70) ? s.pick(some) : s.below(es.size())];
    for (What q : {W_get, W_aget, W_present, W_exist, W_kind, W_coll, W_foreign_get}) {
      const unsigned kk = unsigned(s.below(16));
      const Val ra = fr(r, a, q, kk), rb = fdr(r, a, q, kk);
      PBT_CHECK(ra == rb, "reading %d(%u) of %s: by the static token '%s', by the run-time token '%s'", int(q), kk,
                r.f.name.c_str(), show(ra).c_str(), show(rb).c_str());
      if (q == W_present && !r.f.collection) {
        const Val g = fr(r, a, W_get, 0);
        PBT_CHECK(!(ra == "=n" && r.f.discernible) || g[0] == '!', "absent field %s reads a value", r.f.name.c_str());
        PBT_CHECK(!(ra == "=y") || g[0] == '=', "present field %s does not read", r.f.name.c_str());
      }
    }
  }
  check_overlay(a);
  const Weak w = a.take_weak_asis();
  const RoM m = RoM::clone(w, the_schema());
  check_overlay(w);
  for (size_t i : some) {
    const Entry &e = es[i];
    for (What q : {W_get, W_aget, W_present, W_exist, W_kind, W_coll, W_foreign_get}) {
      const unsigned kk = unsigned(s.below(16));
      const Val ra = fr(e, a, q, kk);
      const Val ws = e.weak_r(w, q, kk), wd = e.weak_dr(w, e.f.tok, q, kk), ms = e.rom_r(m, q, kk), md = e.rom_dr(m, e.f.tok, q, kk);
      PBT_CHECK(ra == ws && ra == wd && ra == ms && ra == md,
                "reading %d(%u) of %s: modifiable '%s', serialised '%s' '%s', managed '%s' '%s'", int(q), kk, e.f.name.c_str(),
                show(ra).c_str(), show(ws).c_str(), show(wd).c_str(), show(ms).c_str(), show(md).c_str());
    }
  }
  if (writes >= 2 && refused <= writes * 4)
    ctx.nontrivial();
  if (refused)
    ctx.label("refusals");
}

void static_tokens(Src &s, Ctx &ctx) {
  if (s.chance(60)) {
    ctx.label("fixed");
    const size_t items = s.below(12), bytes = s.chance(70) ? 2000 + s.below(4000) : s.below(400);
    Fixed a(items, bytes, the_schema()), b(items, bytes, the_schema());
    history(s, ctx, a, b,
            [](const Entry &e, Fixed &t, What w, unsigned k, const Val &v) { return e.fixed_w(t, w, k, v); },
            [](const Entry &e, Fixed &t, What w, unsigned k, const Val &v) { return e.fixed_d(t, e.f.tok, w, k, v); },
            [](const Entry &e, const Fixed &t, What w, unsigned k) { return e.fixed_r(t, w, k); },
            [](const Entry &e, const Fixed &t, What w, unsigned k) { return e.fixed_dr(t, e.f.tok, w, k); });
  } else {
    ctx.label("growing");
    const size_t items = s.below(8), bytes = s.below(60);
    Grow a(items, bytes, the_schema()), b(items, bytes, the_schema());
    history(s, ctx, a, b,
            [](const Entry &e, Grow &t, What w, unsigned k, const Val &v) { return e.grow_w(t, w, k, v); },
            [](const Entry &e, Grow &t, What w, unsigned k, const Val &v) { return e.grow_d(t, e.f.tok, w, k, v); },
            // the reading functions are those of the common base
            [](const Entry &e, const Grow &t, What w, unsigned k) { return e.fixed_r(t, w, k); },
            [](const Entry &e, const Grow &t, What w, unsigned k) { return e.fixed_dr(t, e.f.tok, w, k); });
  }
}

// --- attributes and order -----------------------------------------------------
struct Spec {
  bool pre, coll, dn, sat, opaque;
  genus g;
  unsigned id;
  size_t offset, size;
  token tok;
  std::string text() const {
    return pre ? pbt::fmt("pre{%s @%zu +%zu dn=%d sat=%d}", ginfo(g).name, offset, size, dn, sat)
               : pbt::fmt("loose{%s #%u coll=%d dn=%d sat=%d}", ginfo(g).name, id, coll, dn, sat);
  }
};
// Order promised to users of sorted lists: pre-placed before loose, pre-placed
// by offset; loose by their type-and-number whatever the flags are.
bool same_field(const Spec &a, const Spec &b) {
  if (a.pre != b.pre)
    return false;
  if (a.pre)
    return a.offset == b.offset && a.g == b.g && a.size == b.size;
  return a.g == b.g && a.id == b.id;
}

Spec gen_spec(Src &s, const Spec *like) {
  Spec x{};
  x.pre = like && s.chance(80) ? like->pre : s.chance(50);
  x.dn = s.chance(50);
  x.sat = s.chance(50);
  if (x.pre) {
    x.opaque = s.chance(20);
    x.g = x.opaque ? fptu::hole : like && like->pre && like->g != fptu::hole && s.chance(50) ? like->g : genus(s.below(31));
    x.offset = like && like->pre && s.chance(50) ? like->offset : s.chance(10) ? 16381 - s.below(3) : s.below(16382);
    x.size = x.opaque ? 1 + s.below(s.chance(50) ? 8 : 1023) : ginfo(x.g).slot_bytes;
    if (x.opaque) {
      x.dn = x.sat = false;
      x.tok = token::make_opacity(ptrdiff_t(x.offset), x.size);
    } else
      x.tok = token(ptrdiff_t(x.offset), x.g, x.dn, x.sat);
  } else {
    x.coll = s.chance(40);
    x.g = like && !like->pre && s.chance(50) ? like->g : genus(s.below(31));
    x.id = like && !like->pre && s.chance(50) ? like->id : s.chance(20) ? 1023 - unsigned(s.below(3)) : unsigned(s.below(1024));
    x.tok = token(x.g, x.id, x.coll, x.dn, x.sat);
  }
  return x;
}

void check_spec(const Spec &x) {
  const token &t = x.tok;
  const std::string text = x.text();
  PBT_CHECK(t.is_valid(), "%s is not valid", text.c_str());
  PBT_CHECK(t.is_preplaced() == x.pre && t.is_loose() == !x.pre, "%s: kind", text.c_str());
  PBT_CHECK(t.type() == x.g, "%s: type is %d", text.c_str(), int(t.type()));
  PBT_CHECK(t.is_discernible_null() == x.dn && t.is_saturated() == x.sat && t.is_rangechecking() == !x.sat, "%s: flags", text.c_str());
  PBT_CHECK(t.is_collection() == x.coll, "%s: collection", text.c_str());
  if (x.pre) {
    PBT_CHECK(size_t(t.preplaced_offset()) == x.offset, "%s: offset is %zd", text.c_str(), ptrdiff_t(t.preplaced_offset()));
    PBT_CHECK(t.preplaced_size() == x.size, "%s: size is %zu", text.c_str(), size_t(t.preplaced_size()));
  } else
    PBT_CHECK(t.id() == x.id, "%s: id is %u", text.c_str(), unsigned(t.id()));
  if (x.g != fptu::hole) {
    const genus g = x.g;
    auto in = [&](std::initializer_list<genus> l) { return std::find(l.begin(), l.end(), g) != l.end(); };
    PBT_CHECK(t.is_stretchy() == is_stretchy(g), "%s: is_stretchy", text.c_str());
    PBT_CHECK(t.is_text() == (g == fptu::text), "%s: is_text", text.c_str());
    PBT_CHECK(t.is_signed() == in({fptu::i8, fptu::i16, fptu::i32, fptu::i64, fptu::f32, fptu::f64, fptu::d64}), "%s: is_signed", text.c_str());
    PBT_CHECK(t.is_unsigned() == in({fptu::u8, fptu::u16, fptu::u32, fptu::u64}), "%s: is_unsigned", text.c_str());
    PBT_CHECK(t.is_integer() == in({fptu::i8, fptu::i16, fptu::i32, fptu::i64, fptu::u8, fptu::u16, fptu::u32, fptu::u64}), "%s: is_integer", text.c_str());
    PBT_CHECK(t.is_float() == in({fptu::f32, fptu::f64, fptu::d64}), "%s: is_float", text.c_str());
    PBT_CHECK(t.is_decimal() == (g == fptu::d64), "%s: is_decimal", text.c_str());
    PBT_CHECK(t.is_number() == in({fptu::i8, fptu::i16, fptu::i32, fptu::i64, fptu::u8, fptu::u16, fptu::u32, fptu::u64, fptu::f32, fptu::f64, fptu::d64}), "%s: is_number", text.c_str());
  }
  // enforced flags change only themselves
  for (int bits = 0; bits < 4; ++bits) {
    token e = t;
    e.enforce_discernible_null(bits & 1);
    e.enforce_saturation(bits & 2);
    PBT_CHECK(e.is_discernible_null() == bool(bits & 1) && e.is_saturated() == bool(bits & 2), "%s: enforced flags", text.c_str());
    PBT_CHECK(e.type() == t.type() && e.is_loose() == t.is_loose() && e.is_collection() == t.is_collection() &&
                  (!x.pre || e.preplaced_offset() == t.preplaced_offset()) && (x.pre || e.id() == t.id()),
              "%s: enforcing flags changes more", text.c_str());
    PBT_CHECK(token::is_same(e, t), "%s: not the same field with other flags", text.c_str());
    PBT_CHECK(token::hash()(e) == token::hash()(t), "%s: the hash depends on flags", text.c_str());
  }
  // casts
  bool refused = false;
  try {
    const fptu::token_preplaced c(t);
    PBT_CHECK(x.pre && c.is_preplaced() && !c.is_loose() && !c.is_collection() && c.tag() == t.tag(), "%s: cast_preplaced", text.c_str());
  } catch (const fptu::type_mismatch &) {
    refused = true;
  }
  PBT_CHECK(refused == !x.pre, "%s: cast_preplaced", text.c_str());
  refused = false;
  try {
    const fptu::token_loose c(t);
    PBT_CHECK(!x.pre && c.is_loose() && !c.is_preplaced() && c.tag() == t.tag() && c.is_collection() == x.coll, "%s: cast_loose", text.c_str());
  } catch (const fptu::type_mismatch &) {
    refused = true;
  }
  PBT_CHECK(refused == x.pre, "%s: cast_loose", text.c_str());
  refused = false;
  try {
    const fptu::cast_typecheck<fptu::i32, token> c(t);
    PBT_CHECK(c.type() == fptu::i32 && c.tag() == t.tag(), "%s: cast_typecheck", text.c_str());
  } catch (const fptu::type_mismatch &) {
    refused = true;
  }
  PBT_CHECK(refused == (x.g != fptu::i32), "%s: cast_typecheck", text.c_str());
}

void attributes(Src &s, Ctx &ctx) {
  std::vector<Spec> v;
  v.push_back(gen_spec(s, nullptr));
  v.push_back(gen_spec(s, &v[0]));
  v.push_back(gen_spec(s, &v[s.below(2)]));
  for (auto &x : v) {
    ctx.log("%s tag=0x%08x", x.text().c_str(), unsigned(x.tok.tag()));
    check_spec(x);
  }
  for (auto &a : v)
    for (auto &b : v) {
      const token &p = a.tok, &q = b.tok;
      const std::string t = a.text() + " and " + b.text();
      const bool exact = a.pre == b.pre && same_field(a, b) && a.dn == b.dn && a.sat == b.sat && a.coll == b.coll;
      PBT_CHECK((p == q) == exact && (p != q) == !exact, "%s: == is wrong", t.c_str());
      const bool same = same_field(a, b);
      PBT_CHECK(token::is_same(p, q) == same && token::same()(p, q) == same, "%s: is_same is %d", t.c_str(), !same);
      PBT_CHECK(!same || token::hash()(p) == token::hash()(q), "%s: hashes of the same field differ", t.c_str());
      PBT_CHECK((p > q) == (q < p) && (p >= q) == !(p < q) && (p <= q) == !(q < p), "%s: comparisons disagree", t.c_str());
      PBT_CHECK(!((p < q) && (q < p)), "%s: both are less", t.c_str());
      if (a.pre != b.pre)
        PBT_CHECK((p < q) == a.pre, "%s: pre-placed are not before loose", t.c_str());
      else if (a.pre && a.offset != b.offset)
        PBT_CHECK((p < q) == (a.offset < b.offset), "%s: order of offsets", t.c_str());
      else if (same)
        PBT_CHECK(!(p < q), "%s: the same field is less than itself", t.c_str());
      else
        PBT_CHECK((p < q) || (q < p), "%s: different fields are neither less nor greater", t.c_str());
      if (!a.pre && !b.pre && a.g == b.g && a.id != b.id)
        PBT_CHECK((p < q) == (a.id < b.id), "%s: order of ids", t.c_str());
      for (auto &c : v)
        PBT_CHECK(!(p < q && q < c.tok) || p < c.tok, "%s and %s: not transitive", t.c_str(), c.text().c_str());
    }
  // invalid parameters are refused
  auto refused = [&](auto &&f, const char *what) {
    bool r = false;
    try {
      f();
    } catch (const std::invalid_argument &) {
      r = true;
    }
    PBT_CHECK(r, "%s is accepted", what);
  };
  const unsigned big = unsigned(s.chance(50) ? 2048 : 2048 + s.below(1u << 20));
  const genus g = genus(s.below(31));
  refused([&] { token x(g, big); return x; }, "an excessive number");
  refused([&] { token x(genus(31 + s.below(4)), 1u); return x; }, "an invalid type of a loose field");
  const ptrdiff_t off = s.chance(40) ? -ptrdiff_t(1 + s.below(1000)) : ptrdiff_t(16384 + s.below(100000));
  refused([&] { token x(off, g); return x; }, "an excessive offset");
  refused([&] { return token::make_opacity(off, 4); }, "an excessive offset of a block");
  refused([&] { return token::make_opacity(4, s.chance(50) ? 0 : 2048 + s.below(5000)); }, "an invalid size of a block");
  PBT_CHECK(!token().is_valid(), "the default token is valid");
  // all static tokens agree with run-time ones
  const Entry &e = entries()[s.below(entries().size())];
  const Fld &f = e.f;
  PBT_CHECK(e.same_kind(f.tok), "static token %s disagrees with the run-time one", f.name.c_str());
  const token again = f.preplaced ? token(f.tok.preplaced_offset(), f.g, f.discernible) : token(f.g, f.tok.id(), f.collection, f.discernible);
  PBT_CHECK(again == f.tok, "static token %s differs from the run-time one made of the same attributes", f.name.c_str());
  ctx.nontrivial();
}

// The layout of a structure is the one of the schema that defines the same fields in order
void layout(Src &s, Ctx &ctx) {
  const auto &es = entries();
  (void)s;
  auto sch = fptu::schema::create();
  size_t i = 0;
  auto def = [&](genus g, const token &expect) {
    const token t = sch->define_preplaced(pbt::fmt("x%zu", i++), g, false, false, nullptr);
    PBT_CHECK(t == expect, "member %zu of the structure: offset %zd, the schema gives %zd", i - 1, ptrdiff_t(expect.preplaced_offset()), ptrdiff_t(t.preplaced_offset()));
  };
  size_t k = 0;
  for (size_t n = 0; n < 4; ++n, ++k)
    def(es[k].f.g, es[k].f.tok);
  def(fptu::boolean, token(FPTU_TOKEN(Rec, f_bool)()));
  def(fptu::enumeration, token(FPTU_TOKEN(Rec, f_enum)()));
  for (; es[k].f.name[0] == 's'; ++k)
    def(es[k].f.g, es[k].f.tok);
  PBT_CHECK(sch->preplaced_bytes() == sizeof(Rec), "size of the structure %zu, of the area %zu", sizeof(Rec), sch->preplaced_bytes());
  ctx.nontrivial();
}

} // namespace

int main(int argc, char **argv) {
  return pbt::driver(argc, argv,
                     {{"static_tokens", "at least two accepted modifications", static_tokens},
                      {"attributes", "every case: three related tokens", attributes},
                      {"layout", "the one structure", layout}});
}
