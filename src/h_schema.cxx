// C10: a schema is a consistent dictionary of uniquely named fields.
#include "world.h"
#include <map>
#include <set>
using namespace fp;
using fptu::schema;

namespace {

volatile unsigned sink; // the lookups are declared pure: their results must be used

struct Def {
  std::string name;
  token tok;
  genus g;
  bool preplaced = false, opaque = false, collection = false, dn = false,
       sat = false;
  size_t offset = 0, size = 0; // pre-placed
  unsigned id = 0;             // loose
};

struct Snapshot {
  std::vector<uint32_t> tags;
  std::string image;
  size_t npre, nstretchy;
  bool operator==(const Snapshot &o) const {
    return tags == o.tags && image == o.image && npre == o.npre &&
           nstretchy == o.nstretchy;
  }
};
Snapshot snap(const schema &s) {
  Snapshot r;
  for (auto t : s.tokens())
    r.tags.push_back(t.tag());
  r.image.assign(static_cast<const char *>(s.preplaced_init_image()),
                 s.preplaced_bytes());
  r.npre = s.number_of_preplaced();
  r.nstretchy = s.number_of_stretchy_preplaced();
  return r;
}

std::string shown(const std::string &n) {
  std::string o = "\"";
  for (unsigned char c : n)
    o += (c >= 32 && c < 127) ? std::string(1, char(c)) : pbt::fmt("\\x%02x", c);
  return o + "\"";
}
std::string shown(const token &t) {
  if (!t.is_valid())
    return "token()";
  if (t.is_preplaced())
    return pbt::fmt("%s@%zd+%zu%s%s", ginfo(t.type()).name, t.preplaced_offset(),
                    t.preplaced_size(), t.is_discernible_null() ? ",dn" : "",
                    t.is_saturated() ? ",sat" : "");
  return pbt::fmt("%s#%u%s%s%s", ginfo(t.type()).name, t.id(),
                  t.is_collection() ? ",coll" : "",
                  t.is_discernible_null() ? ",dn" : "", t.is_saturated() ? ",sat" : "");
}

std::string gen_name(Src &s) {
  switch (s.weighted({50, 20, 6, 6, 6, 6, 6})) {
  case 0:
    return pbt::fmt("%c", int('a' + s.below(26)));
  case 1: {
    std::string n;
    for (size_t i = 0, k = s.below(6); i < k; ++i)
      n.push_back("ab\0\xff"[s.below(4)]);
    return n;
  }
  case 2:
    return std::string();
  case 3:
    return std::string(42 - s.below(2), 'x') ;
  case 4:
    return std::string(41, 'x') + char('a' + s.below(3));
  case 5:
    return std::string(43 + s.below(3) * s.below(100), 'x');
  default: {
    std::string n;
    for (size_t i = 0, k = s.below(44); i < k; ++i)
      n.push_back(char(s.below(256)));
    return n;
  }
  }
}

struct T10 {
  Src &s;
  Ctx &ctx;
  std::unique_ptr<schema> sch = schema::create();
  std::vector<Def> defs;
  std::string image;
  unsigned refused = 0, imported = 0;

  T10(Src &s, Ctx &c) : s(s), ctx(c) {}

  const Def *by_name(const std::string &n) const {
    for (auto &d : defs)
      if (d.name == n)
        return &d;
    return nullptr;
  }

  // ------------------------------------------------------------------- model
  void model_image(const Def &d, const std::string *init) {
    if (image.size() < d.offset + d.size)
      image.resize(d.offset + d.size, '\0');
    std::string v = init ? *init : std::string(d.size, '\0');
    if (!init && !d.opaque && !is_stretchy(d.g) && d.dn) {
      v = denil(d.g);
      v.resize(d.size, '\0');
    }
    image.replace(d.offset, d.size, v);
  }

  // -------------------------------------------------------------------- check
  void check_all() {
    // number and order
    PBT_CHECK(sch->tokens().size() == defs.size(), "%zu tokens for %zu definitions",
              sch->tokens().size(), defs.size());
    size_t npre = 0, nst = 0;
    for (auto &d : defs)
      npre += d.preplaced, nst += d.preplaced && !d.opaque && is_stretchy(d.g);
    PBT_CHECK(sch->number_of_preplaced() == npre && sch->have_preplaced() == (npre > 0),
              "number_of_preplaced() is %zu of %zu", sch->number_of_preplaced(), npre);
    PBT_CHECK(sch->number_of_stretchy_preplaced() == nst &&
                  sch->have_stretchy_preplaced() == (nst > 0),
              "number_of_stretchy_preplaced() is %zu of %zu",
              sch->number_of_stretchy_preplaced(), nst);
    PBT_CHECK(sch->preplaced_bytes() == image.size(), "preplaced_bytes() is %zu of %zu",
              sch->preplaced_bytes(), image.size());
    PBT_CHECK(sch->preplaced_units() == (image.size() + 3) / 4, "preplaced_units()");
    const std::string got(static_cast<const char *>(sch->preplaced_init_image()),
                          sch->preplaced_bytes());
    PBT_CHECK(got == image, "initial image is %s, expected %s", show(got).c_str(),
              show(image).c_str());
    std::multiset<uint32_t> a, b;
    ptrdiff_t last = -1;
    size_t k = 0;
    for (auto t : sch->tokens()) {
      a.insert(t.tag());
      PBT_CHECK(t.is_valid() && t.is_preplaced() == (k < npre) &&
                    t.is_loose() == (k >= npre),
                "token %zu of the list is not where pre-placed/loose ones belong", k);
      if (t.is_preplaced()) {
        PBT_CHECK(t.preplaced_offset() >= last, "pre-placed tokens are not ordered by offset");
        last = t.preplaced_offset();
      }
      ++k;
    }
    for (auto &d : defs)
      b.insert(d.tok.tag());
    PBT_CHECK(a == b, "the list of tokens is not the set of defined ones");
    // dictionary, both ways
    for (auto &d : defs) {
      const string_view n(d.name);
      PBT_CHECK(sch->get_token(n) == d.tok, "%s resolves to %s instead of %s",
                shown(d.name).c_str(), shown(sch->get_token(n)).c_str(),
                shown(d.tok).c_str());
      PBT_CHECK((*sch)[d.name] == d.tok && (*sch)[n] == d.tok, "operator[](name)");
      PBT_CHECK(sch->get_token_nothrow(n) == d.tok, "get_token_nothrow()");
      const string_view back = sch->get_name(d.tok);
      PBT_CHECK(std::string(back.data(), back.size()) == d.name, "name of %s is %s instead of %s",
                shown(d.tok).c_str(), shown(std::string(back.data(), back.size())).c_str(),
                shown(d.name).c_str());
      PBT_CHECK((*sch)[d.tok] == n, "operator[](token)");
    }
    // neighbours by offset (where fields share an offset any of them will do)
    std::map<ptrdiff_t, std::set<uint32_t>> at;
    for (auto &d : defs)
      if (d.preplaced)
        at[ptrdiff_t(d.offset)].insert(d.tok.tag());
    std::set<ptrdiff_t> probe;
    for (auto &x : at)
      for (ptrdiff_t j = -2; j < 3; ++j)
        probe.insert(x.first + j);
    for (ptrdiff_t j = -1; j < 3; ++j)
      probe.insert(ptrdiff_t(image.size()) + j - 1);
    if (!image.empty())
      probe.insert(ptrdiff_t(s.below(image.size())));
    for (ptrdiff_t o : probe) {
      auto i = at.find(o);
      token t = sch->by_offset(o);
      PBT_CHECK(i == at.end() ? !t.is_valid() : i->second.count(t.tag()) == 1,
                "by_offset(%zd) gives %s", o, shown(t).c_str());
      if (o >= 0 && size_t(o) < image.size()) {
        i = at.upper_bound(o);
        t = sch->next_by_offset(o);
        PBT_CHECK(i == at.end() ? !t.is_valid() : i->second.count(t.tag()) == 1,
                  "next_by_offset(%zd) gives %s", o, shown(t).c_str());
      }
      if (o > 0 && size_t(o) <= image.size()) {
        i = at.lower_bound(o);
        t = sch->prev_by_offset(o);
        PBT_CHECK(i == at.begin() ? !t.is_valid() : std::prev(i)->second.count(t.tag()) == 1,
                  "prev_by_offset(%zd) gives %s", o, shown(t).c_str());
      }
    }
    // by descriptor of a loose field
    auto loose = [&](genus g, unsigned id) {
      struct {
        uint16_t value, genus_and_id;
      } raw{0, uint16_t(unsigned(g) << 11 | id)};
      uint32_t mem;
      memcpy(&mem, &raw, 4);
      const token t =
          sch->by_loose(reinterpret_cast<const fptu::details::field_loose *>(&mem));
      const Def *want = nullptr;
      for (auto &d : defs)
        if (!d.preplaced && d.g == g && d.id == id)
          want = &d;
      PBT_CHECK(want ? t == want->tok : !t.is_valid(), "field %s#%u is taken for %s",
                ginfo(g).name, id, shown(t).c_str());
    };
    for (auto &d : defs)
      if (!d.preplaced) {
        loose(d.g, d.id);
        if (d.id)
          loose(d.g, d.id - 1);
        if (d.id < 1023)
          loose(d.g, d.id + 1);
        loose(genus((unsigned(d.g) + 1) % 31), d.id);
      }
    loose(genus(s.below(31)), unsigned(s.below(4)));
    // unknown ones
    for (int j = 0; j < 2; ++j) {
      const std::string n = gen_name(s);
      if (by_name(n))
        continue;
      PBT_CHECK(!sch->get_token_nothrow(string_view(n)).is_valid(),
                "unknown name %s resolves to a token", shown(n).c_str());
      bool threw = false;
      try {
        sink = sch->get_token(string_view(n)).tag();
      } catch (const fptu::schema_no_such_field &) {
        threw = true;
      }
      PBT_CHECK(threw, "unknown name %s is found", shown(n).c_str());
    }
    {
      const token t = s.chance(50) ? token(genus(s.below(31)), unsigned(s.below(6)))
                                   : token(ptrdiff_t(4 * s.below(16)), genus(s.below(31)));
      bool known = false;
      for (auto &d : defs)
        known |= token::is_same(d.tok, t);
      bool threw = false;
      try {
        sink = unsigned(sch->get_name(t).length());
      } catch (const fptu::schema_no_such_field &) {
        threw = true;
      }
      PBT_CHECK(threw == !known, "%s token %s: get_name %s", known ? "known" : "unknown",
                shown(t).c_str(), threw ? "throws" : "gives a name");
      PBT_CHECK(sch->get_name_nothrow(t).nil() == !known, "get_name_nothrow(%s)",
                shown(t).c_str());
    }
    // adjusted tokens
    if (!defs.empty()) {
      const Def &d = s.pick(defs);
      using bo = schema::boolean_option;
      const bo on = bo(s.below(3)), os = bo(s.below(3));
      const token t = sch->get_token(string_view(d.name), on, os);
      auto flag = [](bo o, bool v) {
        return o == bo::option_default ? v : o == bo::option_enforce_true;
      };
      PBT_CHECK(token::is_same(t, d.tok) && t.is_collection() == d.tok.is_collection() &&
                    t.is_discernible_null() == flag(on, d.dn) &&
                    t.is_saturated() == flag(os, d.sat),
                "get_token(%s, %d, %d) gives %s", shown(d.name).c_str(), int(on), int(os),
                shown(t).c_str());
      const string_view n2 = sch->get_name(t);
      PBT_CHECK(std::string(n2.data(), n2.size()) == d.name, "name of the adjusted token");
    }
  }

  void check_token(const Def &d) {
    const token &t = d.tok;
    PBT_CHECK(t.is_valid() && t.is_preplaced() == d.preplaced && t.is_loose() == !d.preplaced &&
                  t.type() == d.g && t.is_collection() == d.collection &&
                  t.is_discernible_null() == d.dn && t.is_saturated() == d.sat,
              "definition gave %s", shown(t).c_str());
    if (d.preplaced)
      PBT_CHECK(t.preplaced_size() == d.size, "size of %s is not %zu", shown(t).c_str(),
                d.size);
  }

  enum verdict { must_accept, must_refuse, may_refuse };

  // runs a definition; returns false if it was refused
  template <typename F>
  bool attempt(F &&f, verdict v, const std::string &name, Def &d) {
    if (name.size() > 42 || by_name(name))
      v = must_refuse;
    const Snapshot before = snap(*sch);
    std::string arg(name);
    try {
      d.tok = f(std::move(arg));
    } catch (const fptu::schema_definition_error &e) {
      return refuse(e, v, before);
    } catch (const std::invalid_argument &e) {
      return refuse(e, v, before);
    }
    PBT_CHECK(v != must_refuse, "accepted: %s", shown(d.tok).c_str());
    d.name = name;
    return true;
  }
  bool refuse(const std::exception &e, verdict v, const Snapshot &before) {
    ctx.log("  refused: %s", e.what());
    PBT_CHECK(v != must_accept, "refused: %s", e.what());
    PBT_CHECK(snap(*sch) == before, "a refused definition has changed the schema");
    ++refused;
    check_all();
    return false;
  }
  void accept(const Def &d, const std::string *init) {
    ctx.log("  -> %s", shown(d.tok).c_str());
    check_token(d);
    if (d.preplaced)
      model_image(d, init);
    defs.push_back(d);
    check_all();
  }

  // --------------------------------------------------------------------- ops
  std::string gen_init(genus g) {
    if (is_stretchy(g))
      return std::string(4, '\0');
    std::string v = gen_value(s, g);
    v.resize(ginfo(g).slot_bytes, '\0');
    return v;
  }
  genus gen_any() {
    return s.chance(30) ? genus(s.below(4)) : genus(s.below(31));
  }
  static size_t up(size_t v, size_t a) { return (v + a - 1) / a * a; }

  void check_appended(Def &d, size_t before, size_t align) {
    d.offset = size_t(d.tok.preplaced_offset());
    PBT_CHECK(d.offset >= before && d.offset % align == 0 && d.offset - before < align,
              "%s was placed after %zu bytes", shown(d.tok).c_str(), before);
  }

  void op_preplaced(bool via_field) {
    Def d;
    d.preplaced = true;
    d.g = s.chance(3) ? genus(31) : gen_any();
    d.dn = s.chance(50), d.sat = s.chance(30);
    const std::string name = gen_name(s);
    d.size = ginfo(d.g).slot_bytes;
    const bool with = !via_field && d.g != 31 && s.chance(50);
    const std::string init = with ? gen_init(d.g) : std::string();
    const size_t align = d.size > 4 ? 4 : d.size, before = image.size();
    verdict v = must_accept;
    if (d.g == 31 || up(before, align) > 16381)
      v = must_refuse;
    ctx.log("%s %s %s dn=%d sat=%d init=%s", via_field ? "define_field" : "define_preplaced",
            shown(name).c_str(), ginfo(d.g).name, int(d.dn), int(d.sat),
            with ? show(init).c_str() : "-");
    if (!attempt([&](std::string &&n) {
          return via_field ? sch->define_field(true, std::move(n), d.g, d.dn, d.sat)
                           : sch->define_preplaced(std::move(n), d.g, d.dn, d.sat,
                                                   with ? init.data() : nullptr);
        }, v, name, d))
      return;
    check_appended(d, before, align);
    accept(d, with ? &init : nullptr);
  }

  void finish_loose(Def &d) {
    d.id = d.tok.id();
    PBT_CHECK(d.id < 1024, "number %u of a loose field", d.id);
    for (auto &x : defs)
      PBT_CHECK(x.preplaced || x.g != d.g || x.id != d.id,
                "%s has the number of the field %s", shown(d.tok).c_str(),
                shown(x.name).c_str());
    accept(d, nullptr);
  }
  verdict loose_room(genus g) {
    std::set<unsigned> used;
    for (auto &x : defs)
      if (!x.preplaced && x.g == g)
        used.insert(x.id);
    if (used.size() >= 1024)
      return must_refuse;
    return used.count(1023) ? may_refuse : must_accept;
  }

  void op_loose(unsigned how) {
    Def d;
    d.g = s.chance(3) ? genus(31) : gen_any();
    d.dn = s.chance(50), d.sat = s.chance(30);
    d.collection = how == 1 || (how == 0 && s.chance(40));
    const std::string name = gen_name(s);
    ctx.log("%s %s %s coll=%d dn=%d sat=%d",
            how == 0 ? "define_loose" : how == 1 ? "define_collection" : "define_field",
            shown(name).c_str(), ginfo(d.g).name, int(d.collection), int(d.dn), int(d.sat));
    if (!attempt([&](std::string &&n) {
          return how == 0   ? sch->define_loose(std::move(n), d.g, d.collection, d.dn, d.sat)
                 : how == 1 ? sch->define_collection(std::move(n), d.g, d.dn, d.sat)
                            : sch->define_field(false, std::move(n), d.g, d.dn, d.sat);
        }, d.g == 31 ? must_refuse : loose_room(d.g), name, d))
      return;
    finish_loose(d);
  }

  void op_import_loose() {
    Def d;
    d.g = gen_any();
    d.dn = s.chance(50), d.sat = s.chance(30), d.collection = s.chance(40);
    const unsigned id = unsigned(s.chance(15) ? 1023 - s.below(3) : s.below(8));
    const token t(d.g, id, d.collection, d.dn, d.sat);
    const bool again = s.chance(30);
    const std::string name = gen_name(s);
    ctx.log("import_definition %s %s renominate=%d", shown(name).c_str(), shown(t).c_str(),
            int(again));
    verdict v = must_accept;
    if (again)
      v = loose_room(d.g);
    else
      for (auto &x : defs)
        if (!x.preplaced && x.g == d.g && x.id == id)
          v = must_refuse;
    if (!attempt([&](std::string &&n) {
          return sch->import_definition(std::move(n), t, nullptr, again);
        }, v, name, d))
      return;
    ++imported;
    if (!again)
      PBT_CHECK(d.tok == t, "import changed the token to %s", shown(d.tok).c_str());
    finish_loose(d);
  }

  // may a field of this extent be added?
  bool fits(const Def &d) {
    for (auto &x : defs) {
      if (!x.preplaced)
        continue;
      const size_t a = d.offset, ae = a + d.size, b = x.offset, be = b + x.size;
      if (ae <= b || be <= a)
        continue;
      const bool nested = (a >= b && ae <= be) || (b >= a && be <= ae);
      if (!nested || (!d.opaque && !x.opaque))
        return false;
      if (x.g == d.g && x.offset == d.offset && x.size == d.size)
        return false;
    }
    return true;
  }

  void op_import_preplaced() {
    Def d;
    d.preplaced = true;
    d.g = gen_any();
    d.dn = s.chance(50), d.sat = s.chance(30);
    d.size = ginfo(d.g).slot_bytes;
    const size_t align = d.size > 4 ? 4 : d.size;
    // somewhere around the present ones: gaps, insides, edges, the far end
    size_t at;
    if (s.chance(4))
      at = 16381 - s.below(130);
    else
      at = std::min<size_t>(s.below(image.size() + 3 * d.size + 9), 16381);
    d.offset = at / align * align;
    const token t(ptrdiff_t(d.offset), d.g, d.dn, d.sat);
    const bool again = s.chance(20);
    const bool with = s.chance(60);
    const std::string init = with ? gen_init(d.g) : std::string();
    const std::string name = gen_name(s);
    ctx.log("import_definition %s %s init=%s renominate=%d", shown(name).c_str(),
            shown(t).c_str(), with ? show(init).c_str() : "-", int(again));
    const size_t before = image.size();
    verdict v = must_accept;
    if (again ? up(before, align) > 16381 : !fits(d))
      v = must_refuse;
    if (!attempt([&](std::string &&n) {
          return sch->import_definition(std::move(n), t, with ? init.data() : nullptr, again);
        }, v, name, d))
      return;
    ++imported;
    if (again)
      check_appended(d, before, align);
    else
      PBT_CHECK(d.tok == t, "import changed the token to %s", shown(d.tok).c_str());
    accept(d, with ? &init : nullptr);
  }

  void op_opaque() {
    Def d;
    d.preplaced = d.opaque = true;
    d.g = genus::hole;
    d.size = s.chance(5)   ? 2044 + s.below(5)
             : s.chance(5) ? 0
                           : 1 + s.below(40);
    size_t align = s.pick(std::vector<size_t>{0, 0, 1, 2, 4, 4, 8});
    if (s.chance(6))
      align = s.pick(std::vector<size_t>{3, 5, 6, 7, 32});
    const bool with = s.chance(60);
    std::string init;
    for (size_t i = 0; with && i < d.size; ++i)
      init.push_back(char(s.below(256)));
    const std::string name = gen_name(s);
    ctx.log("define_preplaced_fixed_opacity %s size=%zu align=%zu init=%s",
            shown(name).c_str(), d.size, align, with ? show(init).c_str() : "-");
    const size_t before = image.size();
    verdict v = must_accept;
    if (d.size == 0 || d.size > 2047 || (align & (align - 1)) || align > 16)
      v = must_refuse;
    else if (up(before, align ? align : d.size < 2 ? 1 : d.size < 4 ? 2 : 4) > 16381)
      v = must_refuse;
    else if (d.size == 2047 || up(before, 4) > 16381)
      v = may_refuse;
    if (!attempt([&](std::string &&n) {
          return sch->define_preplaced_fixed_opacity(std::move(n), d.size, align,
                                                     with ? init.data() : nullptr);
        }, v, name, d))
      return;
    check_appended(d, before, align ? align : d.size == 1 ? 1 : d.size == 2 ? 2 : 4);
    accept(d, with ? &init : nullptr);
  }

  // an opaque block described by another schema
  void op_import_opaque() {
    Def d;
    d.preplaced = d.opaque = true;
    d.g = genus::hole;
    d.size = 1 + s.below(24);
    const size_t pad = std::min<size_t>(s.below(image.size() + 12), 2000);
    auto other = schema::create();
    if (pad >= 1)
      other->define_preplaced_fixed_opacity(std::string("pad"), pad, 1, nullptr);
    const token t =
        other->define_preplaced_fixed_opacity(std::string("x"), d.size, 1, nullptr);
    d.offset = size_t(t.preplaced_offset());
    const bool with = s.chance(70);
    std::string init;
    for (size_t i = 0; with && i < d.size; ++i)
      init.push_back(char(s.below(256)));
    const bool again = s.chance(10);
    const std::string name = gen_name(s);
    ctx.log("import_definition %s %s init=%s renominate=%d", shown(name).c_str(),
            shown(t).c_str(), with ? show(init).c_str() : "-", int(again));
    const size_t before = image.size();
    if (!attempt([&](std::string &&n) {
          return sch->import_definition(std::move(n), t, with ? init.data() : nullptr, again);
        }, again ? may_refuse : fits(d) ? must_accept : must_refuse, name, d))
      return;
    ++imported;
    if (again)
      check_appended(d, before, 1);
    else
      PBT_CHECK(d.tok == t, "import changed the token to %s", shown(d.tok).c_str());
    accept(d, with ? &init : nullptr);
  }

  // a stretchy slot must not be covered by foreign bytes when a tuple is made
  bool tuple_is_meaningful() {
    for (auto &d : defs)
      if (d.preplaced && !d.opaque && is_stretchy(d.g))
        for (size_t i = 0; i < 4; ++i)
          if (image[d.offset + i])
            return false;
    return true;
  }

  void check_fresh_tuple() {
    if (!tuple_is_meaningful())
      return;
    ctx.log("fresh tuple");
    World w;
    std::vector<Cell> m;
    std::map<size_t, std::vector<bool>> at; // offset -> presence of the fields there
    for (auto &d : defs) {
      if (d.opaque) {
        // an opaque block of zeros counts as absent
        at[d.offset].push_back(image.substr(d.offset, d.size) != std::string(d.size, '\0'));
        continue;
      }
      Fld f;
      f.tok = d.tok, f.g = d.g, f.name = d.name;
      f.preplaced = d.preplaced, f.collection = d.collection, f.discernible = d.dn;
      bool gettable = false;
      for (genus g : settable())
        gettable |= g == d.g;
      Cell c;
      if (d.preplaced && !is_stretchy(d.g)) {
        const Val v = image.substr(d.offset, ginfo(d.g).size);
        c.v = always_present(f) ? v : written(f, v);
      }
      if (!gettable)
        continue;
      if (d.preplaced)
        at[d.offset].push_back(c.v.has_value());
      w.flds.push_back(f);
      m.push_back(c);
    }
    // types without accessors are seen by iterators only
    for (auto &d : defs)
      if (d.preplaced && !d.opaque &&
          std::find(settable().begin(), settable().end(), d.g) == settable().end())
        at[d.offset].push_back(true), at[d.offset].push_back(false);
    fptu::tuple_rw_fixed t(8 + s.below(8), image.size() + 64, sch.get());
    check_reads(t, w, m, "fresh tuple");
    const fptu::tuple_ro_weak ro = t.take_weak(true).first;
    check_reads(ro, w, m, "fresh tuple, serialised");
    PBT_CHECK(ro.size() == 4 + up(image.size(), 4), "fresh tuple takes %zu bytes for %zu",
              ro.size(), image.size());
    std::string body(static_cast<const char *>(ro.data()) + 4, image.size());
    PBT_CHECK(body == image, "fresh tuple starts with %s instead of the initial image %s",
              show(body).c_str(), show(image).c_str());
    PBT_CHECK(fptu::tuple_ro_weak::validate(ro.data(), ro.size(), sch.get()) == nullptr,
              "fresh tuple is not valid");
    std::set<size_t> seen;
    size_t n = 0;
    for (auto it = ro.begin(sch.get()); it != ro.end(sch.get()); ++it) {
      PBT_CHECK(++n < 20000, "endless iteration");
      const token k = it.field_token();
      PBT_CHECK(k.is_valid() && k.is_preplaced() && at.count(size_t(k.preplaced_offset())),
                "iteration stops at %s", shown(k).c_str());
      PBT_CHECK(seen.insert(size_t(k.preplaced_offset())).second, "%s is visited twice",
                shown(k).c_str());
    }
    for (auto &x : at) {
      bool some = false, all = true;
      for (bool b : x.second)
        some |= b, all &= b;
      PBT_CHECK(seen.count(x.first) ? some : !all, "field at offset %zu is %svisited",
                x.first, seen.count(x.first) ? "" : "not ");
    }
    std::vector<size_t> back;
    for (auto it = ro.end(sch.get()); it != ro.begin(sch.get());) {
      --it;
      PBT_CHECK(back.size() < 20000, "endless iteration");
      back.push_back(size_t(it.field_token().preplaced_offset()));
    }
    PBT_CHECK(std::vector<size_t>(back.rbegin(), back.rend()) ==
                  std::vector<size_t>(seen.begin(), seen.end()),
              "backward iteration visits other fields");
  }

  void run(bool opaque, bool only_sequential) {
    const unsigned n = 1 + unsigned(s.below(s.chance(10) ? 60 : 14));
    for (unsigned i = 0; i < n && !s.exhausted(); ++i)
      switch (s.weighted({25, 5, 20, 5, 5, only_sequential ? 0u : 10u,
                          only_sequential ? 0u : 25u, opaque ? 12u : 0u,
                          opaque && !only_sequential ? 12u : 0u})) {
      case 0: op_preplaced(false); break;
      case 1: op_preplaced(true); break;
      case 2: op_loose(0); break;
      case 3: op_loose(1); break;
      case 4: op_loose(2); break;
      case 5: op_import_loose(); break;
      case 6: op_import_preplaced(); break;
      case 7: op_opaque(); break;
      case 8: op_import_opaque(); break;
      }
    check_all();
    check_fresh_tuple();
    if (defs.size() > 2)
      ctx.nontrivial();
    if (refused)
      ctx.label("with_refusal");
    if (imported)
      ctx.label("with_import");
  }
};

void dictionary(Src &s, Ctx &c) { T10(s, c).run(false, true); }
void imports(Src &s, Ctx &c) { T10(s, c).run(false, false); }
void opaque(Src &s, Ctx &c) { T10(s, c).run(true, s.chance(40)); }

// the limits: 1024 numbers per type, 16 KB of pre-placed fields
void limits(Src &s, Ctx &ctx) {
  auto sch = schema::create();
  if (s.chance(50)) {
    const genus g = genus(s.below(31));
    std::set<unsigned> ids;
    std::vector<token> toks;
    const unsigned others = unsigned(s.below(3));
    for (unsigned i = 0; i < others; ++i)
      sch->define_loose(pbt::fmt("o%u", i), genus((unsigned(g) + 1 + i * 29) % 31));
    for (unsigned i = 0; i < 1024; ++i) {
      const token t = sch->define_loose(pbt::fmt("n%u", i), g, s.chance(30), s.chance(30));
      PBT_CHECK(t.is_loose() && t.type() == g && t.id() < 1024 && ids.insert(t.id()).second,
                "definition %u of the type got %s", i, shown(t).c_str());
      toks.push_back(t);
    }
    bool threw = false;
    const Snapshot before = snap(*sch);
    try {
      sch->define_loose("one more", g);
    } catch (const fptu::schema_definition_error &) {
      threw = true;
    }
    PBT_CHECK(threw && snap(*sch) == before, "definition 1025 of one type");
    for (unsigned i = 0; i < 1024; ++i)
      PBT_CHECK(sch->get_token(string_view(pbt::fmt("n%u", i))) == toks[i], "token %u", i);
    // another type still has room
    const token t = sch->define_loose("other", genus((unsigned(g) + 7) % 31));
    PBT_CHECK(t.is_loose() && sch->get_token("other") == t, "another type");
    ctx.label("loose");
  } else {
    const genus g = s.chance(60) ? fptu::bin512 : s.pick(std::vector<genus>{fptu::bin160, fptu::ipnet, fptu::u64, fptu::ip});
    const size_t slot = ginfo(g).slot_bytes;
    size_t end = 0;
    const unsigned lead = unsigned(s.below(5));
    for (unsigned i = 0; i < lead; ++i) {
      sch->define_preplaced(pbt::fmt("lead%u", i), fptu::u8);
      ++end;
    }
    unsigned n = 0;
    std::vector<token> toks;
    for (;; ++n) {
      const size_t at = (end + 3) / 4 * 4;
      bool threw = false;
      token t;
      try {
        t = sch->define_preplaced(pbt::fmt("n%u", n), g);
      } catch (const fptu::schema_definition_error &) {
        threw = true;
      }
      PBT_CHECK(threw == (at > 16381), "definition at %zu is %s", at,
                threw ? "refused" : "accepted");
      if (threw)
        break;
      PBT_CHECK(t.is_preplaced() && t.type() == g && size_t(t.preplaced_offset()) == at,
                "definition at %zu got %s", at, shown(t).c_str());
      toks.push_back(t);
      end = at + slot;
    }
    PBT_CHECK(sch->preplaced_bytes() == end && sch->number_of_preplaced() == n + lead,
              "size of the image");
    for (unsigned i = 0; i < n; ++i) {
      PBT_CHECK(sch->get_token(string_view(pbt::fmt("n%u", i))) == toks[i], "token %u", i);
      PBT_CHECK(sch->by_offset(toks[i].preplaced_offset()) == toks[i], "by_offset %u", i);
    }
    // the last field of the biggest schema works
    fptu::tuple_rw_fixed t(4, end + 64, sch.get());
    const Val v = gen_value(s, g);
    Fld f;
    f.g = g, f.tok = toks.back(), f.preplaced = true;
    set_value(t, f.tok, g, v);
    PBT_CHECK(get_value(t, f.tok, g) == v, "the last field");
    const fptu::tuple_ro_weak ro = t.take_weak(true).first;
    PBT_CHECK(get_value(ro, f.tok, g) == v, "the last field, serialised");
    ctx.label("preplaced");
  }
  ctx.nontrivial();
}

} // namespace

int main(int argc, char **argv) {
  return pbt::driver(
      argc, argv,
      {{"dictionary", "more than two accepted definitions", dictionary},
       {"imports", "more than two accepted definitions, imported ones among them possible",
        imports},
       {"opaque", "more than two accepted definitions, opaque blocks among them possible",
        opaque},
       {"limits", "a schema filled up to the limit", limits}});
}
