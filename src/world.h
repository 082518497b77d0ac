// Generated schemas, the reference model of a tuple's content, and the
// comparison of any tuple form with the model.
#pragma once
#include "fp.h"
#include "refval.h"

namespace fp {

struct Cell {
  std::optional<Val> v;   // single field: value, or absent
  std::vector<Val> coll;  // collection: elements (a multiset)
  bool operator==(const Cell &o) const {
    auto a = coll, b = o.coll;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return v == o.v && a == b;
  }
};

struct World {
  std::unique_ptr<fptu::schema> sch;
  std::vector<Fld> flds;
  ref::SchemaDesc sd;
  std::vector<Cell> initial; // content of a freshly created tuple
  const fptu::schema *schema() const { return sch.get(); }
};

// would writing `v` leave the field absent?
inline bool write_means_absent(const Fld &f, const Val &v) {
  if (f.preplaced && !is_stretchy(f.g))
    return f.discernible && v == denil(f.g);
  if (f.g == fptu::nested && v.empty())
    return true;
  return !f.discernible && is_natural_empty(f.g, v);
}
// a collection with distinguishable null keeps null elements of nested type
inline bool insert_means_nothing(const Fld &f, const Val &v) {
  return !f.discernible && is_natural_empty(f.g, v);
}
// value of a collection element (a null element reads as absent)
template <typename ACC> Val elem_value(const ACC &a, const Fld &f) {
  if (f.g == fptu::nested && f.discernible) {
    try {
      return acc_value(a, f.g);
    } catch (const fptu::field_absent &) {
      return Val();
    }
  }
  return acc_value(a, f.g);
}
inline bool always_present(const Fld &f) {
  return f.preplaced && !is_stretchy(f.g) && !f.discernible;
}
// value of the field after it was erased
inline std::optional<Val> erased(const Fld &f) {
  if (always_present(f))
    return Val(ginfo(f.g).size, '\0');
  return std::nullopt;
}
inline std::optional<Val> written(const Fld &f, const Val &v) {
  if (write_means_absent(f, v))
    return std::nullopt;
  return v;
}

struct WorldOpt {
  unsigned schema_percent = 75;
  unsigned max_fields = 8;
  unsigned preplaced = 40, loose = 35, coll = 25;
  unsigned stretchy_percent = 45;
  bool in_place_only_small = false;
};

inline genus gen_genus(Src &s, unsigned stretchy_percent) {
  if (s.chance(stretchy_percent))
    return genus(s.below(4));
  return s.pick(settable());
}

inline void sort_desc(ref::SchemaDesc &sd) {
  std::sort(sd.pre.begin(), sd.pre.end(),
            [](const ref::PreplacedDesc &a, const ref::PreplacedDesc &b) {
              return a.offset < b.offset;
            });
}

inline World gen_world(Src &s, Ctx &ctx, const WorldOpt &o = WorldOpt()) {
  World w;
  const bool with_schema = s.chance(o.schema_percent);
  const unsigned n = 1 + unsigned(s.below(o.max_fields));
  if (with_schema) {
    w.sch = fptu::schema::create();
    w.sd.present = true;
  }
  // some schemas take over tokens made elsewhere: gaps, arbitrary order and
  // arbitrary numbers
  const bool imported = with_schema && s.chance(15);
  for (unsigned i = 0; i < n; ++i) {
    Fld f;
    f.g = gen_genus(s, o.stretchy_percent);
    f.discernible = s.chance(50);
    f.name = pbt::fmt("f%u", i);
    size_t kind = with_schema ? s.weighted({o.preplaced, o.loose, o.coll})
                              : 1 + s.weighted({o.loose, o.coll});
    f.preplaced = kind == 0;
    f.collection = kind == 2;
    // has no effect on anything but the token itself
    const bool saturated = s.chance(12);
    Cell c;
    if (f.preplaced) {
      Val init;
      auto define = [&](const void *initial) {
        if (!imported)
          return w.sch->define_preplaced(std::string(f.name), f.g, f.discernible,
                                         saturated, initial);
        const size_t size = ginfo(f.g).slot_bytes, align = std::min<size_t>(size, 4);
        size_t at = s.below(64) / align * align;
        for (bool again = true; again;) {
          again = false;
          for (auto &x : w.sd.pre)
            if (at < x.offset + ginfo(x.g).slot_bytes && x.offset < at + size)
              again = true, at += align;
        }
        return w.sch->import_definition(
            std::string(f.name), token(ptrdiff_t(at), f.g, f.discernible), initial);
      };
      if (!is_stretchy(f.g) && s.chance(40)) {
        init = gen_value(s, f.g);
        Val raw = init;
        raw.resize(ginfo(f.g).slot_bytes, '\0');
        f.tok = define(raw.data());
        c.v = written(f, init);
        if (always_present(f))
          c.v = init;
      } else {
        f.tok = define(nullptr);
        c.v = erased(f);
      }
      w.sd.pre.push_back(
          {size_t(f.tok.preplaced_offset()), f.g, f.discernible});
    } else if (with_schema && !imported) {
      f.tok = w.sch->define_loose(std::string(f.name), f.g, f.collection,
                                  f.discernible, saturated);
    } else {
      // by number; (type, number) pairs are different fields
      unsigned id = unsigned(s.chance(10) ? 1023 - s.below(3) : s.below(5));
      for (bool again = true; again;) {
        again = false;
        for (auto &x : w.flds)
          if (!x.preplaced && x.g == f.g && x.tok.id() == id)
            again = true, id = (id + 1) % 1024;
      }
      f.tok = token(f.g, id, f.collection, f.discernible);
      if (imported)
        f.tok = w.sch->import_definition(std::string(f.name), f.tok);
    }
    w.flds.push_back(f);
    w.initial.push_back(c);
    ctx.log("field %u: %s init=%s", i, show(f).c_str(),
            c.v ? show(*c.v).c_str() : "-");
  }
  if (w.sch)
    w.sd.preplaced_bytes = w.sch->preplaced_bytes();
  sort_desc(w.sd);
  return w;
}

// read one single field of any reading interface; nullopt when reported absent
template <typename T>
std::optional<Val> read_single(const T &t, const Fld &f, const char *what) {
  const bool present = t.is_present(f.tok);
  Val v;
  bool threw = false;
  try {
    v = get_value(t, f.tok, f.g);
  } catch (const fptu::field_absent &) {
    threw = true;
  }
  if (threw) {
    PBT_CHECK(f.discernible, "%s: %s: read failed as absent, but the field has no distinguishable null",
              what, show(f).c_str());
    PBT_CHECK(!present, "%s: %s: is_present() but the read fails as absent", what,
              show(f).c_str());
    return std::nullopt;
  }
  if (!present) {
    PBT_CHECK(!f.discernible || f.g == fptu::nested, "%s: %s: absent, but the read gave %s", what,
              show(f).c_str(), show(v).c_str());
    PBT_CHECK(v == natural_empty(f.g) || is_natural_empty(f.g, v),
              "%s: %s: absent field reads %s instead of the empty value", what,
              show(f).c_str(), show(v).c_str());
    return std::nullopt;
  }
  return v;
}

// operator[] of modifiable tuples exists only for non-const ones
inline fptu::tuple_rw_fixed &reader_for_index(const fptu::tuple_rw_fixed &t) {
  return const_cast<fptu::tuple_rw_fixed &>(t);
}
inline const fptu::tuple_ro_weak &reader_for_index(const fptu::tuple_ro_weak &t) {
  return t;
}
inline const fptu::tuple_ro_managed &reader_for_index(const fptu::tuple_ro_managed &t) {
  return t;
}

template <typename T>
std::vector<Val> read_collection(const T &t, const Fld &f) {
  std::vector<Val> r;
  auto c = reader_for_index(t).collection(f.tok);
  for (auto it = c.begin(); it != c.end(); ++it) {
    r.push_back(elem_value(*it, f));
    PBT_CHECK(r.size() <= 20000, "endless collection");
  }
  PBT_CHECK((c.begin() == c.end()) == r.empty(), "collection.empty() disagrees");
  PBT_CHECK(c.empty() == r.empty(), "collection.empty() disagrees");
  {
    const auto &cc = c; // the constant form and the postfix increment
    size_t k = 0;
    for (auto it = cc.begin(); it != cc.end(); ++k) {
      auto old = it++;
      PBT_CHECK(k < r.size() && elem_value(*old, f) == r[k],
                "constant iteration over the collection differs at %zu", k);
    }
    PBT_CHECK(k == r.size(), "constant iteration over the collection gives %zu of %zu", k, r.size());
  }
  return r;
}

inline std::string show_multiset(std::vector<Val> v) {
  std::sort(v.begin(), v.end());
  std::string o = "{";
  for (auto &x : v)
    o += show(x) + " ";
  return o + "}";
}

inline bool same_multiset(std::vector<Val> a, std::vector<Val> b) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  return a == b;
}

template <typename T>
void check_reads(const T &t, const World &w, const std::vector<Cell> &m,
                 const char *what) {
  for (size_t i = 0; i < w.flds.size(); ++i) {
    const Fld &f = w.flds[i];
    const Cell &c = m[i];
    if (f.collection) {
      std::vector<Val> got = read_collection(t, f);
      PBT_CHECK(same_multiset(got, c.coll), "%s: collection %s reads %s, expected %s",
                what, show(f).c_str(), show_multiset(got).c_str(),
                show_multiset(c.coll).c_str());
      PBT_CHECK(t.is_present(f.tok) == !c.coll.empty(),
                "%s: is_present of collection %s", what, show(f).c_str());
      continue;
    }
    std::optional<Val> got = read_single(t, f, what);
    PBT_CHECK(got.has_value() == c.v.has_value(), "%s: field %s is %s, expected %s",
              what, show(f).c_str(), got ? show(*got).c_str() : "absent",
              c.v ? show(*c.v).c_str() : "absent");
    PBT_CHECK(got == c.v, "%s: field %s reads %s, expected %s", what, show(f).c_str(),
              show(*got).c_str(), show(*c.v).c_str());
    // the accessor sees the same thing
    auto &ct = reader_for_index(t);
    const auto acc = ct[f.tok];
    PBT_CHECK(acc.exist() == c.v.has_value(), "%s: %s: accessor.exist()=%d", what,
              show(f).c_str(), int(acc.exist()));
    if (c.v)
      PBT_CHECK(acc_value(acc, f.g) == *c.v, "%s: %s: accessor reads another value",
                what, show(f).c_str());
  }
}

// compare the serialised form, read by the independent reader, with the model
inline ref::Result check_bytes(const void *p, size_t bytes, const World &w,
                               const std::vector<Cell> &m, const char *what) {
  ref::Result r = ref::parse(p, bytes, w.sd);
  PBT_CHECK(r.verdict != ref::REJECT, "%s: serialised form is malformed: %s", what,
            r.why.c_str());
  // loose fields
  std::map<std::pair<int, unsigned>, std::vector<Val>> got, want;
  for (auto &e : r.loose)
    got[{int(e.g), e.id}].push_back(e.v);
  for (size_t i = 0; i < w.flds.size(); ++i) {
    const Fld &f = w.flds[i];
    if (f.preplaced)
      continue;
    std::pair<int, unsigned> k{int(f.g), f.tok.id()};
    if (f.collection && !m[i].coll.empty())
      want[k] = m[i].coll;
    else if (!f.collection && m[i].v)
      want[k] = {*m[i].v};
  }
  for (auto &x : got)
    std::sort(x.second.begin(), x.second.end());
  for (auto &x : want)
    std::sort(x.second.begin(), x.second.end());
  if (got != want) {
    std::string a, b;
    for (auto &x : got)
      a += pbt::fmt("%d#%u=", x.first.first, x.first.second) +
           show_multiset(x.second);
    for (auto &x : want)
      b += pbt::fmt("%d#%u=", x.first.first, x.first.second) +
           show_multiset(x.second);
    pbt::fail("%s: serialised loose fields are %s, expected %s", what, a.c_str(),
              b.c_str());
  }
  for (size_t i = 0; i < w.flds.size(); ++i) {
    const Fld &f = w.flds[i];
    if (!f.preplaced)
      continue;
    for (size_t k = 0; k < w.sd.pre.size(); ++k)
      if (w.sd.pre[k].offset == size_t(f.tok.preplaced_offset())) {
        PBT_CHECK(r.slot_present[k] == m[i].v.has_value(),
                  "%s: serialised slot of %s: present=%d", what, show(f).c_str(),
                  int(r.slot_present[k]));
        if (m[i].v)
          PBT_CHECK(r.slots[k] == *m[i].v, "%s: serialised slot of %s is %s, expected %s",
                    what, show(f).c_str(), show(r.slots[k]).c_str(),
                    show(*m[i].v).c_str());
      }
  }
  return r;
}

// units the content of the model takes in the most compact form
inline size_t compact_units(const World &w, const std::vector<Cell> &m) {
  size_t u = 1 + (w.sd.preplaced_bytes + 3) / 4;
  for (size_t i = 0; i < w.flds.size(); ++i) {
    const Fld &f = w.flds[i];
    auto add = [&](const Val &v) {
      if (f.preplaced)
        u += is_stretchy(f.g) ? stretchy_units(f.g, v) : 0;
      else
        u += 1 + units_for(f.g, v);
    };
    if (f.collection)
      for (auto &v : m[i].coll)
        add(v);
    else if (m[i].v)
      add(*m[i].v);
  }
  return u;
}

} // namespace fp
