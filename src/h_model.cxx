// Model-based (stateful) testing of modifiable tuples: C01 C02 C03 C04 C07 C11 C12
#include "world.h"

using namespace fp;

namespace {

struct Opt {
  WorldOpt world;
  GenOpt gen;
  unsigned max_ops = 40;
  unsigned small_percent = 50; // small, easily exhausted buffers
  // operation weights
  unsigned set = 30, erase = 10, insert = 20, erase_elem = 8, erase_range = 3,
           edit_elem = 6, edit_single = 5, tidy = 4, reopen = 3, bad = 4,
           reset = 1, tune = 6;
  bool accounting = false; // C03
  bool iteration = false;  // C11
  bool every_ser = false;  // C02
};

// --- outcome of an attempted modification -------------------------------------
template <typename F> std::string attempt(F f) {
  try {
    f();
    return "";
  } catch (const fptu::insufficient_space &) {
    return "insufficient_space";
  } catch (const fptu::tuple_overflow &) {
    return "tuple_overflow";
  } catch (const fptu::tuple_too_large &) {
    return "tuple_too_large";
  } catch (const fptu::value_too_long &) {
    return "value_too_long";
  } catch (const fptu::type_mismatch &) {
    return "type_mismatch";
  } catch (const fptu::collection_unallowed &) {
    return "collection_unallowed";
  } catch (const fptu::collection_required &) {
    return "collection_required";
  } catch (const fptu::field_absent &) {
    return "field_absent";
  } catch (const fptu::value_out_of_range &) {
    return "value_out_of_range";
  } catch (const fptu::value_is_denil &) {
    return "value_is_denil";
  } catch (const fptu::logic_error &) {
    return "logic_error";
  } catch (const fptu::invalid_argument &) {
    return "invalid_argument";
  }
}

struct Machine {
  Src &s;
  Ctx &ctx;
  const Opt &o;
  World w;
  std::vector<Cell> m;
  unsigned refused = 0, holes_seen = 0;
  bool growing = false; // the tuple grows by itself and must never refuse
  static bool can_grow(const fptu::tuple_rw_managed &) { return true; }
  static bool can_grow(const fptu::tuple_rw_fixed &) { return false; }

  Machine(Src &s_, Ctx &c_, const Opt &o_) : s(s_), ctx(c_), o(o_) {
    w = gen_world(s, ctx, o.world);
    m = w.initial;
  }

  template <typename T> void check_accounting(const T &t, const ref::Result &r) {
    const size_t pre = (w.sd.preplaced_bytes + 3) / 4;
    PBT_CHECK(t.capacity() / 4 == t.head_space() + t.index_size() +
                                      t.payload_size_bytes() / 4 +
                                      t.tail_space_units(),
              "free and occupied space do not sum up to the capacity: %zu != %zu+%zu+%zu+%zu",
              t.capacity() / 4, t.head_space(), t.index_size(),
              t.payload_size_bytes() / 4, t.tail_space_units());
    PBT_CHECK(t.tail_space_bytes() == t.tail_space_units() * 4, "tail space units/bytes");
    PBT_CHECK(t.junk_bytes() == t.junk_units() * 4, "junk units/bytes");
    PBT_CHECK(t.brutto_size() == r.units * 4, "brutto_size %zu, serialised %zu",
              t.brutto_size(), r.units * 4);
    PBT_CHECK(t.index_size() == r.index_size, "index_size %zu vs %zu",
              t.index_size(), r.index_size);
    PBT_CHECK(t.junk_units() == r.holes_count + r.holes_volume,
              "junk %zu units, but the holes take %zu+%zu", t.junk_units(),
              r.holes_count, r.holes_volume);
    PBT_CHECK(t.loose_count() == r.index_size - r.holes_count, "loose_count %zu vs %zu",
              t.loose_count(), r.index_size - r.holes_count);
    PBT_CHECK(t.netto_size() == compact_units(w, m) * 4,
              "netto_size %zu, but the content takes %zu", t.netto_size(),
              compact_units(w, m) * 4);
    PBT_CHECK(t.netto_size() == t.brutto_size() - t.junk_bytes(),
              "netto %zu != brutto %zu - junk %zu", t.netto_size(), t.brutto_size(),
              t.junk_bytes());
    PBT_CHECK(t.empty() == (r.units == 1 + r.holes_count), "empty() is %d", int(t.empty()));
    PBT_CHECK(t.take_weak_asis().empty() == (r.units == 1), "empty() of the serialised form");
    PBT_CHECK(t.have_preplaced() == (pre != 0), "have_preplaced() is %d", int(t.have_preplaced()));
  }

  template <typename T> void check_iteration(const T &t, const char *what) {
    std::map<std::pair<int, unsigned>, std::vector<Val>> want, got, got2;
    std::map<int, std::pair<size_t, Val>> pre_want;
    for (size_t i = 0; i < w.flds.size(); ++i) {
      const Fld &f = w.flds[i];
      if (f.preplaced)
        continue;
      auto &x = want[{int(f.g), f.tok.id()}];
      x = f.collection ? m[i].coll
                       : m[i].v ? std::vector<Val>{*m[i].v} : std::vector<Val>();
      if (x.empty())
        want.erase({int(f.g), f.tok.id()});
    }
    size_t n = 0;
    for (auto it = t.begin_loose(); it != t.end_loose(); ++it) {
      PBT_CHECK(++n < 20000, "endless iteration");
      if (it.field_type() == fptu::hole)
        continue; // deleted slot
      got[{int(it.field_type()), it.field_id()}].push_back(
          acc_value(*it, it.field_type()));
      // which field is it: by comparing with a token, and by asking the schema
      for (auto &f : w.flds) {
        const bool same = !f.preplaced && f.g == it.field_type() && f.tok.id() == it.field_id();
        PBT_CHECK((it == f.tok) == same && (it != f.tok) == !same, "%s: loose iterator at %s#%u %s %s", what,
                  ginfo(it.field_type()).name, it.field_id(), same ? "does not equal" : "equals", show(f).c_str());
        if (same && w.schema())
          PBT_CHECK(it.field_token(w.schema()) == f.tok && it.field_token_nothow(w.schema()) == f.tok,
                    "%s: token of the field under a loose iterator is not %s", what, show(f).c_str());
        if (same)
          PBT_CHECK(it.field_token(f.collection, f.discernible).tag() == token(f.g, f.tok.id(), f.collection, f.discernible).tag(),
                    "%s: token made by a loose iterator is not %s", what, show(f).c_str());
      }
      bool threw = false;
      try {
        token none = it.field_token(static_cast<const fptu::schema *>(nullptr));
        // the result must be used: the function is declared as pure
        static volatile bool sink;
        sink = none.is_valid();
      } catch (const fptu::schema_no_such_field &) {
        threw = true;
      }
      PBT_CHECK(threw, "%s: a token of no schema", what);
    }
    PBT_CHECK(size_t(t.end_loose() - t.begin_loose()) == n, "%s: distance", what);
    { // the other ways of stepping visit the same elements
      auto a = t.begin_loose();
      auto b = t.begin_loose();
      size_t k = 0;
      std::vector<uint32_t> fwd, back;
      for (; a != t.end_loose(); ++a, ++k) {
        PBT_CHECK(t.begin_loose() + ptrdiff_t(k) == a, "%s: begin + %zu", what, k);
        PBT_CHECK(t.end_loose() - ptrdiff_t(n - k) == a, "%s: end - %zu", what, n - k);
        PBT_CHECK(a < t.end_loose() && a >= t.begin_loose(), "%s: order of iterators", what);
        auto c = b++;
        PBT_CHECK(c == a && b == a + 1, "%s: post-increment", what);
        fwd.push_back(uint32_t(a.field_type()) << 16 | (a.field_type() == fptu::hole ? 0 : a.field_id()));
      }
      for (auto r = t.end_loose(); r != t.begin_loose();) {
        auto c = r--;
        PBT_CHECK(c - r == 1, "%s: post-decrement", what);
        back.push_back(uint32_t(r.field_type()) << 16 | (r.field_type() == fptu::hole ? 0 : r.field_id()));
      }
      std::reverse(back.begin(), back.end());
      PBT_CHECK(fwd == back, "%s: backward iteration visits other fields", what);
    }
    auto norm = [](std::map<std::pair<int, unsigned>, std::vector<Val>> &x) {
      for (auto &i : x)
        std::sort(i.second.begin(), i.second.end());
    };
    norm(want);
    norm(got);
    PBT_CHECK(got == want, "%s: iteration over loose fields visits something else than the present fields", what);
    // all fields, schema aware
    size_t pre_seen = 0;
    std::set<ptrdiff_t> offsets;
    n = 0;
    auto walk = [&](auto b, auto e) {
      for (auto it = b; it != e; ++it) {
        PBT_CHECK(++n < 20000, "endless iteration");
        const token tok = (*it).token();
        if (tok.is_preplaced() || it.field_type() != fptu::hole)
          for (auto &f : w.flds) {
            const bool same = f.preplaced == tok.is_preplaced() && f.g == it.field_type() &&
                              (f.preplaced ? f.tok.preplaced_offset() == tok.preplaced_offset() : f.tok.id() == tok.id());
            PBT_CHECK((it == f.tok) == same && (it != f.tok) == !same, "%s: iterator %s %s", what,
                      same ? "does not equal" : "equals", show(f).c_str());
            if (same && w.schema())
              PBT_CHECK(it.field_token() == f.tok && it.field_token_nothrow() == f.tok,
                        "%s: token of the field under an iterator is not %s", what, show(f).c_str());
          }
        if (tok.is_preplaced()) {
          bool found = false;
          for (size_t i = 0; i < w.flds.size(); ++i)
            if (w.flds[i].preplaced && w.flds[i].tok == tok) {
              found = true;
              PBT_CHECK(m[i].v.has_value(), "%s: iteration visits absent %s", what,
                        show(w.flds[i]).c_str());
              PBT_CHECK(acc_value(*it, w.flds[i].g) == *m[i].v,
                        "%s: iteration gives a wrong value of %s", what,
                        show(w.flds[i]).c_str());
            }
          PBT_CHECK(found, "%s: iteration visits an unknown pre-placed field", what);
          PBT_CHECK(offsets.insert(tok.preplaced_offset()).second,
                    "%s: iteration visits a pre-placed field twice", what);
          pre_seen++;
        } else {
          auto a = *it;
          if (it.field_type() == fptu::hole)
            continue; // deleted slot
          got2[{int(it.field_type()), unsigned(a.token().id())}].push_back(
              acc_value(a, it.field_type()));
        }
      }
      // backwards, and with the postfix operators
      std::vector<std::pair<bool, uint32_t>> fwd, back;
      auto id = [](const auto &i) {
        const token tok = (*i).token();
        return std::make_pair(tok.is_preplaced(), uint32_t(tok.tag()));
      };
      for (auto it = b; it != e;) {
        auto c = it++;
        auto d = c;
        PBT_CHECK(++d == it, "%s: postfix and prefix increments differ", what);
        fwd.push_back(id(c));
      }
      for (auto it = e; it != b;) {
        auto c = it--;
        auto d = c;
        PBT_CHECK(--d == it, "%s: postfix and prefix decrements differ", what);
        back.push_back(id(it));
        PBT_CHECK(back.size() < 20000, "endless iteration");
      }
      std::reverse(back.begin(), back.end());
      PBT_CHECK(fwd == back, "%s: backward iteration over all fields visits something else", what);
    };
    field_range(t, walk);
    size_t pre_present = 0;
    for (size_t i = 0; i < w.flds.size(); ++i)
      pre_present += w.flds[i].preplaced && m[i].v;
    PBT_CHECK(pre_seen == pre_present, "%s: iteration visits %zu pre-placed fields of %zu present", what, pre_seen, pre_present);
    norm(got2);
    PBT_CHECK(got2 == want, "%s: iteration over all fields misses or repeats loose fields", what);
  }
  template <typename F> void field_range(const fptu::tuple_rw_fixed &t, F f) {
    f(t.cbegin(), t.cend());
  }
  template <typename F> void field_range(const fptu::tuple_ro_weak &t, F f) {
    f(t.cbegin(w.schema()), t.cend(w.schema()));
  }

  template <typename T> ref::Result check_all(const T &t, const char *what) {
    const char *bug = t.validate();
    PBT_CHECK(!bug, "%s: self-check reports: %s", what, bug);
    check_reads(t, w, m, what);
    fptu::tuple_ro_weak ro = t.take_weak_asis();
    ref::Result r = check_bytes(ro.data(), ro.size(), w, m, what);
    if (r.holes_count)
      holes_seen++;
    if (o.accounting)
      check_accounting(t, r);
    if (o.iteration)
      check_iteration(t, what);
    if (o.every_ser || s.chance(15)) {
      // exactly-sized copy at another address
      std::unique_ptr<uint32_t[]> copy(new uint32_t[ro.size() / 4]);
      memcpy(copy.get(), ro.data(), ro.size());
      bug = fptu::tuple_ro_weak::validate(copy.get(), ro.size(), w.schema());
      PBT_CHECK(!bug, "%s: validation of the serialised form: %s", what, bug);
      fptu::tuple_ro_weak again(copy.get(), ro.size(), w.schema(), fptu::enforce_validation);
      check_reads(again, w, m, "serialised copy");
      if (o.iteration)
        check_iteration(again, "serialised copy");
      PBT_CHECK(again.size() == ro.size(), "size of the serialised copy");
      PBT_CHECK(memcmp(copy.get(), ro.data(), ro.size()) == 0, "reading changed the bytes");
    }
    return r;
  }

  size_t fields_used() const {
    size_t n = 0;
    for (size_t i = 0; i < w.flds.size(); ++i)
      n += w.flds[i].preplaced ? 0 : w.flds[i].collection ? m[i].coll.size() : m[i].v ? 1 : 0;
    return n;
  }
  size_t wanted = 0; // units requested by the current operation
  template <typename T> void need_space_rule(const T &t, size_t units, bool &must) {
    wanted = units;
    must = t.head_space() >= 1 && t.tail_space_units() >= units;
  }

  void note_refusal(const std::string &r, const char *op, bool must_fit) {
    if (r.empty())
      return;
    refused++;
    ctx.label(std::string("refused: ") + r);
    if (r == "insufficient_space") {
      PBT_CHECK(!growing, "%s: a self-growing tuple ran out of space", op);
      PBT_CHECK(!must_fit, "%s: refused for lack of space although it fits in the reported free space", op);
      return;
    }
    if ((r == "tuple_overflow" || r == "tuple_too_large") && growing) {
      PBT_CHECK(compact_units(w, m) + wanted + 1 > 65535 || fields_used() >= 8191,
                "%s: %s with only %zu units of content, %zu more wanted, %zu fields", op,
                r.c_str(), compact_units(w, m), wanted, fields_used());
      return;
    }
    pbt::fail("%s: unexpectedly refused with %s", op, r.c_str());
  }

  template <typename T> void op_set(T &t, size_t i) {
    const Fld &f = w.flds[i];
    Val v = gen_value(s, f.g, o.gen);
    if (s.chance(10))
      v = natural_empty(f.g);
    else if (!is_stretchy(f.g) && s.chance(10))
      v = denil(f.g);
    ctx.log("set %s = %s", f.name.c_str(), show(v).c_str());
    bool must;
    need_space_rule(t, write_means_absent(f, v) ? 0 : units_for(f.g, v), must);
    std::string r = attempt([&] { set_value(t, f.tok, f.g, v); });
    note_refusal(r, "set", must);
    if (f.preplaced && !is_stretchy(f.g))
      PBT_CHECK(r.empty(), "set of a pre-placed fixed-size field was refused");
    if (r.empty())
      m[i].v = written(f, v);
    else
      ctx.log("  refused: %s", r.c_str());
  }
  // one accessor, assigned one or several times: it follows what it has stored
  template <typename T> void op_edit_single(T &t, size_t i) {
    const Fld &f = w.flds[i];
    const unsigned times = s.chance(30) ? 2 + s.below(3) : 1;
    std::string r;
    auto a = t[f.tok];
    for (unsigned k = 0; k < times && r.empty(); ++k) {
      Val v = gen_value(s, f.g, o.gen);
      if (times > 1 && s.chance(30))
        v = natural_empty(f.g);
      const unsigned way = unsigned(s.below(4));
      ctx.log("accessor %s %s = %s", way < 3 ? "assign" : "set", f.name.c_str(), show(v).c_str());
      bool must;
      need_space_rule(t, write_means_absent(f, v) ? 0 : units_for(f.g, v), must);
      r = attempt([&] {
        if (way < 3)
          acc_assign(a, f.g, v, way);
        else
          acc_set(a, f.g, v);
      });
      if (r == "insufficient_space" && growing && !must)
        r = "accessors do not grow"; // only set_/insert_ of the tuple grow
      else
        note_refusal(r, "accessor set", must);
      if (r.empty()) {
        m[i].v = written(f, v);
        PBT_CHECK(a.exist() == m[i].v.has_value(), "the accessor assigned with %s says exist()=%d", show(v).c_str(),
                  int(a.exist()));
        if (m[i].v)
          PBT_CHECK(acc_value(a, f.g) == *m[i].v, "the accessor assigned with %s reads another value",
                    show(v).c_str());
      }
    }
  }
  template <typename T> void op_erase(T &t, size_t i) {
    const Fld &f = w.flds[i];
    ctx.log("erase %s", f.name.c_str());
    bool must, ret = false;
    need_space_rule(t, 0, must);
    const bool existed = f.collection ? !m[i].coll.empty() : m[i].v.has_value();
    std::string r = attempt([&] { ret = t.erase(f.tok); });
    note_refusal(r, "erase", must);
    if (!f.preplaced)
      PBT_CHECK(r.empty(), "erase of a loose field was refused");
    if (r.empty()) {
      PBT_CHECK(ret == existed, "erase %s returned %d", show(f).c_str(), int(ret));
      m[i].coll.clear();
      m[i].v = f.collection ? std::nullopt : erased(f);
    }
  }
  template <typename T> void op_insert(T &t, size_t i) {
    const Fld &f = w.flds[i];
    Val v = gen_value(s, f.g, o.gen);
    ctx.log("insert %s += %s", f.name.c_str(), show(v).c_str());
    bool must;
    need_space_rule(t, insert_means_nothing(f, v) ? 0 : units_for(f.g, v), must);
    std::string r = attempt([&] {
      auto it = insert_value(t, f.tok, f.g, v);
      if (!insert_means_nothing(f, v)) {
        Val got = elem_value(*it, f);
        PBT_CHECK(got == v, "iterator returned by insert reads %s", show(got).c_str());
      }
    });
    note_refusal(r, "insert", must);
    if (r.empty() && !insert_means_nothing(f, v))
      m[i].coll.push_back(v);
    if (!r.empty())
      ctx.log("  refused: %s", r.c_str());
  }
  template <typename T> void op_erase_elem(T &t, size_t i) {
    const Fld &f = w.flds[i];
    if (m[i].coll.empty())
      return;
    size_t k = s.below(m[i].coll.size());
    auto c = t.collection(f.tok);
    auto it = c.begin();
    for (size_t j = 0; j < k; ++j)
      ++it;
    PBT_CHECK(it != c.end(), "collection ended early");
    Val v = elem_value(*it, f);
    ctx.log("erase element %zu of %s = %s", k, f.name.c_str(), show(v).c_str());
    bool r = t.erase(it);
    PBT_CHECK(r, "erase of an existing element returned false");
    auto p = std::find(m[i].coll.begin(), m[i].coll.end(), v);
    PBT_CHECK(p != m[i].coll.end(), "iterator gave a value that is not in the collection");
    m[i].coll.erase(p);
  }
  template <typename T> void op_erase_range(T &t, size_t i) {
    const Fld &f = w.flds[i];
    const size_t n = m[i].coll.size();
    size_t a = s.below(n + 1), b = a + s.below(n - a + 1);
    auto c = t.collection(f.tok);
    const bool whole = s.chance(20);
    if (whole)
      a = 0, b = n;
    auto from = c.begin();
    for (size_t j = 0; j < a; ++j)
      ++from;
    auto to = from;
    std::vector<Val> gone;
    for (size_t j = a; j < b; ++j) {
      gone.push_back(elem_value(*to, f));
      ++to;
    }
    ctx.log("erase range [%zu,%zu) of %zu of %s%s", a, b, n, f.name.c_str(),
            whole ? " (collection)" : "");
    size_t cnt = whole ? t.erase(c) : t.erase(from, to);
    PBT_CHECK(cnt == b - a, "erase of a range of %zu elements returned %zu", b - a, cnt);
    for (auto &v : gone) {
      auto p = std::find(m[i].coll.begin(), m[i].coll.end(), v);
      PBT_CHECK(p != m[i].coll.end(), "iterator gave a value that is not in the collection");
      m[i].coll.erase(p);
    }
  }
  template <typename T> void op_edit_elem(T &t, size_t i) {
    const Fld &f = w.flds[i];
    if (m[i].coll.empty())
      return;
    size_t k = s.below(m[i].coll.size());
    auto c = t.collection(f.tok);
    auto it = c.begin();
    for (size_t j = 0; j < k; ++j)
      ++it;
    Val old = elem_value(*it, f);
    Val v = gen_value(s, f.g, o.gen);
    ctx.log("edit element %zu of %s: %s -> %s", k, f.name.c_str(),
            show(old).c_str(), show(v).c_str());
    bool must;
    need_space_rule(t, write_means_absent(f, v) ? 0 : units_for(f.g, v), must);
    std::string r = attempt([&] {
      auto a = *it;
      acc_set(a, f.g, v);
    });
    if (r == "insufficient_space" && growing && !must)
      r = "accessors do not grow";
    else
      note_refusal(r, "element set", must);
    if (r.empty()) {
      auto p = std::find(m[i].coll.begin(), m[i].coll.end(), old);
      PBT_CHECK(p != m[i].coll.end(), "iterator gave a value that is not in the collection");
      if (f.g == fptu::nested && old.empty() && write_means_absent(f, v))
        return; // a null element stays
      m[i].coll.erase(p);
      if (!write_means_absent(f, v))
        m[i].coll.push_back(v);
    }
  }
  template <typename T> void op_tidy(T &t) {
    const size_t brutto = t.brutto_size(), junk = t.junk_bytes();
    switch (s.below(6)) {
    case 4:
    case 5: { // serialising with or without optimisation
      const bool dont = s.chance(50), weak = s.chance(50);
      ctx.log("take %s%s", weak ? "weak" : "clone", dont ? " as is" : "");
      bool moved;
      Val bytes;
      if (weak) {
        auto p = t.take_weak(dont);
        bytes = Val(static_cast<const char *>(p.first.data()), p.first.size());
        moved = p.second;
      } else {
        auto p = t.take_managed_clone(dont);
        bytes = Val(static_cast<const char *>(p.first.data()), p.first.size());
        moved = p.second;
      }
      if (dont) {
        PBT_CHECK(!moved && t.brutto_size() == brutto && t.junk_bytes() == junk && bytes.size() == brutto,
                  "taken as is, but was changed: %zu bytes with %zu of junk became %zu with %zu, taken %zu", brutto, junk, t.brutto_size(), t.junk_bytes(), bytes.size());
        return;
      }
      PBT_CHECK(moved || !junk, "junk was removed, but no invalidation is reported");
      PBT_CHECK(bytes.size() == brutto - junk, "taken %zu bytes of %zu with %zu of junk", bytes.size(), brutto, junk);
      break;
    }
    case 0:
      ctx.log("compactify");
      t.compactify();
      break;
    case 1:
      ctx.log("sort_index(force)");
      t.sort_index(true);
      return;
    case 2:
      ctx.log("sort_index");
      t.sort_index(false);
      return;
    default:
      ctx.log("optimize");
      t.optimize();
      break;
    }
    PBT_CHECK(t.junk_units() == 0, "junk is left after compaction");
    PBT_CHECK(t.brutto_size() == brutto - junk, "compaction recovered %zu of %zu bytes of junk",
              brutto - t.brutto_size(), junk);
    fptu::tuple_ro_weak ro = t.take_weak_asis();
    const char *bug = ro.validate(w.schema(), true);
    PBT_CHECK(!bug, "after compaction: %s", bug);
    if (junk)
      ctx.label("compactions of real junk");
  }
  template <typename T> T op_reopen(T &&t) {
    size_t more_items = s.below(8), more_bytes = s.chance(50) ? s.below(4) * 40 : s.below(120);
    if (s.chance(2)) {
      more_items = fptu::max_fields - s.below(3) * s.below(4000);
      more_bytes = s.chance(50) ? more_bytes : fptu::max_tuple_bytes_netto - s.below(3) * s.below(100000);
    }
    const bool optimized = s.chance(40);
    fptu::tuple_ro_weak ro;
    if (optimized)
      ro = t.take_weak_optimized().first;
    else
      ro = t.take_weak_asis();
    size_t how = s.below(5);
    ctx.log("re-open: way %zu, %s, +%zu items +%zu bytes", how,
            optimized ? "optimized" : "as is", more_items, more_bytes);
    ctx.label("re-opened");
    std::unique_ptr<uint32_t[]> copy(new uint32_t[ro.size() / 4]);
    memcpy(copy.get(), ro.data(), ro.size());
    // the re-opened tuple has the room that was asked for
    auto roomy = [&](T n) {
      if (ro.size() + more_items * 4 + more_bytes < 200000 && t.index_size() + more_items < 8000) {
        PBT_CHECK(n.head_space() >= more_items, "re-opened: room for %zu fields, %zu were asked for", size_t(n.head_space()), more_items);
        PBT_CHECK(n.tail_space_bytes() >= more_bytes, "re-opened: room for %zu bytes, %zu were asked for", size_t(n.tail_space_bytes()), more_bytes);
      }
      return n;
    };
    switch (how) {
    case 0:
      return roomy(T(copy.get(), ro.size(), more_items, more_bytes, w.schema()));
    case 1: {
      fptu::tuple_ro_weak c(copy.get(), ro.size(), w.schema());
      return roomy(T(T::clone(c, more_items, more_bytes, w.schema())));
    }
    case 2: {
      fptu::tuple_ro_managed ro2 = t.move_to_ro(s.chance(50));
      check_reads(ro2, w, m, "moved to read-only");
      return T(std::move(ro2));
    }
    case 3: {
      fptu::tuple_ro_managed ro2(copy.get(), ro.size(), w.schema());
      check_reads(ro2, w, m, "managed read-only");
      return roomy(T(T::clone(ro2, more_items, more_bytes, w.schema())));
    }
    default: {
      fptu::tuple_ro_managed ro2 =
          s.chance(50) ? t.take_managed_clone_asis()
                       : t.take_managed_clone_optimized().first;
      check_reads(ro2, w, m, "managed clone");
      check_reads(t, w, m, "original of a clone");
      return roomy(T(T::clone(t, more_items, more_bytes)));
    }
    }
  }
  template <typename T> void op_bad(T &t) {
    size_t i = s.below(w.flds.size());
    const Fld &f = w.flds[i];
    std::string r;
    switch (s.below(6)) {
    case 5: { // a number for something that is not a number
      switch (f.g) {
      case fptu::i8: case fptu::u8: case fptu::i16: case fptu::u16: case fptu::i32: case fptu::u32:
      case fptu::i64: case fptu::u64: case fptu::f32: case fptu::f64: case fptu::d64: case fptu::bin128:
        return;
      default:
        break;
      }
      const int64_t v = int64_t(s.below(100));
      const unsigned way = unsigned(s.below(13));
      ctx.log("bad: number for %s, way %u", f.name.c_str(), way);
      r = attempt([&] {
        switch (way) {
#define BOTH(N, V) if (f.collection) t.insert_##N(f.tok, V); else t.set_##N(f.tok, V); break
        case 0: BOTH(number, int32_t(v));
        case 1: BOTH(number, uint32_t(v));
        case 2: BOTH(number, int64_t(v));
        case 3: BOTH(number, uint64_t(v));
        case 4: BOTH(number, float(v));
        case 5: BOTH(number, double(v));
        case 6: BOTH(integer, int64_t(v));
        case 7: BOTH(integer, uint64_t(v));
        case 8: BOTH(unsigned, int64_t(v));
        case 9: BOTH(unsigned, uint64_t(v));
        case 10: BOTH(float, double(v));
        case 11: BOTH(int128, fptu::int128_t(v));
        default: BOTH(uint128, fptu::uint128_t(v));
#undef BOTH
        }
      });
      PBT_CHECK(r == "type_mismatch", "writing a number (way %u) to %s: %s", way, show(f).c_str(),
                r.empty() ? "accepted" : r.c_str());
      if (!f.collection) {
        const unsigned how = unsigned(s.below(4));
        volatile double sink;
        r = attempt([&] {
          switch (how) {
          case 0: sink = double(t.get_integer(f.tok)); break; // the getters are pure functions
          case 1: sink = double(t.get_unsigned(f.tok)); break;
          case 2: sink = t.get_float(f.tok); break;
          default: sink = double(int64_t(t.get_int128(f.tok))); break;
          }
        });
        PBT_CHECK(r == "type_mismatch", "reading a number (way %u) of %s: %s", how, show(f).c_str(),
                  r.empty() ? "accepted" : r.c_str());
      }
      break;
    }
    case 0: { // wrong type
      genus g = gen_genus(s, 40);
      auto timeish = [](genus x) { return x == fptu::t32 || x == fptu::t64; };
      if (g == f.g || (timeish(g) && timeish(f.g)))
        return;
      Val v = gen_value(s, g, o.gen);
      ctx.log("bad: %s of type %s", f.name.c_str(), ginfo(g).name);
      if (f.collection)
        r = attempt([&] { insert_value(t, f.tok, g, v); });
      else
        r = attempt([&] { set_value(t, f.tok, g, v); });
      PBT_CHECK(r == "type_mismatch", "writing %s to %s: %s", ginfo(g).name,
                show(f).c_str(), r.empty() ? "accepted" : r.c_str());
      if (!f.collection) {
        r = attempt([&] { get_value(t, f.tok, g); });
        PBT_CHECK(r == "type_mismatch", "reading %s as %s: %s", show(f).c_str(),
                  ginfo(g).name, r.empty() ? "accepted" : r.c_str());
      }
      break;
    }
    case 1: {
      Val v = gen_value(s, f.g, o.gen);
      if (f.collection) {
        ctx.log("bad: set of collection %s", f.name.c_str());
        r = attempt([&] { set_value(t, f.tok, f.g, v); });
        PBT_CHECK(r == "collection_unallowed", "set of collection %s: %s",
                  show(f).c_str(), r.empty() ? "accepted" : r.c_str());
      } else {
        ctx.log("bad: insert to %s", f.name.c_str());
        r = attempt([&] { insert_value(t, f.tok, f.g, v); });
        PBT_CHECK(r == "collection_required", "insert to single %s: %s",
                  show(f).c_str(), r.empty() ? "accepted" : r.c_str());
      }
      break;
    }
    case 2:
    case 3: { // too long
      if (f.g != fptu::property && f.g != fptu::varbin && f.g != fptu::text)
        return;
      size_t n = f.g == fptu::property ? 256 + s.below(2000)
                                       : 262144 + s.below(50000);
      Val v(n + (f.g == fptu::property), 'x');
      ctx.log("bad: %zu bytes to %s", n, f.name.c_str());
      if (f.collection)
        r = attempt([&] { insert_value(t, f.tok, f.g, v); });
      else
        r = attempt([&] { set_value(t, f.tok, f.g, v); });
      PBT_CHECK(r == "value_too_long", "too long value for %s: %s", show(f).c_str(),
                r.empty() ? "accepted" : r.c_str());
      break;
    }
    default: { // does not fit the buffer
      if (!is_stretchy(f.g) || f.g == fptu::property || f.g == fptu::nested || can_grow(t))
        return;
      Val v(t.capacity() + 16, 'y');
      if (v.size() > 60000)
        return;
      ctx.log("bad: %zu bytes to %s", v.size(), f.name.c_str());
      if (f.collection)
        r = attempt([&] { insert_value(t, f.tok, f.g, v); });
      else
        r = attempt([&] { set_value(t, f.tok, f.g, v); });
      PBT_CHECK(r == "insufficient_space", "value larger than the buffer for %s: %s",
                show(f).c_str(), r.empty() ? "accepted" : r.c_str());
      break;
    }
    }
    refused++;
    ctx.label("invalid requests");
  }

  // writes sized to land exactly at the end of the free space or of a hole
  template <typename T> void op_tuned(T &t) {
    std::vector<size_t> c;
    for (size_t i = 0; i < w.flds.size(); ++i)
      if (w.flds[i].g == fptu::varbin || w.flds[i].g == fptu::text)
        c.push_back(i);
    if (c.empty())
      return;
    size_t i = s.pick(c);
    const Fld &f = w.flds[i];
    size_t room = t.tail_space_units();
    if (s.chance(40) && t.junk_units())
      room = s.below(t.junk_units() + 1);
    if (room > 2000)
      return;
    long bytes = long(room) * 4 - 4 + long(s.below(9)) - 4;
    if (bytes < 1)
      bytes = 1;
    Val v = s.bytes(size_t(bytes));
    ctx.log("tuned write %s = %s (tail %zu junk %zu)", f.name.c_str(),
            show(v).c_str(), t.tail_space_units(), t.junk_units());
    bool must;
    need_space_rule(t, units_for(f.g, v), must);
    std::string r = attempt([&] {
      if (f.collection)
        insert_value(t, f.tok, f.g, v);
      else
        set_value(t, f.tok, f.g, v);
    });
    note_refusal(r, "tuned write", must);
    if (r.empty()) {
      if (f.collection)
        m[i].coll.push_back(v);
      else
        m[i].v = v;
    } else
      ctx.log("  refused: %s", r.c_str());
  }

  // C12: histories that come near the limits of the format
  void run_limits() {
    using T = fptu::tuple_rw_managed;
    growing = true;
    std::vector<size_t> colls, big;
    for (size_t i = 0; i < w.flds.size(); ++i) {
      if (w.flds[i].collection)
        colls.push_back(i);
      if (w.flds[i].g == fptu::varbin || w.flds[i].g == fptu::text)
        big.push_back(i);
    }
    std::unique_ptr<T> t(new T(s.below(40), s.below(400), w.schema()));
    const unsigned n = 2 + unsigned(s.below(o.max_ops));
    unsigned done = 0;
    for (unsigned k = 0; k < n && !s.exhausted(); ++k) {
      const char *name = "?";
      bool must = false;
      switch (s.weighted({35, 40, 15, 5, 5, 10})) {
      case 0: { // many small elements
        if (colls.empty())
          continue;
        const size_t i = s.pick(colls);
        const Fld &f = w.flds[i];
        GenOpt small;
        small.max_len = 6;
        small.big_percent = 0;
        Val v = gen_value(s, f.g, small);
        if (insert_means_nothing(f, v))
          continue;
        const long used = long(fields_used());
        long cnt = s.chance(40) ? 8191 - used + long(s.below(5)) - 2
                                : long(1 + s.below(3000));
        if (cnt < 1)
          cnt = 1;
        ctx.log("insert %ld times %s += %s (%ld fields)", cnt, f.name.c_str(),
                show(v).c_str(), used);
        for (long j = 0; j < cnt; ++j) {
          wanted = units_for(f.g, v);
          std::string r = attempt([&] { insert_value(*t, f.tok, f.g, v); });
          if (!r.empty()) {
            ctx.log("  refused at %ld: %s", j, r.c_str());
            note_refusal(r, "bulk insert", false);
            const char *bug = t->validate();
            PBT_CHECK(!bug, "after a refusal: %s", bug);
            ctx.label("format limit reached");
            break;
          }
          m[i].coll.push_back(v);
        }
        PBT_CHECK(fields_used() <= 8191, "more fields than the format allows");
        name = "bulk insert";
        break;
      }
      case 1: { // large value
        if (big.empty())
          continue;
        const size_t i = s.pick(big);
        const Fld &f = w.flds[i];
        const size_t have = compact_units(w, m);
        long room = 65535 - long(have) - 1;
        long units = s.chance(50) ? room + long(s.below(9)) - 5
                                  : long(s.below(size_t(std::max(2l, room))));
        const size_t most = f.g == fptu::text ? 131000 : 65533 * 4;
        long bytes = std::max(1l, std::min(long(most), units * 4 - long(s.below(5))));
        Val v = s.bytes(8);
        while (long(v.size()) < bytes)
          v.append(v);
        v.resize(size_t(bytes));
        ctx.log("%s %s: %ld bytes with %zu units of content", f.collection ? "insert" : "set",
                f.name.c_str(), bytes, have);
        wanted = units_for(f.g, v);
        const size_t extra = f.collection || (!f.preplaced && !m[i].v) ? 1 : 0;
        const size_t old = f.collection || !m[i].v ? 0 : units_for(f.g, *m[i].v);
        std::string r = attempt([&] {
          if (f.collection)
            insert_value(*t, f.tok, f.g, v);
          else
            set_value(*t, f.tok, f.g, v);
        });
        note_refusal(r, "large value", false);
        if (r.empty()) {
          PBT_CHECK(have - old + wanted + extra <= 65535, "accepted more than the format allows");
          if (f.collection)
            m[i].coll.push_back(v);
          else
            m[i].v = v;
        } else {
          ctx.log("  refused: %s", r.c_str());
          ctx.label("format limit reached");
        }
        name = "large value";
        break;
      }
      case 2: {
        op_erase(*t, s.below(w.flds.size()));
        name = "erase";
        break;
      }
      case 3:
        if (colls.empty())
          continue;
        op_erase_range(*t, s.pick(colls));
        name = "erase range";
        break;
      case 4:
        op_tidy(*t);
        name = "tidy";
        break;
      default: {
        const size_t i = s.below(w.flds.size());
        if (w.flds[i].collection)
          op_insert(*t, i);
        else
          op_set(*t, i);
        name = "small write";
        break;
      }
      }
      (void)must;
      ctx.label(name);
      done++;
      check_all(*t, name);
    }
    if (done >= 3)
      ctx.nontrivial();
  }

  template <typename T> void run() {
    size_t items, bytes;
    if (s.chance(o.small_percent)) {
      items = s.below(7);
      bytes = s.below(40) * 4;
    } else {
      items = 10 + s.below(60);
      bytes = 200 + s.below(3000);
    }
    std::unique_ptr<T> t;
    if (s.chance(3)) {
      const fptu::initiation_scale scale = fptu::initiation_scale(s.below(5));
      ctx.log("tuple of scale %d, schema=%d", int(scale), w.sch ? 1 : 0);
      t.reset(new T(scale, w.schema()));
    } else {
      if (s.chance(2)) {
        items = fptu::max_fields - s.below(3) * s.below(4000);
        if (s.chance(50))
          bytes = fptu::max_tuple_bytes_netto - (w.sch ? w.sch->preplaced_bytes() : 0) - s.below(3) * s.below(100000);
      }
      ctx.log("tuple: %zu items, %zu bytes, schema=%d", items, bytes, w.sch ? 1 : 0);
      t.reset(new T(items, bytes, w.schema()));
      const size_t pre = w.sch ? (w.sch->preplaced_bytes() + 3) & ~size_t(3) : 0;
      PBT_CHECK(t->head_space() >= items && t->tail_space_bytes() >= std::min<size_t>(bytes, fptu::max_tuple_bytes_netto - items * 4 - pre),
                "a tuple for %zu items and %zu bytes has space for %zu and %zu", items, bytes, size_t(t->head_space()), size_t(t->tail_space_bytes()));
    }
    growing = can_grow(*t);
    check_all(*t, "fresh");
    std::vector<size_t> singles, colls;
    for (size_t i = 0; i < w.flds.size(); ++i)
      (w.flds[i].collection ? colls : singles).push_back(i);
    const unsigned n = 1 + unsigned(s.below(o.max_ops));
    unsigned done = 0;
    for (unsigned k = 0; k < n && !s.exhausted(); ++k) {
      const size_t op = s.weighted({o.set, o.erase, o.insert, o.erase_elem,
                                    o.erase_range, o.edit_elem, o.edit_single,
                                    o.tidy, o.reopen, o.bad, o.reset, o.tune});
      const char *name = "?";
      switch (op) {
      case 0:
        if (singles.empty())
          continue;
        op_set(*t, s.pick(singles));
        name = "set";
        break;
      case 1:
        op_erase(*t, s.below(w.flds.size()));
        name = "erase";
        break;
      case 2:
        if (colls.empty())
          continue;
        op_insert(*t, s.pick(colls));
        name = "insert";
        break;
      case 3:
        if (colls.empty())
          continue;
        op_erase_elem(*t, s.pick(colls));
        name = "erase element";
        break;
      case 4:
        if (colls.empty())
          continue;
        op_erase_range(*t, s.pick(colls));
        name = "erase range";
        break;
      case 5:
        if (colls.empty())
          continue;
        op_edit_elem(*t, s.pick(colls));
        name = "edit element";
        break;
      case 6:
        if (singles.empty())
          continue;
        op_edit_single(*t, s.pick(singles));
        name = "edit single";
        break;
      case 7:
        op_tidy(*t);
        name = "tidy";
        break;
      case 8: {
        T fresh(op_reopen<T>(std::move(*t)));
        t.reset(new T(std::move(fresh)));
        name = "re-open";
        break;
      }
      case 9:
        op_bad(*t);
        name = "refused request";
        break;
      case 10:
        ctx.log("reset");
        t->reset();
        m = w.initial;
        name = "reset";
        break;
      default:
        op_tuned(*t);
        name = "tuned";
        break;
      }
      ctx.label(name);
      done++;
      check_all(*t, name);
    }
    if (done >= 5)
      ctx.nontrivial();
    if (holes_seen)
      ctx.label("cases with holes");
    if (refused)
      ctx.label("cases with refusals");
  }
};

void c01(Src &s, Ctx &c) {
  Opt o;
  Machine(s, c, o).run<fptu::tuple_rw_fixed>();
}
void c02(Src &s, Ctx &c) {
  Opt o;
  o.every_ser = true;
  o.reopen = 14;
  o.tidy = 6;
  o.max_ops = 24;
  Machine mm(s, c, o);
  if (s.chance(50))
    mm.run<fptu::tuple_rw_fixed>();
  else {
    mm.run<fptu::tuple_rw_managed>();
  }
}
void c03(Src &s, Ctx &c) {
  Opt o;
  o.accounting = true;
  o.tidy = 8;
  o.max_ops = 40;
  Machine(s, c, o).run<fptu::tuple_rw_fixed>();
}
void c04(Src &s, Ctx &c) {
  Opt o;
  o.small_percent = 85;
  o.bad = 25;
  o.tune = 20;
  o.max_ops = 40;
  Machine(s, c, o).run<fptu::tuple_rw_fixed>();
}
void c07(Src &s, Ctx &c) {
  Opt o;
  o.world.stretchy_percent = 20;
  o.world.preplaced = 60;
  o.world.coll = 10;
  o.world.max_fields = 5;
  o.gen.max_len = 3;
  o.gen.big_percent = 0;
  o.set = 40;
  o.erase = 20;
  o.edit_single = 15;
  o.bad = o.tune = 0;
  o.small_percent = 0;
  o.every_ser = true;
  o.max_ops = 16;
  Machine(s, c, o).run<fptu::tuple_rw_fixed>();
}
void c11(Src &s, Ctx &c) {
  Opt o;
  o.iteration = true;
  o.world.coll = 60;
  o.world.preplaced = 25;
  o.world.max_fields = 6;
  o.insert = 50;
  o.erase_elem = 20;
  o.erase_range = 10;
  o.edit_elem = 10;
  o.small_percent = 10;
  o.gen.max_len = 12;
  o.max_ops = 40;
  Machine(s, c, o).run<fptu::tuple_rw_fixed>();
}
void c12(Src &s, Ctx &c) {
  Opt o;
  o.small_percent = 90;
  o.tidy = 2;
  o.set = 40;
  o.insert = 40;
  o.erase = 4;
  o.erase_elem = 4;
  o.erase_range = 1;
  o.gen.big_percent = 8;
  o.gen.big_len = s.chance(30) ? 130000 : 9000;
  o.max_ops = 60;
  Machine(s, c, o).run<fptu::tuple_rw_managed>();
}

void c12_limits(Src &s, Ctx &c) {
  Opt o;
  o.max_ops = 10;
  o.world.max_fields = 4;
  o.world.coll = 60;
  o.world.stretchy_percent = 60;
  o.gen.max_len = 12;
  Machine(s, c, o).run_limits();
}

} // namespace

int main(int argc, char **argv) {
  return pbt::driver(
      argc, argv,
      {{"map_model", "history of at least 5 generated operations over a generated schema, content compared with the model after each", c01},
       {"round_trip", "as map_model, with serialisation re-read after every operation and frequent re-opening", c02},
       {"accounting", "as map_model, with space figures compared with an independent parse after every operation", c03},
       {"refusals", "history over a small buffer with frequent invalid requests, content compared after each", c04},
       {"nulls", "history over null-sensitive values of all types, presence and reads compared after each", c07},
       {"iteration", "history over collections, every iteration form compared with the model after each operation", c11},
       {"growing_limits", "history of at least 3 operations with thousands of elements and values up to the format limits", c12_limits},
       {"growing", "history over a self-growing tuple of small initial capacity", c12}});
}
