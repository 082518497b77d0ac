From 51a8c6c40a83050b6cd5235d7b942abea95a1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:41 +0000
Subject: [PATCH 01/62] fix: branchless_abs overflowed for the minimal value

The sum of a minimal negative value and its expanded sign is a signed
overflow, so i2a(INT64_MIN) could print '-0'. Do it in unsigned arithmetic.
---
 fast_positive/erthink/erthink_misc.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fast_positive/erthink/erthink_misc.h b/fast_positive/erthink/erthink_misc.h
index 60051e7..4a9c52b 100644
--- a/fast_positive/erthink/erthink_misc.h
+++ b/fast_positive/erthink/erthink_misc.h
@@ -45,8 +45,9 @@ template <typename T> struct branchless_abs {
   cxx11_constexpr branchless_abs(const T value)
       : expanded_sign(signed_type(value) >>
                       (sizeof(signed_type) * CHAR_BIT - 1)),
-        unsigned_abs(unsigned_type((signed_type(value) + expanded_sign) ^
-                                   expanded_sign)) {
+        unsigned_abs(unsigned_type(
+            (unsigned_type(value) + unsigned_type(expanded_sign)) ^
+            unsigned_type(expanded_sign))) {
     static_assert(((INT32_MIN >> 5) >> 29) == -1,
                   "requires arithmetic shift with sign expansion");
   }
-- 
2.43.0


From 2796765823f9802c322aca0926d928f0a614321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:33 +0000
Subject: [PATCH 02/62] fix: accessor's exist() was inverted for pre-placed
 fields

---
 fast_positive/tuples/details/getter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 725e281..83d8bdc 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -211,7 +211,7 @@ public:
 
   cxx11_constexpr bool exist() const cxx11_noexcept {
     return token_.is_preplaced()
-               ? static_cast<const field_preplaced *>(field_)->is_null(
+               ? !static_cast<const field_preplaced *>(field_)->is_null(
                      token_.tag())
                : field_ != nullptr;
   }
-- 
2.43.0


From e833743bb4c800e2edf601b68f6b6a2a0144bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:07 +0000
Subject: [PATCH 03/62] fix: length of a varbinary was wrong unless multiple of
 4

---
 fast_positive/tuples/details/field.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 5a05fb2..3801c7f 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -121,7 +121,8 @@ union stretchy_value_varbin {
     static_assert(8 - genus_bitness == 3, "Oops");
     const std::size_t tailbytes = reserved14_tailbytes & 3;
     constexpr_assert(brutto_units > 1 || tailbytes == 0);
-    return units2bytes(brutto_units) - 4 + tailbytes;
+    /* tailbytes это (length % 4), т.е. ноль для полностью занятого юнита. */
+    return units2bytes(brutto_units) - 4 - ((4 - tailbytes) & 3);
   }
 
   static std::size_t estimate_space(const string_view &value) {
-- 
2.43.0


From 7a9c697c4aa2e17c833694b014bbd77bd20d292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:22 +0000
Subject: [PATCH 04/62] fix: insert_datetime refused t32 collections

---
 src/rw.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index 374d3de..e711ac4 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -226,7 +226,6 @@ HERE_GENUS_CASE(uint64_t, u64, u64)
 HERE_GENUS_CASE(float, f32, f32)
 HERE_GENUS_CASE(double, f64, f64)
 HERE_GENUS_CASE(decimal64, decimal, d64)
-HERE_GENUS_CASE(datetime_t, datetime, t64)
 HERE_GENUS_CASE(binary96_t &, bin96, bin96)
 HERE_GENUS_CASE(binary128_t &, bin128, bin128)
 HERE_GENUS_CASE(binary160_t &, bin160, bin160)
@@ -241,6 +240,15 @@ HERE_GENUS_CASE(mac_address_t, mac_address, mac)
 HERE_GENUS_CASE(ip_net_t &, ip_net, ipnet)
 #undef HERE_GENUS_CASE
 
+FPTU_API dynamic_collection_iterator_rw
+tuple_rw::insert_datetime(const token &ident, const datetime_t value) {
+  field_loose *field =
+      (ident.type() == genus::t32)
+          ? append_field<token, genus::t32>(value.utc_seconds(), ident)
+          : append_field<token, genus::t64>(value, ident);
+  return dynamic_collection_iterator_rw(this, field, ident);
+}
+
 FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_uuid(const token &ident, const uuid_t &value) {
   field_loose *field = append_field<token, genus::bin128>(value.bin128, ident);
-- 
2.43.0


From 6c65401c7b30a54142be6f2ed66c861588086107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:38 +0000
Subject: [PATCH 05/62] fix: partial reuse of a hole by alloc_loose overlapped
 payloads

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index c8b921f..9238d4d 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -297,7 +297,7 @@ field_loose *gear::alloc_loose(const tag_t tag, unsigned units) {
   field_loose *loose = index_alloc(units);
   loose->genus_and_id = uint16_t(tag);
   loose->relative.set_payload(hole->hole_begin());
-  hole->relative.add_delta(excess);
+  hole->relative.add_delta(units);
   hole->hole_set_units(excess);
   junk_.volume -= uint16_t(units);
   mark_unsorted();
-- 
2.43.0


From 4438c5f6455cfd85249e81ef389493233dc5c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:52 +0000
Subject: [PATCH 06/62] fix: sorting of the index wrote out of its bounds and
 lost fields

---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 9238d4d..8e13b45 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -920,7 +920,8 @@ bool gear::sort(onstack_allocation_arena &onstack_arena) {
     return false;
   }
 
-  sort_vector vector(index_size(), onstack_arena);
+  sort_vector vector(onstack_arena);
+  vector.reserve(index_size());
   const unit_t *const basis = &area_[head_];
   /* заполняем вектор */
   for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
-- 
2.43.0


From 774f11f50ebc19515694be6bfac272fd131a49e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 07/62] fix: reset() of a tuple without room for loose fields
 terminated the process

---
 src/rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index e711ac4..3432254 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -616,7 +616,7 @@ tuple_rw::insert_number(const token &ident, const double value) {
 
 void tuple_rw::reset() {
   /* sanity check for corruption */
-  if (unlikely(pivot_ < 1 || pivot_ > fptu::max_fields || pivot_ > end_ ||
+  if (unlikely(pivot_ > fptu::max_fields || pivot_ > end_ ||
                end_ > bytes2units(fptu::buffer_limit)))
     throw_tuple_bad(this);
 
-- 
2.43.0


From 1d571147b642dff34bada9e7c890a9a6839b0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:26 +0000
Subject: [PATCH 08/62] fix: -ffast-math removed NaN checks, so NaN was dropped
 or stored into integers

---
 src/CMakeLists.txt | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 65d3728..e4b5dda 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -223,10 +223,6 @@ else()
     C_STANDARD 99 C_STANDARD_REQUIRED ON)
 endif()
 
-if(CC_HAS_FASTMATH)
-  target_compile_options(${fptu_target} PRIVATE "-ffast-math")
-endif()
-
 if(BUILD_FOR_NATIVE_CPU AND CC_HAS_ARCH_NATIVE)
   target_compile_options(${fptu_target} PUBLIC "-march=native")
 endif()
-- 
2.43.0


From 292bec5773bbd4f32fdcd79587964edd617ffeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:12 +0000
Subject: [PATCH 09/62] fix: refusal of release_data for lack of index space
 broke the junk counter

---
 src/gear.cxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 8e13b45..e2b7dae 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -389,6 +389,14 @@ gear::release_data(relative_payload *chunk, unsigned units,
     return nullptr;
   }
 
+  if (!before_after.first && !before_after.second && !hole0) {
+    /* нет соседних дырок для объединения с куском, поэтому потребуется место
+     * в индексе. Здесь возможно исключение, поэтому прежде чем что-либо менять
+     * в счетчиках. */
+    hole0 = index_alloc(0);
+    junk_.count += 1;
+  }
+
   /* добавляем в счетчики, чтобы прошли проверки внутри merge и trim */
   junk_.volume += uint16_t(units);
 
@@ -413,10 +421,7 @@ gear::release_data(relative_payload *chunk, unsigned units,
     /* не нашлось соседних дырок для объединения с куском */
     assert(chunk->flat + units != end_data_units());
     /* кусок НЕ может примыкать к концу данных, оформляем дыркой */
-    if (hole0 == nullptr) {
-      hole0 = index_alloc(0);
-      junk_.count += 1;
-    }
+    assert(hole0 != nullptr);
     hole0->hole_set_units(units);
     hole0->relative.set_payload(chunk);
     return hole0;
-- 
2.43.0


From 54c36fa6c9543eef82707b131a214651b86743ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:42 +0000
Subject: [PATCH 10/62] fix: compaction broke tuples with fields that have no
 payload

---
 src/gear.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index e2b7dae..1df2d12 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -785,7 +785,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           !is_inplaced(src->type()) && src->relative.have_payload();
       if (src != dst) {
         dst->loose_header = src->loose_header;
-        if (!is_inplaced(src->type()))
+        if (!is_inplaced(src->type()) && src->relative.have_payload())
           dst->relative.sub_delta(dst - src);
       }
       --dst;
@@ -837,7 +837,8 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           const field_preplaced *const preplaced =
               erthink::constexpr_pointer_cast<const field_preplaced *>(
                   begin_data_bytes() + ident.preplaced_offset());
-          vector.emplace_back(basis, ident.type(), preplaced);
+          if (preplaced->relative.have_payload())
+            vector.emplace_back(basis, ident.type(), preplaced);
         }
       }
     }
-- 
2.43.0


From c6b55f8bd6d7566366f9e7f7263b6a22afd1077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:39 +0000
Subject: [PATCH 11/62] fix: netto_size() subtracted units of junk from bytes

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 5590fdb..39bab31 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1128,7 +1128,7 @@ public: //----------------------------------------------------------------------
     return units2bytes(tail_ - head_ + /* header */ 1);
   }
   __pure_function std::size_t netto_size() const cxx11_noexcept {
-    return brutto_size() - junk_units();
+    return brutto_size() - junk_bytes();
   }
   __pure_function std::size_t capacity() const cxx11_noexcept {
     return units2bytes(end_);
-- 
2.43.0


From 30bef4dff7a4820e39e833925938b54f74f48741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:39 +0000
Subject: [PATCH 12/62] fix: growth of a managed tuple lost the junk counters

---
 src/autogrowth.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 88634e8..ecdcea5 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -188,6 +188,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
 
   new_tuple->head_ = new_tuple->pivot_ - (pimpl_->pivot_ - pimpl_->head_);
   new_tuple->tail_ = new_tuple->pivot_ + (pimpl_->tail_ - pimpl_->pivot_);
+  new_tuple->junk_ = pimpl_->junk_;
   std::memcpy(static_cast<void *>(new_tuple->begin_index()),
               pimpl_->begin_index(),
               details::units2bytes(pimpl_->tail_ - pimpl_->head_));
-- 
2.43.0


From 55fc49d6ddf6593bc872f09a2ed52c4a16251ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:56 +0000
Subject: [PATCH 13/62] fix: audit read lengths of stretchy fields before
 checking bounds

---
 src/audit.cxx | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index f09b189..653ed56 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -97,6 +97,10 @@ public:
                           const unit_t *begin_payload,
                           const unit_t *end_payload);
 
+  const char *check_stretchy(const relative_payload *payload, const genus type,
+                             const unit_t *begin_payload,
+                             const unit_t *end_payload);
+
   const char *check_loose(const field_loose *loose, const unit_t *begin_payload,
                           const unit_t *end_payload);
 };
@@ -171,7 +175,8 @@ const char *auditor::check_chunk(const unit_t *chunk_begin,
                                  const std::size_t chunk_units,
                                  const unit_t *begin_payload,
                                  const unit_t *end_payload) {
-  assert(chunk_units > 0);
+  if (unlikely(chunk_units < 1))
+    return AUDIT_FAILURE("chunk_units < 1");
   if (unlikely(chunk_begin < begin_payload))
     return AUDIT_FAILURE("chunk_begin < begin_payload");
   if (unlikely(chunk_units > fptu::max_field_bytes))
@@ -188,6 +193,20 @@ const char *auditor::check_chunk(const unit_t *chunk_begin,
   return nullptr;
 }
 
+const char *auditor::check_stretchy(const relative_payload *payload,
+                                    const genus type,
+                                    const unit_t *begin_payload,
+                                    const unit_t *end_payload) {
+  /* длина хранится внутри, поэтому до её чтения нужно проверить границы */
+  if (unlikely(payload->flat < begin_payload || payload->flat >= end_payload))
+    return AUDIT_FAILURE("stretchy payload is out of tuple bounds");
+  const std::size_t units = payload->stretchy.brutto_units(type);
+  if (unlikely(type == genus::varbin && units == 1 &&
+               (payload->stretchy.varbin.reserved14_tailbytes & 3) != 0))
+    return AUDIT_FAILURE("varbin.length < 0");
+  return check_chunk(payload->flat, units, begin_payload, end_payload);
+}
+
 const char *auditor::check_loose(const field_loose *loose,
                                  const unit_t *begin_payload,
                                  const unit_t *end_payload) {
@@ -218,9 +237,8 @@ const char *auditor::check_loose(const field_loose *loose,
 
   /* stretchy */
   if (loose->relative.have_payload())
-    return check_chunk(loose->relative.payload()->flat,
-                       loose->relative.payload()->stretchy.brutto_units(type),
-                       begin_payload, end_payload);
+    return check_stretchy(loose->relative.payload(), type, begin_payload,
+                          end_payload);
   return nullptr;
 }
 } // namespace
@@ -286,10 +304,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
 
       if (!target->relative.have_payload())
         continue;
-      const auto payload = target->relative.payload();
-      trouble = validator.check_chunk(
-          payload->flat, payload->stretchy.brutto_units(field_token.type()),
-          payload_begin, payload_end);
+      trouble = validator.check_stretchy(target->relative.payload(),
+                                         field_token.type(), payload_begin,
+                                         payload_end);
       if (unlikely(trouble))
         return AUDIT_FAILURE(trouble);
     }
-- 
2.43.0


From ceacc818632195744a22f7cf532593167564e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:54 +0000
Subject: [PATCH 14/62] fix: holes larger than 2046 units did not fit in the
 descriptor and corrupted the tuple

---
 fast_positive/tuples/details/field.h | 17 +++++++++++++++--
 src/audit.cxx                        | 18 ++++++++++++------
 src/gear.cxx                         | 28 +++++++++++++++++-----------
 3 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 3801c7f..7f51f95 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -426,12 +426,25 @@ struct FPTU_API_TYPE field_loose {
     constexpr_assert(!is_hole());
     return descriptor2id(genus_and_id);
   }
+  /* Размер дырки, который не помещается в дескриптор, хранится в начале
+   * самой дырки, а в дескрипторе указывается tag_bits::max_ident. */
+  cxx11_constexpr bool hole_is_large() const {
+    return descriptor2id(genus_and_id) == tag_bits::max_ident;
+  }
   cxx11_constexpr unsigned hole_get_units() const {
     constexpr_assert(is_hole());
-    return descriptor2id(genus_and_id);
+    return unlikely(hole_is_large()) ? unsigned(*relative.payload()->flat)
+                                     : descriptor2id(genus_and_id);
   }
+  /* Для больших дырок payload должен быть установлен до вызова. */
   void hole_set_units(size_t units) {
-    genus_and_id = loose_genus_and_id_t(details::make_hole(units));
+    if (likely(units < tag_bits::max_ident))
+      genus_and_id = loose_genus_and_id_t(details::make_hole(units));
+    else {
+      genus_and_id =
+          loose_genus_and_id_t(details::make_hole(tag_bits::max_ident));
+      *relative.payload()->flat = unit_t(units);
+    }
   }
   cxx14_constexpr const unit_t *hole_begin() const {
     constexpr_assert(is_hole() && hole_get_units() > 0);
diff --git a/src/audit.cxx b/src/audit.cxx
index 653ed56..45650f5 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -215,15 +215,21 @@ const char *auditor::check_loose(const field_loose *loose,
     return nullptr;
 
   if (type == genus::hole) {
-    const std::size_t units = loose->hole_get_units();
+    const bool large = loose->hole_is_large();
     holes_count_ += 1;
-    if (units == 0) {
-      if (unlikely(loose->relative.have_payload()))
-        return AUDIT_FAILURE("tuple.pure_hole.payload != null");
+    if (!loose->relative.have_payload()) {
+      if (unlikely(large || loose->hole_get_units() != 0))
+        return AUDIT_FAILURE("tuple.non_pure_hole.payload == null");
       return nullptr;
     }
-    if (!loose->relative.have_payload())
-      return AUDIT_FAILURE("tuple.non_pure_hole.payload == null");
+    if (unlikely(large && (loose->relative.payload()->flat < begin_payload ||
+                           loose->relative.payload()->flat >= end_payload)))
+      return AUDIT_FAILURE("tuple.large_hole is out of tuple bounds");
+    const std::size_t units = loose->hole_get_units();
+    if (unlikely(units == 0))
+      return AUDIT_FAILURE("tuple.pure_hole.payload != null");
+    if (unlikely(large && units < tag_bits::max_ident))
+      return AUDIT_FAILURE("tuple.large_hole.units is too small");
     holes_volume_ += units;
     return check_chunk(loose->hole_begin(), units, begin_payload, end_payload);
   }
diff --git a/src/gear.cxx b/src/gear.cxx
index 1df2d12..339b180 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -118,9 +118,9 @@ __pure_function field_loose *gear::lookup_hole(unsigned units) cxx11_noexcept {
   if (junk_.count < 1 || junk_.volume < units)
     return nullptr;
 
-  if_constexpr(MODE == hole_search_mode::exactly_size) return const_cast<
-      field_loose *>(
-      lookup(is_sorted(), begin_index(), end_index(), make_hole(units)));
+  if (MODE == hole_search_mode::exactly_size && units < tag_bits::max_ident)
+    return const_cast<field_loose *>(
+        lookup(is_sorted(), begin_index(), end_index(), make_hole(units)));
 
   if (0 == /* нет смысла искать, так как дырка ненулевого размера потребует
               усечения и поиска еще одной дырки... */
@@ -137,8 +137,12 @@ __pure_function field_loose *gear::lookup_hole(unsigned units) cxx11_noexcept {
       continue;
     if (scan->hole_get_units() >= units) {
       if_constexpr(MODE == hole_search_mode::any_suitable) return scan;
-      /* MODE == hole_search_mode::best_fit */
-      found = best_fit(units, found, scan);
+      if_constexpr(MODE == hole_search_mode::exactly_size) {
+        if (scan->hole_get_units() == units)
+          return scan;
+      }
+      else /* MODE == hole_search_mode::best_fit */
+        found = best_fit(units, found, scan);
     }
     if (--left_holes == 0)
       break;
@@ -308,7 +312,8 @@ field_loose *gear::merge_holes(field_loose *first,
                                field_loose *second) cxx11_noexcept {
   assert(first->hole_get_units() && second->hole_get_units());
   assert(first->hole_end() == second->hole_begin());
-  const unsigned units = first->hole_get_units() + second->hole_get_units();
+  const unsigned first_units = first->hole_get_units();
+  const unsigned units = first_units + second->hole_get_units();
   if (first != begin_index()) {
     /* вливаем вторую в первую, чтобы убрать из индекса вторую дырку, на случай
      * если она в начале индекса */
@@ -320,7 +325,7 @@ field_loose *gear::merge_holes(field_loose *first,
   } else {
     /* вливаем первую во вторую,
      * чтобы убрать из начала индекса первую дырку */
-    second->relative.sub_delta(first->hole_get_units());
+    second->relative.sub_delta(first_units);
     second->hole_set_units(units);
     first->hole_purge();
     trim_hole(first);
@@ -412,8 +417,9 @@ gear::release_data(relative_payload *chunk, unsigned units,
       merged = merge_holes(merged, before_after.second);
     else {
       merged = before_after.second;
+      const unsigned merged_units = units + merged->hole_get_units();
       merged->relative.sub_delta(units);
-      merged->hole_set_units(units + merged->hole_get_units());
+      merged->hole_set_units(merged_units);
     }
   }
 
@@ -422,8 +428,8 @@ gear::release_data(relative_payload *chunk, unsigned units,
     assert(chunk->flat + units != end_data_units());
     /* кусок НЕ может примыкать к концу данных, оформляем дыркой */
     assert(hole0 != nullptr);
-    hole0->hole_set_units(units);
     hole0->relative.set_payload(chunk);
+    hole0->hole_set_units(units);
     return hole0;
   }
   /* кусок был слит с соседней дыркой */
@@ -485,8 +491,8 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       try {
 #endif
         field_loose *hole = index_alloc(needed);
-        hole->hole_set_units(have);
         hole->relative.set_payload(ref.payload());
+        hole->hole_set_units(have);
         junk_.count += 1;
         junk_.volume += uint16_t(have);
         ref.set_payload(tail_alloc(needed));
@@ -505,8 +511,8 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
     assert(needed < have);
     field_loose *hole =
         index_alloc(needed) /* Тут может выскочить исключение */;
-    hole->hole_set_units(have - needed);
     hole->relative.set_payload(ref.payload()->flat + needed);
+    hole->hole_set_units(have - needed);
     junk_.count += 1;
     junk_.volume += uint16_t(have - needed);
     return ref.payload();
-- 
2.43.0


From b6f4f389967b753cfa3fdb84246ffe17d08736d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 15/62] fix: growth to the maximal size was refused as too
 large

---
 src/autogrowth.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index ecdcea5..c8c195a 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -114,7 +114,8 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
    * Поэтому, с учетом перехода на следующий уровень масштаба, место под данные
    * скорее всего будет выделено примерно в четверо больше. */
   const size_t growth_data = std::min(
-      size_t(fundamentals::max_tuple_bytes_netto),
+      fundamentals::max_tuple_bytes_netto -
+          (pimpl_->schema_ ? pimpl_->schema_->preplaced_bytes() : 0),
       (wanna.data_space > pimpl_->tail_space_units())
           ? details::units2bytes((wanna.data_space + data_capacity_units) * 2)
           : details::units2bytes(data_capacity_units + 42));
-- 
2.43.0


From 5f8a21ac5747ba0ae4fcf9c802a766af3bce483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:50 +0000
Subject: [PATCH 16/62] fix: validation refused a tuple of the maximal brutto
 size

---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 45650f5..96e7d1f 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -381,7 +381,7 @@ tuple_ro::inline_lite_checkup(const void *ptr,
 
   if (unlikely(bytes < sizeof(unit_t)))
     return AUDIT_FAILURE("hollow tuple (too short)");
-  if (unlikely(bytes > fptu::max_tuple_bytes_netto))
+  if (unlikely(bytes > fptu::max_tuple_bytes_brutto))
     return AUDIT_FAILURE("tuple too large");
   if (unlikely(bytes % sizeof(unit_t)))
     return AUDIT_FAILURE("odd tuple size");
-- 
2.43.0


From a2640ae2d01cde118fe66a4de7fd3a90ba163370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:17 +0000
Subject: [PATCH 17/62] fix: a self-growing tuple exceeded the limit of fields
 and lost its index

---
 src/autogrowth.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index c8c195a..323b605 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -29,7 +29,9 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
   size_t allocated_units = pimpl_->tail_ - pimpl_->head_;
   size_t unallocated_units = pimpl_->end_ - allocated_units;
   if (unlikely(allocated_units - junk_units + wanna_units >= UINT16_MAX ||
-               wanna.index_space > fundamentals::max_fields ||
+               pimpl_->pivot_ - pimpl_->head_ - pimpl_->junk_.count +
+                       wanna.index_space >
+                   fundamentals::max_fields ||
                wanna.data_space > fundamentals::max_tuple_bytes_netto)) {
     /* Запрос превышает максимальный размер. Чтобы не искажать картину бросаем
      * исключение не изменяя кортеж. */
@@ -60,7 +62,9 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
                    std::min((unallocated_units * index_used + whole_used - 1) /
                                 whole_used,
                             unallocated_units - wanna.data_space));
-      shift = reserve - pimpl_->head_;
+      shift = std::min(reserve - ptrdiff_t(pimpl_->head_),
+                       ptrdiff_t(fundamentals::max_fields) -
+                           ptrdiff_t(pimpl_->pivot_));
     } else if (wanna.data_space > pimpl_->end_ - pimpl_->tail_) {
       /* Недостаточно места для данных, перемещаем всё вперед. Пытаемся
        * переместить "с запасом", распределяя свободное место пропорционально
-- 
2.43.0


From 45bc17818f0d99f31ab6e115169d7ac2a561e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:35 +0000
Subject: [PATCH 18/62] fix: validation of a full index with stretchy
 pre-placed fields terminated the process

---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 96e7d1f..3efa066 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -88,7 +88,7 @@ public:
   auditor(onstack_allocation_arena &area, std::size_t limit)
       : map_(area), holes_count_(0), holes_volume_(0) {
     static_assert(sizeof(interval) == 2 * sizeof(offset), "WTF?");
-    FPTU_ENSURE(limit <= fptu::max_fields);
+    FPTU_ENSURE(limit <= UINT16_MAX);
     map_.reserve(limit);
   }
 
-- 
2.43.0


From 29f24b9c76ae0dd739d0d875113d67f22a37e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:50 +0000
Subject: [PATCH 19/62] fix: re-opening a nearly full tuple placed data beyond
 the limit

---
 src/rw.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index 3432254..f35b71b 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -712,7 +712,8 @@ inline tuple_rw::tuple_rw(const audit_holes_info &holes_info,
 
   const std::size_t have_items = ro->index_size();
   const std::size_t reserve_items =
-      std::min(size_t(fptu::max_fields), have_items + more_items);
+      std::min(std::min(size_t(fptu::max_fields), have_items + more_items),
+               size_t(fptu::max_tuple_units_netto) - ro->payload_units());
   const std::size_t space_needed = tuple_rw::estimate_required_space(
       reserve_items, ro->payload_bytes(), schema,
       /* не учитываем размер preplaced-полей, ибо они уже должы быть в ro */
-- 
2.43.0


From 9afd6b7abcb1d8152a7eb3e2c2e0682feb2b4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:20 +0000
Subject: [PATCH 20/62] fix: re-opening a nearly full tuple with pre-placed
 fields was refused

---
 fast_positive/tuples/details/rw.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 39bab31..40a0e1b 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1155,7 +1155,8 @@ public: //----------------------------------------------------------------------
     if (unlikely(preplaced_bytes > fundamentals::max_tuple_bytes_netto))
       throw_invalid_schema();
     if (unlikely(data_bytes >
-                     fundamentals::max_tuple_bytes_netto - preplaced_bytes ||
+                     fundamentals::max_tuple_bytes_netto -
+                         (dont_account_preplaced ? 0 : preplaced_bytes) ||
                  items > fundamentals::max_fields))
       throw_tuple_too_large();
 
-- 
2.43.0


From b084a7c078c4b1938fa95f9908b01711fd586bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:51 +0000
Subject: [PATCH 21/62] fix: swapping with a hole left a hole at the end of
 data and corrupted the tuple later

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index 339b180..005dfae 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -599,7 +599,7 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       junk_.volume += uint16_t(have - needed);
 
       /* если дырка примыкает к концу данных, то её нужно "испарить" */
-      if (chunk == end_data_units()) {
+      if (chunk + have == end_data_units()) {
         /* возвращем место в нераспределенное */
         tail_ -= have;
         junk_.volume -= uint16_t(have);
-- 
2.43.0


From 968b6d6c1f39bba7a3f02da6e4dbf5e322305828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:41 +0000
Subject: [PATCH 22/62] fix: post-increment and post-decrement of iterators did
 not advance

---
 fast_positive/tuples/details/getter.h |  4 ++--
 fast_positive/tuples/details/ro.h     | 20 ++++++++++++--------
 fast_positive/tuples/details/rw.h     |  4 ++--
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 83d8bdc..9b58f9b 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -492,9 +492,9 @@ public:
                             detent_, accessor::token_.tag());
     return *this;
   }
-  collection_iterator_ro operator++(int) const cxx11_noexcept {
+  collection_iterator_ro operator++(int) cxx11_noexcept {
     collection_iterator_ro iterator(*this);
-    ++iterator;
+    ++*this;
     return iterator;
   }
   cxx11_constexpr const accessor &operator*() const cxx11_noexcept {
diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 9d5143e..87e49b6 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -182,17 +182,19 @@ public:
     --field_;
     return *this;
   }
-  loose_iterator_ro operator++(int) const cxx11_noexcept {
+  loose_iterator_ro operator++(int) cxx11_noexcept {
     loose_iterator_ro iterator(*this);
-    return --iterator;
+    ++*this;
+    return iterator;
   }
   loose_iterator_ro &operator--() cxx11_noexcept {
     ++field_;
     return *this;
   }
-  loose_iterator_ro operator--(int) const cxx11_noexcept {
+  loose_iterator_ro operator--(int) cxx11_noexcept {
     loose_iterator_ro iterator(*this);
-    return ++iterator;
+    --*this;
+    return iterator;
   }
   loose_iterator_ro &operator+=(const difference_type shift) cxx11_noexcept {
     field_ -= shift;
@@ -504,14 +506,16 @@ public:
   }
 
   field_iterator_ro &operator++();
-  field_iterator_ro operator++(int) const {
+  field_iterator_ro operator++(int) {
     field_iterator_ro iterator(*this);
-    return ++iterator;
+    ++*this;
+    return iterator;
   }
   field_iterator_ro &operator--();
-  field_iterator_ro operator--(int) const {
+  field_iterator_ro operator--(int) {
     field_iterator_ro iterator(*this);
-    return --iterator;
+    --*this;
+    return iterator;
   }
 };
 
diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 40a0e1b..470d36e 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -924,9 +924,9 @@ public:
                accessor::tuple_->end_index(), accessor::token_.tag());
       return *this;
     }
-    collection_iterator_rw operator++(int) const cxx11_noexcept {
+    collection_iterator_rw operator++(int) cxx11_noexcept {
       collection_iterator_rw iterator(*this);
-      ++iterator;
+      ++*this;
       return iterator;
     }
     cxx14_constexpr accessor operator*() const cxx11_noexcept {
-- 
2.43.0


From 2a0b29b3c9bae8d792b21d363558a8b496d8ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:52 +0000
Subject: [PATCH 23/62] fix: const access to a collection of a modifiable tuple
 did not compile

---
 fast_positive/tuples/details/rw.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 470d36e..cfadf38 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -952,7 +952,7 @@ public:
     }
 
     operator collection_iterator_ro<TOKEN>() const cxx11_noexcept {
-      return collection_iterator_ro<TOKEN>(accessor::field_.const_loose,
+      return collection_iterator_ro<TOKEN>(static_cast<const field_loose *>(accessor::field_),
                                            accessor::tuple_->end_index(),
                                            accessor::token_);
     }
@@ -988,12 +988,12 @@ public:
     }
 
     cxx11_constexpr operator const_range() const cxx11_noexcept {
-      return const_range(iterator::field_.const_loose,
+      return const_range(static_cast<const field_loose *>(iterator::field_),
                          iterator::tuple_->end_index(), iterator::token_);
     }
 
     cxx14_constexpr const const_iterator begin() const cxx11_noexcept {
-      return const_iterator(iterator::field_.const_loose,
+      return const_iterator(static_cast<const field_loose *>(iterator::field_),
                             iterator::tuple_->end_index(), iterator::token_);
     }
     cxx14_constexpr const_iterator end() const cxx11_noexcept {
-- 
2.43.0


From 9e0739bd6eb48700aa089c8f64fa3e69e29b69be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:59 +0000
Subject: [PATCH 24/62] fix: writing an ip_net read beyond the given value

---
 fast_positive/tuples/details/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/meta.h b/fast_positive/tuples/details/meta.h
index 9a367a3..f6eb797 100644
--- a/fast_positive/tuples/details/meta.h
+++ b/fast_positive/tuples/details/meta.h
@@ -241,7 +241,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
   static void write(details::field_preplaced *preplaced,
                     return_type value) cxx11_noexcept {
     static_assert(sizeof(value_type) <= preplaced_bytes, "WTF?");
-    std::memcpy(preplaced->bytes, &value, preplaced_bytes);
+    std::memcpy(preplaced->bytes, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(preplaced->bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
@@ -267,7 +267,7 @@ template <unsigned N, typename TYPE = uint32_t[N]> struct unit_n {
 #endif /* GNU C >= 10.x */
 
     static_assert(sizeof(ptr->fixed) >= preplaced_bytes, "WTF?");
-    std::memcpy(&ptr->fixed.words, &value, preplaced_bytes);
+    std::memcpy(&ptr->fixed.words, &value, sizeof(value_type));
     if (preplaced_bytes != sizeof(value_type))
       std::memset(ptr->fixed.bytes + sizeof(value_type), 0,
                   preplaced_bytes - sizeof(value_type));
-- 
2.43.0


From 01f6293c382913831558498ee1b9383e14903003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:52 +0000
Subject: [PATCH 25/62] fix: AVX search read beyond the index and depended on
 the denormals mode

---
 src/scan_AVX.cxx | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/scan_AVX.cxx b/src/scan_AVX.cxx
index 55c768b..fca6bad 100644
--- a/src/scan_AVX.cxx
+++ b/src/scan_AVX.cxx
@@ -33,22 +33,24 @@ namespace fptu {
 namespace details {
 
 #if __SANITIZE_ADDRESS__
-static __m256i __attribute__((no_sanitize_address, noinline))
-bypass_asan_read_m256(const void *src) {
-  return _mm256_loadu_si256((const __m256i *)src);
+static __m128i __attribute__((no_sanitize_address, noinline))
+bypass_asan_read_m128(const void *src) {
+  return _mm_loadu_si128((const __m128i *)src);
 }
-#define _mm256_loadu_si256(ptr) bypass_asan_read_m256(ptr)
+#define _mm_loadu_si128(ptr) bypass_asan_read_m128(ptr)
 #endif
 
-static __always_inline unsigned cmp2mask(const __m256 pattern,
+static __always_inline unsigned cmp2mask(const __m128i pattern,
                                          const field_loose *scan) {
-  const char *ptr = (const char *)scan + 2;
-  const __m256 even = _mm256_castsi256_ps(_mm256_set1_epi32(0x0000ffffu));
-  return _mm256_movemask_ps(_mm256_cmp_ps(
-      pattern,
-      _mm256_and_ps(
-          even, _mm256_castsi256_ps(_mm256_loadu_si256((const __m256i *)ptr))),
-      _CMP_EQ_OQ));
+  /* There are no 256-bit integer comparisons in the AVX, and the floating-point
+   * ones depend on the denormals-are-zero mode of a caller. */
+  const __m128i lo =
+      _mm_cmpeq_epi16(pattern, _mm_loadu_si128((const __m128i *)scan));
+  const __m128i hi =
+      _mm_cmpeq_epi16(pattern, _mm_loadu_si128((const __m128i *)(scan + 4)));
+  /* genus_and_id is a high half of each 32-bit item */
+  return unsigned(_mm_movemask_ps(_mm_castsi128_ps(lo))) |
+         unsigned(_mm_movemask_ps(_mm_castsi128_ps(hi))) << 4;
 }
 
 static __always_inline bool mask2ptr(unsigned mask, const field_loose *&ptr) {
@@ -80,14 +82,7 @@ __hot const field_loose *fptu_scan_AVX(const field_loose *begin,
   const ptrdiff_t bytes = (char *)end - (char *)begin;
   assert(bytes % 4 == 0);
 
-  const __m256 pattern =
-#if 1 /* LY: avoid store to temporary on the stack */
-      _mm256_permute2f128_ps(_mm256_castps128_ps256(_mm_castsi128_ps(
-                                 _mm_set1_epi32(genus_and_id))),
-                             _mm256_undefined_ps(), 0);
-#else
-      _mm256_castsi256_ps(_mm256_set1_epi32(genus_and_id));
-#endif
+  const __m128i pattern = _mm_set1_epi16(short(genus_and_id));
   const field_loose *scan = begin;
 
   if (unlikely(bytes < 8 * 4)) {
-- 
2.43.0


From e4a86ae781f8f6c008ac75bac4fa7dc75b296d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:27 +0000
Subject: [PATCH 26/62] fix: set_unsigned() and insert_unsigned() of a signed
 value never accepted unsigned fields

---
 fast_positive/tuples/details/rw.h | 2 +-
 src/rw.cxx                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index cfadf38..3f3b0ea 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -524,7 +524,7 @@ public:
     void set_unsigned(const int64_t value) {
       if (unlikely(value < 0))
         throw_value_range();
-      return set_integer(static_cast<uint64_t>(value));
+      return set_unsigned(static_cast<uint64_t>(value));
     }
 
     void set_int128(const int128_t &value) {
diff --git a/src/rw.cxx b/src/rw.cxx
index f35b71b..69bcfcd 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -323,7 +323,7 @@ FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_unsigned(const token &ident, const int64_t value) {
   if (unlikely(value < 0))
     throw_value_range();
-  return insert_integer(ident, static_cast<uint64_t>(value));
+  return insert_unsigned(ident, static_cast<uint64_t>(value));
 }
 
 FPTU_API dynamic_collection_iterator_rw
-- 
2.43.0


From 4d2e88abad29cda87d100ba15a26a21e55b266af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:27 +0000
Subject: [PATCH 27/62] fix: 128-bit integers were silently truncated to 64
 bits when written into narrower fields

---
 fast_positive/tuples/details/rw.h | 4 ++++
 src/rw.cxx                        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 3f3b0ea..e298fe9 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -531,6 +531,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != int64_t(value)))
+        throw_value_range();
       return set_integer(int64_t(value));
     }
 
@@ -538,6 +540,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != uint64_t(value)))
+        throw_value_range();
       return set_unsigned(uint64_t(value));
     }
 
diff --git a/src/rw.cxx b/src/rw.cxx
index 69bcfcd..9fd5646 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -331,6 +331,8 @@ tuple_rw::insert_int128(const token &ident, const int128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != int64_t(value)))
+    throw_value_range();
   return insert_integer(ident, int64_t(value));
 }
 
@@ -339,6 +341,8 @@ tuple_rw::insert_uint128(const token &ident, const uint128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != uint64_t(value)))
+    throw_value_range();
   return insert_unsigned(ident, uint64_t(value));
 }
 
-- 
2.43.0


From 5a23688ed561522289ccee275ba55cb0c3cbdda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:27 +0000
Subject: [PATCH 28/62] fix: get_int128() and get_uint128() returned a
 reference to a temporary

---
 fast_positive/tuples.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 6f85a16..3097a59 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -270,8 +270,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
@@ -636,8 +636,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
-- 
2.43.0


From b1ea5cdc8b00feeb4c7945856e8cdfad2f288a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:40 +0000
Subject: [PATCH 29/62] fix: tuple_rw_managed declared set_number() and
 insert_number() but did not define them

---
 src/autogrowth.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 323b605..f9cfbb2 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -270,6 +270,12 @@ HERE_THUNK_MAKE(uint64_t, integer)
 HERE_THUNK_MAKE(int64_t, unsigned)
 HERE_THUNK_MAKE(uint64_t, unsigned)
 HERE_THUNK_MAKE(double, float)
+HERE_THUNK_MAKE(int32_t, number)
+HERE_THUNK_MAKE(uint32_t, number)
+HERE_THUNK_MAKE(int64_t, number)
+HERE_THUNK_MAKE(uint64_t, number)
+HERE_THUNK_MAKE(float, number)
+HERE_THUNK_MAKE(double, number)
 #undef HERE_THUNK_MAKE
 
 bool tuple_rw_managed::erase(const dynamic_collection_iterator_rw &it) {
-- 
2.43.0


From 7b250afb315bef3d101c3a3dcc234e0e9deac23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:07 +0000
Subject: [PATCH 30/62] fix: validation accepted unaccounted space in tuples
 without any payload chunk

---
 src/audit.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 3efa066..26467e1 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -361,7 +361,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
           return AUDIT_FAILURE("tuple have unmerged adjacent holes");
       }
     }
-  }
+  } else if (unlikely(std::size_t(payload_bytes) !=
+                      units2bytes(bytes2units(preplaced_bytes))))
+    return AUDIT_FAILURE("lose space at the end of tuple");
 
   if ((flags & audit_flags::audit_tuple_sorted_loose) != 0 &&
       !std::is_sorted(index_begin, index_end,
-- 
2.43.0


From 333af79211224c0422bf023f994cf0898e62b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 31/62] fix: modifiable copy of a valid tuple with adjacent
 holes was invalid

---
 fast_positive/tuples/details/rw.h |  1 +
 src/gear.cxx                      | 27 +++++++++++++++++++++++++++
 src/rw.cxx                        |  5 +++++
 3 files changed, 33 insertions(+)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index e298fe9..315336e 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -300,6 +300,7 @@ protected:
   void release_loose(field_loose *loose, const std::size_t units);
   relative_payload *realloc_data(relative_offset &ref, const std::size_t have,
                                  const std::size_t needed);
+  void merge_adjacent_holes();
   __pure_function static const char *audit(const tuple_rw *self) cxx11_noexcept;
 
   //----------------------------------------------------------------------------
diff --git a/src/gear.cxx b/src/gear.cxx
index 005dfae..975a0d8 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -995,6 +995,33 @@ __hot relative_payload *tuple_rw::realloc_data(relative_offset &ref,
                                                        unsigned(needed));
 }
 
+void tuple_rw::merge_adjacent_holes() {
+  onstack_allocation_arena arena;
+  std::vector<field_loose *, onstack_short_allocator<field_loose *>> holes(
+      arena);
+  holes.reserve(junk_.count);
+  for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
+    if (loose->is_hole() && loose->hole_get_units())
+      holes.push_back(loose);
+  if (holes.size() < 2)
+    return;
+
+  std::sort(holes.begin(), holes.end(),
+            [](const field_loose *a, const field_loose *b) {
+              return a->hole_begin() < b->hole_begin();
+            });
+  field_loose *prev = holes.front();
+  for (std::size_t i = 1; i < holes.size(); ++i) {
+    field_loose *const hole = holes[i];
+    if (prev->hole_end() != hole->hole_begin()) {
+      prev = hole;
+      continue;
+    }
+    prev->hole_set_units(prev->hole_get_units() + hole->hole_get_units());
+    hole->hole_purge();
+  }
+}
+
 __hot bool tuple_rw::optimize(const optimize_flags flags) {
   onstack_allocation_arena arena;
 
diff --git a/src/rw.cxx b/src/rw.cxx
index 9fd5646..b7ff929 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -750,6 +750,11 @@ inline tuple_rw::tuple_rw(const audit_holes_info &holes_info,
    * стороны, это позволит избежать одного копирования данных. Однако,
    * появление фрагментированных кортежей должно быть редкой ситуацией,
    * а автоматическая оптимизация может быть НЕ лучшей стратегией. */
+  if (unlikely(junk_.count > 1)) {
+    /* Корректный tuple_ro может содержать смежные дырки, но в R/W-форме
+     * они всегда должны быть объединены. */
+    merge_adjacent_holes();
+  }
   debug_check();
 }
 
-- 
2.43.0


From ed55f87086e66c99f014f3d5d00b08dceca82a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:19 +0000
Subject: [PATCH 32/62] fix: fptu_fetch() lost the holes of the source tuple

---
 fast_positive/tuples/details/ro.h |  1 +
 src/audit.cxx                     | 10 ++++++++++
 src/compat_rw.cxx                 |  3 ++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 87e49b6..325e7a6 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -539,6 +539,7 @@ class FPTU_API_TYPE tuple_ro : private stretchy_value_tuple,
 public:
   static const char *lite_checkup(const void *ptr,
                                   std::size_t bytes) cxx11_noexcept;
+  audit_holes_info count_holes() const cxx11_noexcept;
   static const char *audit(const void *ptr, std::size_t bytes,
                            const fptu::schema *schema, audit_holes_info &);
   static const char *audit(const void *ptr, std::size_t bytes,
diff --git a/src/audit.cxx b/src/audit.cxx
index 26467e1..31984a4 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -407,6 +407,16 @@ __hot const char *tuple_ro::lite_checkup(const void *ptr,
   return inline_lite_checkup(ptr, bytes);
 }
 
+audit_holes_info tuple_ro::count_holes() const cxx11_noexcept {
+  audit_holes_info holes_info = {0, 0};
+  for (const field_loose *loose = begin_index(); loose < end_index(); ++loose)
+    if (loose->is_hole()) {
+      holes_info.count += 1;
+      holes_info.volume += uint16_t(loose->hole_get_units());
+    }
+  return holes_info;
+}
+
 __hot const char *tuple_ro::audit(const void *ptr, std::size_t bytes,
                                   const fptu::schema *schema,
                                   audit_holes_info &holes_info) {
diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 790afc6..86d393b 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -149,7 +149,8 @@ fptu_rw *fptu_fetch(fptu_ro ro, void *buffer_space, std::size_t buffer_bytes,
         static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
 
     const auto tuple_rw = fptu::details::tuple_rw::fetch_legacy(
-        {0, 0}, tuple_ro, buffer_space, buffer_bytes, more_items);
+        tuple_ro->count_holes(), tuple_ro, buffer_space, buffer_bytes,
+        more_items);
     return static_cast<fptu_rw *>(tuple_rw);
   } catch (const std::exception &e) {
     fptu_set_error(e);
-- 
2.43.0


From 5b684708ed249ed3cec669c656d597ddde99921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:19 +0000
Subject: [PATCH 33/62] fix: presence of a pre-placed stretchy field disagreed
 with reading it when the spare half of the slot is non-zero

---
 src/tablets.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tablets.cxx b/src/tablets.cxx
index 4cb80a1..b507f55 100644
--- a/src/tablets.cxx
+++ b/src/tablets.cxx
@@ -171,8 +171,10 @@ bool field_preplaced::is_null(tag_t tag) const cxx11_noexcept {
   case genus(N):                                                               \
     assert(tag2indysize(tag) ==                                                \
            meta::genus_traits<genus(N)>::preplaced_bytes);                     \
-    return (!is_fixed_size(genus(N)) || is_discernible_null(tag)) &&           \
-           meta::genus_traits<genus(N)>::is_denil(this)
+    return is_fixed_size(genus(N))                                             \
+               ? is_discernible_null(tag) &&                                   \
+                     meta::genus_traits<genus(N)>::is_denil(this)              \
+               : !relative.have_payload()
     HERE_CASE_ITEM(0);
     HERE_CASE_ITEM(1);
     HERE_CASE_ITEM(2);
-- 
2.43.0


From 4c974f8f678ffa188a69b54b46f4b5a090088d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:11 +0000
Subject: [PATCH 34/62] fix: modifiable copy of a valid tuple with a hole at
 its end could become corrupted by erasing

---
 fast_positive/tuples/details/rw.h |  2 +-
 src/gear.cxx                      | 11 +++++++++--
 src/rw.cxx                        |  9 +++++----
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 315336e..09b51c1 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -300,7 +300,7 @@ protected:
   void release_loose(field_loose *loose, const std::size_t units);
   relative_payload *realloc_data(relative_offset &ref, const std::size_t have,
                                  const std::size_t needed);
-  void merge_adjacent_holes();
+  void normalize_holes();
   __pure_function static const char *audit(const tuple_rw *self) cxx11_noexcept;
 
   //----------------------------------------------------------------------------
diff --git a/src/gear.cxx b/src/gear.cxx
index 975a0d8..e2f8914 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -995,7 +995,7 @@ __hot relative_payload *tuple_rw::realloc_data(relative_offset &ref,
                                                        unsigned(needed));
 }
 
-void tuple_rw::merge_adjacent_holes() {
+void tuple_rw::normalize_holes() {
   onstack_allocation_arena arena;
   std::vector<field_loose *, onstack_short_allocator<field_loose *>> holes(
       arena);
@@ -1003,7 +1003,7 @@ void tuple_rw::merge_adjacent_holes() {
   for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
     if (loose->is_hole() && loose->hole_get_units())
       holes.push_back(loose);
-  if (holes.size() < 2)
+  if (holes.empty())
     return;
 
   std::sort(holes.begin(), holes.end(),
@@ -1020,6 +1020,13 @@ void tuple_rw::merge_adjacent_holes() {
     prev->hole_set_units(prev->hole_get_units() + hole->hole_get_units());
     hole->hole_purge();
   }
+
+  if (prev->hole_end() == end_data_units()) {
+    /* дырка примыкает к концу данных, возвращем место в нераспределенное */
+    tail_ -= prev->hole_get_units();
+    junk_.volume -= uint16_t(prev->hole_get_units());
+    prev->hole_purge();
+  }
 }
 
 __hot bool tuple_rw::optimize(const optimize_flags flags) {
diff --git a/src/rw.cxx b/src/rw.cxx
index b7ff929..e65e4f6 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -750,10 +750,11 @@ inline tuple_rw::tuple_rw(const audit_holes_info &holes_info,
    * стороны, это позволит избежать одного копирования данных. Однако,
    * появление фрагментированных кортежей должно быть редкой ситуацией,
    * а автоматическая оптимизация может быть НЕ лучшей стратегией. */
-  if (unlikely(junk_.count > 1)) {
-    /* Корректный tuple_ro может содержать смежные дырки, но в R/W-форме
-     * они всегда должны быть объединены. */
-    merge_adjacent_holes();
+  if (unlikely(junk_.count > 0)) {
+    /* Корректный tuple_ro может содержать смежные дырки и дырку в конце данных,
+     * но в R/W-форме смежные всегда должны быть объединены, а место в конце
+     * возвращено в нераспределенное. */
+    normalize_holes();
   }
   debug_check();
 }
-- 
2.43.0


From ad159df748540a4716e2e55d1f689b7c0a444da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:29 +0000
Subject: [PATCH 35/62] fix: fptu_field_column() returned a garbage instead of
 a negative value for deleted fields

---
 src/compat_field.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 84b498c..77da386 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -27,7 +27,7 @@ fptu_type fptu_field_type(const fptu_field *pf) cxx11_noexcept {
   return pf ? pf->legacy_type() : fptu_null;
 }
 int fptu_field_column(const fptu_field *pf) cxx11_noexcept {
-  return pf ? pf->colnum() : -1;
+  return fptu_field_is_dead(pf) ? -1 : int(pf->colnum());
 }
 
 void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
-- 
2.43.0


From 460fc225171da3abbddd4cd82428c75186ee4eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:06 +0000
Subject: [PATCH 36/62] fix: fptu_field_as_iovec() gave a number of units
 instead of a length of the value in bytes

---
 src/compat_field.cxx | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 77da386..f056f87 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -38,18 +38,27 @@ void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
 //------------------------------------------------------------------------------
 
 struct iovec fptu_field_as_iovec(const fptu_field *pf) cxx11_noexcept {
-  if (likely(pf)) {
+  if (likely(!fptu_field_is_dead(pf))) {
     const auto type = pf->type();
     if (fptu::details::is_inplaced(type))
-      return fptu::iovec(&pf->inplaced, fptu::details::loose_units(type));
-
-    if (fptu::details::is_fixed_size(type))
-      return fptu::iovec(pf->relative.payload(),
-                         fptu::details::loose_units(type));
+      return fptu::iovec(&pf->inplaced, fptu::details::preplaced_bytes(type));
 
-    if (pf->relative.have_payload())
-      return fptu::iovec(pf->relative.payload(),
-                         pf->relative.payload()->stretchy.length(type));
+    if (pf->relative.have_payload()) {
+      const auto payload = pf->relative.payload();
+      switch (type) {
+      default:
+        return fptu::iovec(payload, fptu::details::preplaced_bytes(type));
+      case fptu::genus::text:
+        return fptu::iovec(payload->stretchy.string.begin(),
+                           payload->stretchy.string.length());
+      case fptu::genus::varbin:
+        return fptu::iovec(payload->stretchy.varbin.begin(),
+                           payload->stretchy.varbin.length());
+      case fptu::genus::nested:
+      case fptu::genus::property:
+        return fptu::iovec(payload, payload->stretchy.length(type));
+      }
+    }
   }
   return fptu::iovec(nullptr, 0);
 }
-- 
2.43.0


From 7a72e3cc259e96e957f77752a79be16e6eb6d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:35 +0000
Subject: [PATCH 37/62] fix: fptu_get_xxx() reported success for an absent
 field

---
 src/compat_ro.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 304f300..73d2636 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -77,7 +77,7 @@ fptu_lookup_ro(fptu_ro ro, unsigned column,
       cxx11_noexcept {                                                         \
     error_guard raii(error);                                                   \
     try {                                                                      \
-      const fptu::token id(fptu::genus::GENUS, column, false);                 \
+      const fptu::token id(fptu::genus::GENUS, column, false, true);           \
       return THUNK_TYPE(impl(ro)->get_##NAME(id));                             \
     } catch (const std::exception &e) {                                        \
       raii.feed(e);                                                            \
@@ -107,7 +107,7 @@ FPTU_GET_IMPL(nested, nested, nested, fptu_ro, fptu::details::iovec_thunk,
       cxx11_noexcept {                                                         \
     error_guard raii(error);                                                   \
     try {                                                                      \
-      const fptu::token id(fptu::genus::bin##BITS, column, false);             \
+      const fptu::token id(fptu::genus::bin##BITS, column, false, true);       \
       return erthink::constexpr_pointer_cast<const uint8_t *>(                 \
           &impl(ro)->get_bin##BITS(id));                                       \
     } catch (const std::exception &e) {                                        \
@@ -125,8 +125,11 @@ FPTU_GET_IMPL(256)
 const char *fptu_get_cstr(fptu_ro ro, unsigned column,
                           int *error) cxx11_noexcept {
   const fptu_field *pf = fptu::lookup(ro, column, fptu_cstr);
-  if (pf)
+  if (pf) {
+    if (error)
+      *error = FPTU_OK;
     return fptu_field_cstr(pf);
+  }
   fptu_set_error(FPTU_ENOFIELD, "fptu: no such field");
   if (error)
     *error = FPTU_ENOFIELD;
-- 
2.43.0


From bc1f5ebeb20430fc54b65b447d5135321478bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:36 +0000
Subject: [PATCH 38/62] fix: fptu_insert_96/128/160/256() lost values
 consisting of zeros

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 86d393b..38a742c 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -374,7 +374,7 @@ FPTU_INSERT_IMPL(datetime, datetime, t64, fptu_datetime_t)
   fptu_error fptu_insert_##BITS(fptu_rw *pt, unsigned column,                  \
                                 const void *data) cxx11_noexcept {             \
     try {                                                                      \
-      const fptu::token id(fptu::genus::bin##BITS, column, true);              \
+      const fptu::token id(fptu::genus::bin##BITS, column, true, true, false); \
       pt->insert_bin##BITS(                                                    \
           id,                                                                  \
           *erthink::constexpr_pointer_cast<const fptu::binary##BITS##_t *>(    \
-- 
2.43.0


From 73db823d30643e17859ad318bc6a27319ce012c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:30 +0000
Subject: [PATCH 39/62] fix: fptu_upsert_nested() always failed by wrong field
 type

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 38a742c..7d91617 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -336,7 +336,7 @@ fptu_error fptu_upsert_opaque_iov(fptu_rw *pt, unsigned column,
 fptu_error fptu_upsert_nested(fptu_rw *pt, unsigned column,
                               fptu_ro ro) cxx11_noexcept {
   try {
-    const fptu::token id(fptu::genus::varbin, column, false, true, false);
+    const fptu::token id(fptu::genus::nested, column, false, true, false);
     pt->set_nested(id, fptu::details::tuple_ro::make_from_buffer(
                            ro.sys.iov_base, ro.sys.iov_len, nullptr, false));
     return FPTU_OK;
-- 
2.43.0


From de2d435688c7ac1ffd1f0045e54200e9ed8c97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:59 +0000
Subject: [PATCH 40/62] fix: fptu_field_cstr() dereferenced a garbage for a
 field of a different type

---
 src/compat_field.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index f056f87..01684c1 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -132,12 +132,12 @@ const char *fptu_field_cstr(const fptu_field *pf) cxx11_noexcept {
   error_guard raii(nullptr);
   if (likely(pf)) {
     try {
+      const auto value = fptu::details::get<fptu::genus::text>(pf, true);
       const auto payload = pf->relative.payload();
       const char *const field_end =
           erthink::constexpr_pointer_cast<const char *>(
               payload->flat + payload->stretchy.string.brutto_units());
-      return string_view_to_CAPI(
-          fptu::details::get<fptu::genus::text>(pf, true), field_end);
+      return string_view_to_CAPI(value, field_end);
     } catch (const std::exception &e) {
       raii.feed(e);
     }
-- 
2.43.0


From b7a72b491520e0612f6f309971ff7f1883e438d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:25 +0000
Subject: [PATCH 41/62] fix: fptu_field_cstr() could return a string without a
 terminator from a tuple that passes the check

---
 src/compat_field.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 01684c1..06cbdac 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -118,10 +118,8 @@ static const char *string_view_to_CAPI(const fptu::string_view &value,
 
   const char *const cstr_begin = value.data();
   const char *const cstr_end = value.end();
-  if (cstr_end < detend) {
-    assert(*cstr_end == '\0');
+  if (cstr_end < detend && *cstr_end == '\0')
     return cstr_begin;
-  }
 
   holder.assign(cstr_begin, cstr_end);
   assert(holder.c_str()[holder.length()] == '\0');
-- 
2.43.0


From 0cd2c5f3d4f425e09b029320993bc13d3af71ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:38 +0000
Subject: [PATCH 42/62] fix: get_nested_managed() of a read-only tuple failed
 for an empty nested tuple

---
 fast_positive/tuples.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 3097a59..350a3da 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -585,7 +585,7 @@ public:
   template <typename TOKEN>
   __pure_function inline tuple_ro_managed
   get_nested_managed(const TOKEN &ident) const {
-    return tuple_ro_managed(get_impl()->get_nested(ident), get_buffer());
+    return tuple_ro_managed(get_nested_weak(ident), *this);
   }
 };
 
-- 
2.43.0


From dfae815962c7587700d76d7ea44b2c15db5e8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:38 +0000
Subject: [PATCH 43/62] fix: take_weak() and take_managed_clone() did the
 opposite of their dont_optimize argument

---
 fast_positive/tuples.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 350a3da..49c5ce5 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -850,8 +850,8 @@ public:
 
   /* возвращает пару, во втором элементе признак инвалидации итераторов */
   std::pair<tuple_ro_weak, bool> take_weak(bool dont_optimize = false) {
-    return dont_optimize ? take_weak_optimized()
-                         : std::make_pair(take_weak_asis(), false);
+    return dont_optimize ? std::make_pair(take_weak_asis(), false)
+                         : take_weak_optimized();
   }
 
   tuple_ro_managed move_to_ro(bool dont_optimize = false) {
@@ -887,10 +887,9 @@ public:
       bool dont_optimize = false, bool hollow_if_empty = false,
       const hippeus::buffer_tag &allot_tag = default_buffer_allot()) {
     return dont_optimize
-               ? take_managed_clone_optimized(hollow_if_empty, allot_tag)
-               : std::make_pair(
-                     take_managed_clone_asis(hollow_if_empty, allot_tag),
-                     false);
+               ? std::make_pair(
+                     take_managed_clone_asis(hollow_if_empty, allot_tag), false)
+               : take_managed_clone_optimized(hollow_if_empty, allot_tag);
   }
 
   __pure_function static cxx11_constexpr size_t estimate_required_space(
-- 
2.43.0


From 477a1b2b269ca40958559640392cc26843f737bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:47 +0000
Subject: [PATCH 44/62] fix: get_nested_managed() of a modifiable tuple gave a
 handle whose content changed by editing the tuple

---
 fast_positive/tuples.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 49c5ce5..810100d 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -665,7 +665,9 @@ public:
   template <typename TOKEN>
   __pure_function inline tuple_ro_managed
   get_nested_managed(const TOKEN &ident) const {
-    return tuple_ro_managed(get_impl()->get_nested(ident), get_buffer());
+    /* Буфер модифицируемого кортежа нельзя разделять с R/O-формой,
+     * поэтому только копирование. */
+    return tuple_ro_managed::clone(get_nested_weak(ident));
   }
 
 #define HERE_CRTP_MAKE(VALUE_TYPE, NAME)                                       \
-- 
2.43.0


From 1b03f74041938296d0fdfc64b2f90ba49715a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:05 +0000
Subject: [PATCH 45/62] fix: managed read-only clone of a tuple with holes
 turned into an invalid modifiable tuple

---
 src/managed.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index 928b566..befbe64 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -476,7 +476,7 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
         src.data(), src.size(),
         /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
 
-  const details::audit_holes_info &holes_info = {0, 0};
+  const details::audit_holes_info holes_info = src.get_impl()->count_holes();
   return tuple_ro_managed(tuple_rw_fixed(
       holes_info, src,
       /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
-- 
2.43.0


From 51bb03e02e71d507350861e62f0ed6e7bd6931b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:32 +0000
Subject: [PATCH 46/62] fix: managed read-only clone skipped the check against
 the given schema

---
 src/managed.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index befbe64..0d60e86 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -469,8 +469,9 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
       validation,
       /* если схема не задана, то считаем что необходимые проверки были
          сделаны при создании tuple_ro_weak, иначе выполняем повторную
-         проверку для исключения несоответствия схеме */
-      schema == nullptr);
+         проверку для исключения несоответствия схеме (в том числе когда схема
+         не задана, но требуется из-за наличия предопределенных полей) */
+      schema != nullptr || src.get_impl()->have_preplaced());
   if (wanna_validation)
     return tuple_ro_managed(tuple_rw_fixed(
         src.data(), src.size(),
-- 
2.43.0


From 42817f307c5d10f778dc4053caac600d013f6667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:03 +0000
Subject: [PATCH 47/62] fix: schema::by_loose() did not find some of the
 defined fields when there are four or more

---
 src/schema.cxx | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index e1b30cf..3abbea8 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -410,25 +410,19 @@ schema::by_loose(const details::field_loose *field) const cxx11_noexcept {
     case 3:
       assert(iter->is_loose());
       if (iter->normalized_tag() >= normalized_tag)
-        return (details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
-                   ? *iter
-                   : token();
+        break;
       ++iter;
       __fallthrough /* fall through */;
     case 2:
       assert(iter->is_loose());
       if (iter->normalized_tag() >= normalized_tag)
-        return (details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
-                   ? *iter
-                   : token();
+        break;
       ++iter;
       __fallthrough /* fall through */;
     case 1:
       assert(iter->is_loose());
       if (iter->normalized_tag() >= normalized_tag)
-        return (details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
-                   ? *iter
-                   : token();
+        break;
       ++iter;
       __fallthrough /* fall through */;
     case 0:
@@ -437,6 +431,11 @@ schema::by_loose(const details::field_loose *field) const cxx11_noexcept {
       assert(false);
       __unreachable();
     }
+
+    /* искомое поле может быть и в элементе сразу за последним интервалом */
+    if (iter != sorted_tokens_.end() &&
+        details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
+      return *iter;
   }
 
   return token();
-- 
2.43.0


From a89d0145cfe65871e24e2f698e84d0083f956e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:27 +0000
Subject: [PATCH 48/62] fix: import of a definition into the already occupied
 range of preplaced fields failed or misplaced the initial value

---
 src/schema.cxx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 3abbea8..47d38de 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -148,8 +148,7 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
         throw_schema_definition_error(
             "preplaced field is overlapped by another");
     }
-    preplaced_image_.reserve(ident.preplaced_offset() + ident.preplaced_size() -
-                             preplaced_image_.size());
+    preplaced_image_.reserve(ident.preplaced_offset() + ident.preplaced_size());
   }
   sorted_tokens_.reserve(sorted_tokens_.size() + 1);
   name2token_.reserve(name2token_.size() + 1);
@@ -157,14 +156,19 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
 
   try {
     if (ident.is_preplaced()) {
-      if (ident.preplaced_offset() > ptrdiff_t(preplaced_image_.size()))
-        preplaced_image_.append(
-            ident.preplaced_offset() - preplaced_image_.size(), '\0');
+      const std::size_t detent =
+          ident.preplaced_offset() + ident.preplaced_size();
+      if (detent > preplaced_image_.size())
+        preplaced_image_.resize(detent, '\0');
       if (initial_value)
-        preplaced_image_.append(static_cast<const char *>(initial_value),
-                                ident.preplaced_size());
+        preplaced_image_.replace(ident.preplaced_offset(),
+                                 ident.preplaced_size(),
+                                 static_cast<const char *>(initial_value),
+                                 ident.preplaced_size());
       else {
-        preplaced_image_.append(ident.preplaced_size(), '\0');
+        preplaced_image_.replace(ident.preplaced_offset(),
+                                 ident.preplaced_size(), ident.preplaced_size(),
+                                 '\0');
         const auto initial_value_ptr =
             erthink::constexpr_pointer_cast<details::field_preplaced *>(
                 const_cast<char *>(preplaced_image_.data()) +
-- 
2.43.0


From 1371caa1814f2dc99915169b86c66e414dff8581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:51 +0000
Subject: [PATCH 49/62] fix: iteration started at a wrong place when the first
 preplaced field does not lie at the very beginning

---
 src/ro.cxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ro.cxx b/src/ro.cxx
index a287b0b..ffcdcb6 100644
--- a/src/ro.cxx
+++ b/src/ro.cxx
@@ -155,11 +155,15 @@ field_iterator_ro::begin(const void *pivot,
                          const fptu::schema *schema) cxx11_noexcept {
   const auto last_loose = static_cast<const details::field_loose *>(pivot) - 1;
   if (schema && schema->number_of_preplaced()) {
-    field_iterator_ro iter(static_cast<const details::field_preplaced *>(pivot),
-                           pivot, schema);
-    /* пропускаем null-евые preplaced-поля */
+    /* первое preplaced-поле может быть не в самом начале,
+     * если определения импортировались с зазорами */
     auto ident = schema->tokens().begin();
-    assert(ident->is_valid() && ident->preplaced_offset() == 0);
+    assert(ident->is_valid() && ident->is_preplaced());
+    field_iterator_ro iter(
+        erthink::constexpr_pointer_cast<const details::field_preplaced *>(
+            static_cast<const char *>(pivot) + ident->preplaced_offset()),
+        pivot, schema);
+    /* пропускаем null-евые preplaced-поля */
     const auto detent = ident + schema->number_of_preplaced();
     while (unlikely(iter.preplaced()->is_null(ident->tag()))) {
       if (++ident == detent) {
-- 
2.43.0


From 6c20c51e594d06c3df895b6251d1eabea37a1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:52 +0000
Subject: [PATCH 50/62] fix: preplaced fields were not found from the end of
 the longest possible preplaced area

---
 src/schema.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 47d38de..3be1f54 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -346,8 +346,10 @@ schema::search_preplaced(const ptrdiff_t offset) const cxx11_noexcept {
   /* Смещение prelaced-поля в старших битах тэга и токена, поэтому для поиска
    * нормализация НЕ требуется, ибо дополнительные флаги не меняют порядка */
   const details::tag_t tag(
-      static_cast<details::tag_t>(offset << details::tag_bits::offset_shift));
-  assert(tag >> details::tag_bits::offset_shift == size_t(offset));
+      size_t(offset) > details::tag_bits::max_preplaced_offset
+          ? details::tag_t(details::tag_bits::loose_threshold)
+          : static_cast<details::tag_t>(offset
+                                        << details::tag_bits::offset_shift));
 
   auto iter = sorted_tokens_.begin();
   while (span > 3) {
-- 
2.43.0


From 8d100beb2687ec3eeedab7dbbb0134ac4edaf863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:10 +0000
Subject: [PATCH 51/62] fix: opaque preplaced fields lost their size, took no
 space and could not be iterated along with the fields inside of them

---
 fast_positive/tuples/details/meta.h |  3 +++
 fast_positive/tuples/token.h        | 10 +++++++
 src/ro.cxx                          | 16 +++++------
 src/schema.cxx                      | 41 +++++++++++++----------------
 4 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/fast_positive/tuples/details/meta.h b/fast_positive/tuples/details/meta.h
index f6eb797..9b0b6a1 100644
--- a/fast_positive/tuples/details/meta.h
+++ b/fast_positive/tuples/details/meta.h
@@ -836,6 +836,9 @@ static inline void preplaced_erase(const genus type,
     HERE_CASE_ITEM(28);
     HERE_CASE_ITEM(29);
     HERE_CASE_ITEM(30);
+  case hole:
+    /* непрозрачная структура, длина известна только её токену */
+    return;
 #undef HERE_CASE_ITEM
   }
 }
diff --git a/fast_positive/tuples/token.h b/fast_positive/tuples/token.h
index a12d73c..0c04f9a 100644
--- a/fast_positive/tuples/token.h
+++ b/fast_positive/tuples/token.h
@@ -401,6 +401,16 @@ public:
       : base(details::tag_from_offset(
             validate_preplaced_offset(offset), validate_preplaced_type(type),
             details::preplaced_bytes(type), discernible_null, saturated)) {}
+
+  /* Токен preplaced-поля с типом "непрозрачная структура". */
+  static cxx14_constexpr token make_opacity(const ptrdiff_t offset,
+                                            const std::size_t size) {
+    if (constexpr_unlikely(size < 1 || size > details::tag_bits::max_ident))
+      throw_invalid_argument("size < 1 || size > details::max_ident");
+    return token(details::tag_from_offset(validate_preplaced_offset(offset),
+                                          genus::hole, size, false, false));
+  }
+
   cxx11_constexpr token(const token &) cxx11_noexcept = default;
   cxx11_constexpr
   token(const details::token_nonstatic_tag &other) cxx11_noexcept
diff --git a/src/ro.cxx b/src/ro.cxx
index ffcdcb6..1e78719 100644
--- a/src/ro.cxx
+++ b/src/ro.cxx
@@ -157,25 +157,23 @@ field_iterator_ro::begin(const void *pivot,
   if (schema && schema->number_of_preplaced()) {
     /* первое preplaced-поле может быть не в самом начале,
      * если определения импортировались с зазорами */
-    auto ident = schema->tokens().begin();
-    assert(ident->is_valid() && ident->is_preplaced());
+    token ident = schema->tokens().front();
+    assert(ident.is_valid() && ident.is_preplaced());
     field_iterator_ro iter(
         erthink::constexpr_pointer_cast<const details::field_preplaced *>(
-            static_cast<const char *>(pivot) + ident->preplaced_offset()),
+            static_cast<const char *>(pivot) + ident.preplaced_offset()),
         pivot, schema);
     /* пропускаем null-евые preplaced-поля */
-    const auto detent = ident + schema->number_of_preplaced();
-    while (unlikely(iter.preplaced()->is_null(ident->tag()))) {
-      if (++ident == detent) {
+    while (unlikely(iter.preplaced()->is_null(ident.tag()))) {
+      ident = schema->next_by_offset(ident.preplaced_offset());
+      if (!ident.is_valid()) {
         /* дошли до конца preplaced, переходим к первому loose-полю */
         iter.field_ = last_loose;
         break;
       }
 
       /* устанавливаем итератор на следующее preplaced-поле */
-      assert(ident->is_valid());
-      iter.field_ =
-          static_cast<const char *>(pivot) + ident->preplaced_offset();
+      iter.field_ = static_cast<const char *>(pivot) + ident.preplaced_offset();
     }
     return iter;
   } else {
diff --git a/src/schema.cxx b/src/schema.cxx
index 3be1f54..f3bf186 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -87,16 +87,6 @@ struct schema_impl : public schema {
   get_name_nothrow(const token &ident) const cxx11_noexcept override;
 };
 
-static bool is_inside(const std::ptrdiff_t point, const token &ident) {
-  return point >= ident.preplaced_offset() &&
-         point < ident.preplaced_offset() + ptrdiff_t(ident.preplaced_size());
-}
-
-static bool is_crossing(const token &a, const token &b) {
-  return is_inside(a.preplaced_offset(), b) !=
-         is_inside(a.preplaced_offset() + a.preplaced_size() - 1, b);
-}
-
 static bool is_overlapped(const token &a, const token &b) {
   if (a.preplaced_offset() + ptrdiff_t(a.preplaced_size()) <=
       b.preplaced_offset())
@@ -107,6 +97,16 @@ static bool is_overlapped(const token &a, const token &b) {
   return true;
 }
 
+static bool is_inside(const token &inner, const token &outer) {
+  return inner.preplaced_offset() >= outer.preplaced_offset() &&
+         inner.preplaced_offset() + ptrdiff_t(inner.preplaced_size()) <=
+             outer.preplaced_offset() + ptrdiff_t(outer.preplaced_size());
+}
+
+static bool is_crossing(const token &a, const token &b) {
+  return is_overlapped(a, b) && !is_inside(a, b) && !is_inside(b, a);
+}
+
 unsigned schema_impl::get_next_loose_id(fptu::genus type) const {
   const token ident(fptu::genus(type), details::max_ident, false, false, false);
   const auto greater_than =
@@ -231,8 +231,7 @@ token schema_impl::define_preplaced_fixed_opacity(std::string &&name,
   if (unlikely(align >= std::alignment_of<std::max_align_t>::value))
     throw_invalid_argument("requested alignment cannot be satisfied");
   if (align == 0)
-    align = (size > fundamentals::unit_size) ? size_t(fundamentals::unit_size)
-                                             : size;
+    align = (size > 2) ? size_t(fundamentals::unit_size) : size;
   else if (unlikely(!utils::is_power2(align)))
     throw_invalid_argument("alignment must be a power of 2");
 
@@ -243,7 +242,7 @@ token schema_impl::define_preplaced_fixed_opacity(std::string &&name,
   if (unlikely(aligned_offset > details::max_preplaced_offset))
     throw_schema_definition_error("fptu: too many preplaced fields");
 
-  const token ident(aligned_offset, genus::hole, false, false);
+  const token ident(token::make_opacity(aligned_offset, size));
   add_definition(std::move(name), ident, initial_value);
   return ident;
 }
@@ -462,16 +461,13 @@ token schema::by_offset(const ptrdiff_t offset) const cxx11_noexcept {
 
 token schema::next_by_offset(const ptrdiff_t offset) const cxx11_noexcept {
   if (likely(offset >= 0 && offset < ptrdiff_t(preplaced_bytes()))) {
-    auto iter = search_preplaced(offset);
+    /* по одному смещению могут быть и структура, и её первое поле */
+    const auto iter = search_preplaced(offset + 1);
     const auto detent = tokens().begin() + number_of_preplaced();
     assert(iter >= tokens().begin() && iter <= detent);
     if (likely(iter < detent)) {
-      assert(iter->preplaced_offset() >= offset);
-      iter += iter->preplaced_offset() == offset;
-      if (likely(iter < detent)) {
-        assert(iter->is_preplaced());
-        return *iter;
-      }
+      assert(iter->is_preplaced() && iter->preplaced_offset() > offset);
+      return *iter;
     }
   }
   return token();
@@ -482,9 +478,10 @@ token schema::prev_by_offset(const ptrdiff_t offset) const cxx11_noexcept {
     auto iter = search_preplaced(offset);
     assert(iter >= tokens().begin() &&
            iter <= tokens().begin() + number_of_preplaced());
-    if (likely(--iter >= tokens().begin())) {
+    if (likely(iter != tokens().begin())) {
+      --iter;
       assert(iter->preplaced_offset() < offset);
-      return *iter;
+      return *search_preplaced(iter->preplaced_offset());
     }
   }
   return token();
-- 
2.43.0


From 3a9df78d4a05e545f181c6620f9a1746ca61f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:58 +0000
Subject: [PATCH 52/62] fix: erasing a field by a compile-time token did not
 compile

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 09b51c1..a7f7bd8 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1088,7 +1088,7 @@ public: //----------------------------------------------------------------------
   FPTU_TEMPLATE_FOR_STATIC_TOKEN
   bool erase(const TOKEN &ident) {
     return likely(!ident.is_collection()) ? remove(ident)
-                                          : erase(collection(ident)) > 0;
+                                          : erase(collection(::fptu::token(ident))) > 0;
   }
   bool erase(const token &ident);
   __pure_function const char *audit() const cxx11_noexcept {
-- 
2.43.0


From 334da46f2ad8ec702a5f5395c3377e4ce591a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:58 +0000
Subject: [PATCH 53/62] fix: the structure member for a pre-placed stretchy
 field was half the size of its slot

---
 fast_positive/tuples/details/field.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 7f51f95..4c9a738 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -474,12 +474,23 @@ cxx11_constexpr const void *stretchy_value_tuple::pivot() const cxx11_noexcept {
   return begin_index() + index_size();
 }
 
-class preplaced_stretchy_value : protected relative_offset {
+class preplaced_stretchy_value {
+protected:
+  relative_offset relative;
+  /* preplaced-поле переменной длины занимает юнит целиком */
+  uint16_t reserved;
+
+  cxx14_constexpr const relative_payload *payload() const cxx11_noexcept {
+    return relative.payload();
+  }
+
 public:
   cxx11_constexpr bool nil() const cxx11_noexcept {
-    return !relative_offset::have_payload();
+    return !relative.have_payload();
   }
 };
+static_assert(sizeof(preplaced_stretchy_value) == fundamentals::unit_size,
+              "WTF?");
 
 #pragma pack(pop)
 
-- 
2.43.0


From 29fdd73541f097696178abceb5f92215cb20e2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:06 +0000
Subject: [PATCH 54/62] fix: a tuple of the extreme scale could not be created
 for a schema with pre-placed fields

---
 src/managed.cxx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index 0d60e86..8d8e1a3 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -53,13 +53,18 @@ static const unsigned scale2more[unsigned(initiation_scale::extreme) + 1] = {
     unsigned(max_tuple_bytes_netto - details::units2bytes(max_fields)),
 };
 
-std::size_t estimate_space_for_tuple(const initiation_scale &scale,
-                                     const fptu::schema *schema) {
+/* место под данные в дополнение к preplaced-полям */
+static std::size_t scale2data(const initiation_scale scale,
+                              const fptu::schema *schema) {
   const size_t preplaced_bytes = schema ? schema->preplaced_bytes() : 0;
   const size_t scale_bytes = scale2bytes[scale];
-  size_t data_bytes = scale_bytes - std::min(scale_bytes, preplaced_bytes);
-  return details::tuple_rw::estimate_required_space(scale2items[scale],
-                                                    data_bytes, schema);
+  return scale_bytes - std::min(scale_bytes, preplaced_bytes);
+}
+
+std::size_t estimate_space_for_tuple(const initiation_scale &scale,
+                                     const fptu::schema *schema) {
+  return details::tuple_rw::estimate_required_space(
+      scale2items[scale], scale2data(scale, schema), schema);
 }
 
 //------------------------------------------------------------------------------
@@ -72,7 +77,7 @@ tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale)
 tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale,
                                const fptu::schema *schema,
                                const hippeus::buffer_tag &allot_tag)
-    : tuple_rw_fixed(scale2items[scale], scale2bytes[scale], schema,
+    : tuple_rw_fixed(scale2items[scale], scale2data(scale, schema), schema,
                      allot_tag) {}
 tuple_rw_fixed::tuple_rw_fixed(std::size_t items_limit, std::size_t data_bytes,
                                const fptu::schema *schema,
-- 
2.43.0


From c13f08bd952d86eaf053de6664e500a8b27cbf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:17 +0000
Subject: [PATCH 55/62] fix: growing near the limit of the tuple size could
 reserve so many index entries that data no longer fit

---
 src/autogrowth.cxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index f9cfbb2..b0df417 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -125,13 +125,16 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
           : details::units2bytes(data_capacity_units + 42));
 
   /* Место под индекс: удваиваем если не хватило или использовано хотя-бы на
-   * половину, иначе оставляем как есть. */
-  const size_t growth_index =
+   * половину, иначе оставляем как есть. Но не отбираем место, которое требуется
+   * под данные в пределах максимального размера кортежа. */
+  const size_t growth_index = std::min(
       std::min(size_t(fundamentals::max_fields),
-               (wanna.index_space > pimpl_->head_space() ||
-                pimpl_->head_ + pimpl_->head_ < pimpl_->pivot_)
-                   ? (wanna.index_space + pimpl_->pivot_) * 2
-                   : pimpl_->pivot_);
+               size_t(fundamentals::max_tuple_units_netto) - wanna.data_space -
+                   (pimpl_->tail_ - pimpl_->pivot_)),
+      (wanna.index_space > pimpl_->head_space() ||
+       pimpl_->head_ + pimpl_->head_ < pimpl_->pivot_)
+          ? (wanna.index_space + pimpl_->pivot_) * 2
+          : pimpl_->pivot_);
 
   size_t growth_space = details::tuple_rw::estimate_required_space(
       growth_index, growth_data, pimpl_->schema_);
-- 
2.43.0


From 67ae30ad6db20d1a406b3d095472eb7b73f3e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 56/62] fix: assignment of a std::string to a field accessor
 did not compile

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index a7f7bd8..8eba64c 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -852,7 +852,7 @@ public:
 #undef HERE_GENUS_CASE
 
     const std::string &operator=(const std::string &value) {
-      set_string(value);
+      set_string(string_view(value));
       return value;
     }
 
-- 
2.43.0


From d0a3a17324f4e74a42b1997ae2a0497b28e76a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 57/62] fix: estimate_space_for_tuple() was not exported from
 the shared library

---
 fast_positive/tuples.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 810100d..f1efb1d 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -164,7 +164,7 @@ enum initiation_scale {
 
   scale_default = tiny
 };
-std::size_t estimate_space_for_tuple(const initiation_scale &scale,
+FPTU_API std::size_t estimate_space_for_tuple(const initiation_scale &scale,
                                      const schema *schema);
 
 /* Параметры по-умолчанию.
-- 
2.43.0


From e579047ed43d52cde9c5fc7f97f2008a353fc56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 58/62] fix: fptu_init() and fptu_fetch() wrote past the end of
 a too small buffer

---
 src/rw.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rw.cxx b/src/rw.cxx
index e65e4f6..4c7576a 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -697,6 +697,8 @@ tuple_rw *tuple_rw::create_new(std::size_t items_limit, std::size_t data_bytes,
 
 tuple_rw *tuple_rw::create_legacy(void *buffer_space, std::size_t buffer_size,
                                   std::size_t items_limit) {
+  if (unlikely(buffer_size < pure_tuple_size()))
+    throw_invalid_argument();
   return new (buffer_space) tuple_rw(0, buffer_size, items_limit, nullptr);
 }
 
@@ -794,6 +796,8 @@ tuple_rw *tuple_rw::fetch_legacy(const audit_holes_info &holes_info,
                                  std::size_t buffer_size,
                                  std::size_t more_items) {
   assert(ro->audit(nullptr, holes_info.count == 0) == nullptr);
+  if (unlikely(buffer_size < pure_tuple_size()))
+    throw_insufficient_space(0, pure_tuple_size());
   return new (buffer_space)
       tuple_rw(holes_info, ro, 0, buffer_size, more_items, nullptr);
 }
-- 
2.43.0


From 123f5e3b6e6fd891cbb03409a422dadb812feb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 59/62] fix: fptu_get_buffer_size() terminated the process when
 asked for too much

---
 src/compat_rw.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 7d91617..dc0e9a5 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -162,8 +162,13 @@ size_t fptu_get_buffer_size(fptu_ro ro, unsigned more_items,
                             unsigned more_payload) cxx11_noexcept {
   const fptu::details::tuple_ro *tuple_ro =
       static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
-  return fptu::details::tuple_rw::estimate_required_space(
-      tuple_ro, more_items, more_payload, nullptr);
+  try {
+    return fptu::details::tuple_rw::estimate_required_space(
+        tuple_ro, more_items, more_payload, nullptr);
+  } catch (const std::exception &e) {
+    fptu_set_error(e);
+    return 0;
+  }
 }
 
 static const char cbfs_ok_sign[] = "FPTU_SUCCESS";
-- 
2.43.0


From f64bcad8c960f557d101caf8c1810eaae94eaae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 60/62] fix: lookup by type in a column behind the last one
 found the field of another column

---
 src/compat_common.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compat_common.cxx b/src/compat_common.cxx
index cc26ddb..3f6f86c 100644
--- a/src/compat_common.cxx
+++ b/src/compat_common.cxx
@@ -77,6 +77,8 @@ __hot const fptu_field *
 fptu_first(const fptu_field *begin, const fptu_field *end, unsigned column,
            fptu_type_or_filter type_or_filter) cxx11_noexcept {
   if (!is_filter(type_or_filter)) {
+    if (unlikely(column > fptu::details::tag_bits::max_ident))
+      return end /* no such column, but the tag would wrap around */;
     const fptu_field *pf =
         static_cast<const fptu_field *>(fptu::details::lookup(
             false, begin, end, colid2tag(type_or_filter, column)));
-- 
2.43.0


From a58ecfeef67a0e4ef9b26284c4d8c47bd1e3e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 61/62] fix: bytes between the last pre-placed field and the
 end of its unit were left uninitialised and got into the serialised form

---
 fast_positive/tuples/details/rw.h | 2 ++
 src/rw.cxx                        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 8eba64c..00dba2d 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -202,6 +202,8 @@ protected:
     head_ = tail_ = pivot_ = unsigned(items_limit);
     if (schema_ && schema_->number_of_preplaced()) {
       tail_ += unsigned(schema_->preplaced_units());
+      if (tail_ > pivot_)
+        area_[tail_ - 1] = 0 /* the padding should not be garbage */;
       std::memcpy(pivot(), schema_->preplaced_init_image(),
                   schema_->preplaced_bytes());
     }
diff --git a/src/rw.cxx b/src/rw.cxx
index 4c7576a..1f53264 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -631,6 +631,8 @@ void tuple_rw::reset() {
     if (unlikely(schema_->preplaced_units() > end_ - tail_))
       throw_tuple_bad(this);
     tail_ += unsigned(schema_->preplaced_units());
+    if (tail_ > pivot_)
+      area_[tail_ - 1] = 0 /* the padding should not be garbage */;
     std::memcpy(pivot(), schema_->preplaced_init_image(),
                 schema_->preplaced_bytes());
   }
-- 
2.43.0


From 2ef00699218d71febf276fc3643d569ca04287e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:30 +0000
Subject: [PATCH 62/62] fix: a tuple created with pre-placed fields could have
 less room for data than was asked for

---
 fast_positive/tuples/details/rw.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 00dba2d..43efb11 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1169,9 +1169,8 @@ public: //----------------------------------------------------------------------
 
     const std::size_t estimated =
         pure_tuple_size() + items * unit_size +
-        utils::ceil(dont_account_preplaced ? data_bytes
-                                           : data_bytes + preplaced_bytes,
-                    unit_size);
+        utils::ceil(data_bytes, unit_size) +
+        (dont_account_preplaced ? 0 : utils::ceil(preplaced_bytes, unit_size));
     assert(estimated <= fundamentals::buffer_enough);
     return estimated;
   }
-- 
2.43.0

