From a7aed9945107cc7507b832f408ad581652d52b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 01/44] fix: report failed BigIntWords allocations with
 std::bad_alloc

---
 include/walnut/big_int_words.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/walnut/big_int_words.h b/include/walnut/big_int_words.h
index 1b55f52..abdd518 100644
--- a/include/walnut/big_int_words.h
+++ b/include/walnut/big_int_words.h
@@ -7,6 +7,8 @@
 // For offsetof
 #include <cstddef>
 #include <cstdlib>
+// For std::bad_alloc
+#include <new>
 
 #include "walnut/big_uint_word.h"
 
@@ -132,8 +134,11 @@ class BigIntWords {
     assert(used_words >= 1);
     const size_t extra_size = used_words - 1;
     if (extra_size > extra_capacity()) {
+      // Allocate before freeing, so that the container remains valid if the
+      // allocation fails.
+      BigUIntWord* new_extra = AllocateExtra(extra_size);
       FreeExtra(extra_);
-      extra_ = AllocateExtra(extra_size);
+      extra_ = new_extra;
     }
     extra_size_ = extra_size;
   }
@@ -204,6 +209,9 @@ class BigIntWords {
                               (capacity - 1) * sizeof(BigUIntWord);
     ExtraStorage* storage = reinterpret_cast<ExtraStorage*>(std::malloc(
           alloc_size));
+    if (storage == nullptr) {
+      throw std::bad_alloc();
+    }
     storage->capacity = capacity;
     return &storage->words_[0];
   }
-- 
2.43.0


From bed1b03f41fa352593251178b9aab900baccd9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:21 +0000
Subject: [PATCH 02/44] fix: grow BigInt by a word when ++ or -- overflows the
 top word

---
 include/walnut/big_int.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index b269f9d..283cbdd 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -322,8 +322,7 @@ class BigInt {
     }
     ++words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::min()) {
-      ++i;
-      ++words_[i] = 0;
+      words_.push_back(BigUIntWord{0});
     } else {
       Trim();
     }
@@ -395,9 +394,7 @@ class BigInt {
     }
     --words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::max()) {
-      words_.resize(used_words() + 1);
-      ++i;
-      ++words_[i] = (BigIntWord)-1;
+      words_.push_back(BigUIntWord{-1});
     } else {
       Trim();
     }
-- 
2.43.0


From 91237a4f101dd14494aae868c01feb740c847c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 03/44] fix: BigInt += and -= with the same multiword object on
 both sides

---
 include/walnut/big_int.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 283cbdd..badfb5d 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -274,15 +274,18 @@ class BigInt {
     size_t common_words = std::min(words_.size(), other.words_.size());
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
-    size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    const size_t old_used_words = used_words();
+    // `other` may be the same object as `this`, so get its size before
+    // resizing `this`.
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Add(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Add(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Add(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Add(other_extension, carry, &carry);
@@ -345,15 +348,18 @@ class BigInt {
     size_t common_words = std::min(words_.size(), other.words_.size());
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
-    size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    const size_t old_used_words = used_words();
+    // `other` may be the same object as `this`, so get its size before
+    // resizing `this`.
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Subtract(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Subtract(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Subtract(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Subtract(other_extension, carry, &carry);
-- 
2.43.0


From 6320aa6f7edbf6aff80a98de0a22bd7c4574cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 04/44] fix: dividing the lowest BigIntWord by -1 trapped

---
 include/walnut/big_int.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index badfb5d..7334c5a 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -657,6 +657,9 @@ class BigInt {
   // Divide `this` by `other`. Return the quotient.
   BigInt operator/(const BigInt& other) const {
     if (used_words() == 1 && other.used_words() == 1) {
+      // The quotient of the lowest BigIntWord and -1 does not fit in a
+      // BigIntWord.
+      if (other == -1) return -*this;
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
     }
     BigInt unused;
@@ -681,6 +684,10 @@ class BigInt {
   // The quotient is rounded towards 0.
   BigInt DivideRemainder(const BigInt& other, BigInt* remainder_out) const {
     if (used_words() == 1 && other.used_words() == 1) {
+      if (other == -1) {
+        *remainder_out = BigInt(0);
+        return -*this;
+      }
       *remainder_out = BigInt(BigIntWord{words_[0]} %
                                   BigIntWord{other.words_[0]});
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
@@ -691,6 +698,7 @@ class BigInt {
   // Divide `this` by `other`. Return the remainder.
   BigInt operator%(const BigInt& other) const {
     if (used_words() == 1 && other.used_words() == 1) {
+      if (other == -1) return BigInt(0);
       return BigInt(BigIntWord{words_[0]} %
                         BigIntWord{other.words_[0]});
     }
-- 
2.43.0


From a05e8d48415e9b4870260b67692825682a335c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 05/44] fix: BigInt::abs of the lowest BigIntWord stayed
 negative

---
 include/walnut/big_int.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 7334c5a..2fd029e 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -740,9 +740,6 @@ class BigInt {
   }
 
   BigInt abs() const {
-    if (used_words() == 1) {
-      return BigInt(BigIntWord{words_[0].SignedAbs()});
-    }
     if (BigIntWord{words_[used_words() - 1]} >= 0) {
       return *this;
     } else {
-- 
2.43.0


From 2093e66b9c6ebd225c1d5f567c0bb38d53fb2ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 06/44] fix: BigUInt << left the low words of long shifts
 uninitialized

---
 include/walnut/big_uint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index b38162b..ec9626a 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -73,7 +73,7 @@ class BigUInt {
     if (word_left_shift > 0) {
       size_t copy = used_words();
       size_t allocate = copy + out + 1;
-      result.words_.resize(allocate);
+      result.words_.resize(allocate, BigUIntWord{0});
       BigUIntWord prev(0);
       const int prev_right_shift = bits_per_word - word_left_shift;
       for (; in < copy; in++, out++) {
@@ -85,7 +85,7 @@ class BigUInt {
       out++;
     } else {
       size_t copy = used_words();
-      result.words_.resize(copy + out);
+      result.words_.resize(copy + out, BigUIntWord{0});
       for (; in < copy; in++, out++) {
         result.words_[out] = words_[in];
       }
-- 
2.43.0


From 36e99ac208bfcdaee73bd1ae8e33a7ccb3608d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 07/44] fix: BigUInt::AddLeftShifted carried into an
 uninitialized word

---
 include/walnut/big_uint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index ec9626a..0bb5b88 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -179,7 +179,7 @@ class BigUInt {
       pos++;
     }
     for (; carry; pos++) {
-      words_.resize(std::max(used_words(), (pos + 1)));
+      words_.resize(std::max(used_words(), (pos + 1)), BigUIntWord{0});
       words_[pos] = words_[pos].Add(carry, &carry);
     }
     assert(used_words() == std::max(old_used, pos));
-- 
2.43.0


From 2d5f219866489026cd4229b9351d877dda3e56e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 08/44] fix: long division indexed past the remainder once it
 became short

---
 include/walnut/big_uint.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index 0bb5b88..b4a34d0 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -189,6 +189,9 @@ class BigUInt {
 
   // Subtracts (other << shift) from this.
   constexpr BigUInt& SubtractLeftShifted(const BigUInt& other, size_t shift) {
+    // Subtracting 0 is always allowed, even if the shift goes past the highest
+    // word of this.
+    if (other.used_words() == 1 && other.words_[0] == 0) return *this;
     size_t in = 0;
     size_t out = shift / bits_per_word;
     const int word_left_shift = shift % bits_per_word;
@@ -265,6 +268,7 @@ class BigUInt {
   BigUIntWord GetAtBitOffset(size_t shift) const {
     size_t word_index = shift / bits_per_word;
     unsigned word_offset = shift % bits_per_word;
+    if (word_index >= words_.size()) return BigUIntWord{0};
     BigUIntWord next{0};
     if (word_index + 1 < words_.size()) {
       next = words_[word_index+1];
-- 
2.43.0


From b7e33dac7806adb66ad19f3665b77195e4c516e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 09/44] fix: constructing a deed from a null pointer
 dereferenced it

---
 include/walnut/deed.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index a324337..f24f93b 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -55,7 +55,8 @@ class GenericDeed {
   GenericDeed() = default;
 
   GenericDeed(DeedTarget* object) : object_(object) {
-    if (object != nullptr && object->owner_ != nullptr) {
+    if (object == nullptr) return;
+    if (object->owner_ != nullptr) {
       lender_ = object->owner_;
       lender_->MarkLent();
     }
-- 
2.43.0


From 4830e2d61825747c6fa69c88d5d42136710685f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 10/44] fix: a GenericDeed loan did not follow the object when
 it moved

---
 include/walnut/deed.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index f24f93b..d379190 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -151,6 +151,9 @@ class GenericDeed {
   GenericDeed(DeedTarget* object, GenericDeed* borrowed_from) :
       object_(object), lender_(borrowed_from) {
     lender_->MarkLent();
+    if (object_) {
+      object_->owner_ = this;
+    }
   }
 
   void MarkLent() {
-- 
2.43.0


From 34df4af4d1b4bfc4688e21e8ff8bb2246b996f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 11/44] fix: redirecting a non-primary RedirectableValue split
 its group

---
 include/walnut/redirectable_value.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/walnut/redirectable_value.h b/include/walnut/redirectable_value.h
index 100c1e8..064ce11 100644
--- a/include/walnut/redirectable_value.h
+++ b/include/walnut/redirectable_value.h
@@ -77,14 +77,17 @@ class RedirectableValue {
 
   // Change this entry so that when it is dereferenced the value at `to` is
   // accessed instead.
+  //
+  // Every other entry that currently shares its value with this entry is
+  // redirected along with it.
   void Redirect(RedirectableValue& to) {
+    RedirectableValue& final_from = primary();
     RedirectableValue& final_to = to.primary();
-    if (&final_to == redirect_) return;
+    if (&final_to == &final_from) return;
 
-    if (redirect_ == this) {
-      reinterpret_cast<Value *>(&value_)->~Value();
-    }
-    redirect_ = &to.primary();
+    reinterpret_cast<Value *>(&final_from.value_)->~Value();
+    final_from.redirect_ = &final_to;
+    redirect_ = &final_to;
   }
 
  private:
-- 
2.43.0


From a7e90f09289e4e6dcd229d8d39d358512711df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:30 +0000
Subject: [PATCH 12/44] fix: keep the winding numbers of an already split tree
 when content is added

PushContentPWNToChildren indexed the content info of a child without growing it
for ids that were added after the child was created, and changed the PWN of the
child only, not of the cells below it.
---
 include/walnut/bsp_node.h | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index bf0ab25..13c48e0 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -268,6 +268,26 @@ class BSPNode {
     }
   }
 
+  // Ensures that `content_info_by_id_` has at least `size` entries.
+  void ReserveContentInfo(size_t size) {
+    if (content_info_by_id_.size() < size) {
+      content_info_by_id_.resize(size);
+    }
+  }
+
+  // Adds `delta` to the PWN of `id` for this node.
+  //
+  // If this node was split already, then its descendants started from the old
+  // PWN, so they are adjusted too.
+  void AddPWN(BSPContentId id, int64_t delta) {
+    ReserveContentInfo(id + 1);
+    content_info_by_id_[id].pwn += delta;
+    if (!IsLeaf()) {
+      negative_child_->AddPWN(id, delta);
+      positive_child_->AddPWN(id, delta);
+    }
+  }
+
   void SetPolygonCountFromContents() {
     for (PolygonRep& polygon : contents_) {
       content_info_by_id_[polygon.id].has_interior_polygons++;
@@ -517,9 +537,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          push_info.first;
+        push_to_child->AddPWN(polygon.id, push_info.first);
       }
 
       const EdgeRep& next_edge =
@@ -529,9 +547,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          -push_info.first;
+        push_to_child->AddPWN(polygon.id, -push_info.first);
       }
     }
   }
@@ -600,6 +616,10 @@ void BSPNode<OutputPolygonParent>::PushContentsToChildren() {
   if (IsLeaf()) {
     return;
   }
+  // Content could have been added to this node with an id that did not exist
+  // yet when the children were created.
+  negative_child_->ReserveContentInfo(content_info_by_id_.size());
+  positive_child_->ReserveContentInfo(content_info_by_id_.size());
   PushContentPWNToChildren();
 
   for (PolygonRep& polygon : contents_) {
-- 
2.43.0


From 5323fd18e4461b72aa247e55f86876064d991fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:30 +0000
Subject: [PATCH 13/44] fix: SubtractIdsFilter started from id 0 instead of the
 minuend

---
 include/walnut/boolean_operation_filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 13eda01..5240b84 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -118,8 +118,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       return std::make_pair(false, false);
     } 
 
-    std::pair<bool, bool> total(content_info_by_id[0].pwn > 0,
-                                content_info_by_id[0].has_polygons());
+    std::pair<bool, bool> total(content_info_by_id[ids_[0]].pwn > 0,
+                                content_info_by_id[ids_[0]].has_polygons());
 
     for (size_t i = 1; i < ids_.size(); ++i) {
       BSPContentId id = ids_[i];
-- 
2.43.0


From 9208c770c1e15461214e82f0f0368d3c7d1afd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:02 +0000
Subject: [PATCH 14/44] fix: subtracting a solid without any polygons removed
 everything

---
 include/walnut/boolean_operation_filter.h | 3 ++-
 include/walnut/bsp_visitor.h              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 5240b84..2a15f9f 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -127,7 +127,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       std::pair<bool, bool> id_result;
 
       if (id >= content_info_by_id.size()) {
-        id_result = std::make_pair(false, false);
+        // There is nothing to remove.
+        id_result = std::make_pair(true, false);
       } else {
         id_result =  std::make_pair(content_info_by_id[id].pwn >= 0,
                                     content_info_by_id[id].has_polygons());
diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index 52e0134..aa9da35 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -53,7 +53,8 @@ class InvertedPolygonFilter {
   std::pair<bool, bool> operator()(
       const std::vector<BSPContentInfo>& content_info_by_id) {
     if (accept_id_ >= content_info_by_id.size()) {
-      return std::make_pair(false, false);
+      // The PWN is 0 everywhere.
+      return std::make_pair(true, false);
     } else {
       return std::make_pair(content_info_by_id[accept_id_].pwn >= 0,
                             content_info_by_id[accept_id_].has_polygons());
-- 
2.43.0


From 8549b258f3e2c2ebfabebc737d1c18782b250cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 15/44] fix: ApplySecondary asserted when a border polygon
 started a location and the heap came first

---
 include/walnut/polygon_event_point.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index beca202..58168ec 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -820,8 +820,10 @@ void PolygonEventPointPartition::ApplySecondary(
   size_t neg_used = 0;
   size_t pos_used = 0;
   while (event_points_pos < event_points_end) {
-    assert(event_points_pos->new_location);
     // Skip main events for border polygons
+    //
+    // This may stop in the middle of a location. If the heap has events before
+    // that location, then this loop is reentered there.
     while (event_points_pos < event_points_end) {
       if (event_points_pos->start) {
         const size_t end_event_index = event_points_pos->index.partner;
-- 
2.43.0


From 9ccc690a5ce070a93da68072ea21097275634750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 16/44] fix: polygons that start on the split plane were
 counted as border polygons

ApplySecondary may put such a start event before the end event that determines
the split, so that the child event point arrays were too small.
---
 include/walnut/polygon_event_point.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index 58168ec..8427550 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -463,16 +463,6 @@ PolygonEventPointPartition GetLowestCost(
 inline void PolygonEventPointPartition::DiscountBorderPolygons(
     const PolygonEventPoint* event_points,
     size_t parent_poly_count) {
-  split_location_begin = split_index;
-  while (!event_points[split_location_begin].new_location) {
-    assert(split_location_begin > 0);
-    --split_location_begin;
-    if (event_points[split_location_begin].start) {
-      // This event points to a border polygon, not a neg polygon.
-      --neg_poly_count;
-      ++border_poly_count;
-    }
-  }
   split_location_end = split_index + 1;
   while (split_location_end < parent_poly_count*2 &&
          !event_points[split_location_end].new_location) {
@@ -481,6 +471,20 @@ inline void PolygonEventPointPartition::DiscountBorderPolygons(
     }
     ++split_location_end;
   }
+  split_location_begin = split_index;
+  while (!event_points[split_location_begin].new_location) {
+    assert(split_location_begin > 0);
+    --split_location_begin;
+    if (event_points[split_location_begin].start) {
+      // This event points to a polygon that starts on the split plane. It is
+      // either a border polygon or a pos polygon, but not a neg polygon.
+      --neg_poly_count;
+      if (event_points[split_location_begin].index.partner <
+          split_location_end) {
+        ++border_poly_count;
+      }
+    }
+  }
   for (size_t i = split_index; i < split_location_end; ++i) {
     if (event_points[i].start &&
         event_points[i].index.partner < split_location_end) {
-- 
2.43.0


From 356e72fbb6ce528f7956d6456d2cb8c3d45717f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 17/44] fix: Do not split an edge twice at the same location

An open edge could be reprocessed at the location where it was already
split, which inserted a zero length edge.
---
 include/walnut/edge_line_connector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/walnut/edge_line_connector.h b/include/walnut/edge_line_connector.h
index c92025a..be7174d 100644
--- a/include/walnut/edge_line_connector.h
+++ b/include/walnut/edge_line_connector.h
@@ -519,6 +519,12 @@ class EdgeLineConnector {
     if (active_edge->second.current_endpoint) return;
 
     EdgeRep& old_edge = *active_edge->second.edge;
+    if ((active_edge->first.pos_edge ? old_edge.vertex() :
+                                       old_edge.next_vertex()) == location) {
+      // The edge was already split at this location. This happens when the
+      // edge is reprocessed, because it still does not have a partner.
+      return;
+    }
     PolygonRep& polygon = old_edge.polygon();
     size_t edge_index = old_edge.edge_index();
     polygon.SplitEdge(edge_index, location);
-- 
2.43.0


From 54fa74afdd9dfd9c6e424b4a156fc20ef380a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 18/44] fix: Do not merge a partnered edge with an unpartnered
 edge

In the output of an open polyhedron that left the partner shorter than the
merged edge, or dereferenced a null partner.
---
 include/walnut/connected_polygon.h | 35 ++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/walnut/connected_polygon.h b/include/walnut/connected_polygon.h
index 977176a..5293ac4 100644
--- a/include/walnut/connected_polygon.h
+++ b/include/walnut/connected_polygon.h
@@ -141,7 +141,12 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
   }
 
   bool CanMerge(const ConnectedEdge& next) const {
-    if (partner() != nullptr && next.partner() != nullptr) {
+    if ((partner() == nullptr) != (next.partner() == nullptr)) {
+      // The polyhedron is open at exactly one of the edges. Merging them would
+      // extend a partnered edge past the end of its partner.
+      return false;
+    }
+    if (partner() != nullptr) {
       if (&partner()->polygon() != &next.partner()->polygon()) {
         // The edges have different partner polygons. They cannot be merged.
         return false;
@@ -153,14 +158,18 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
       const FinalEdgeRep& partner =
         next.partner()->polygon().edge(next.partner()->edge_index());
 
-      // Temporarily unlink the partner to prevent an infinite loop. Even
-      // though the partner points to `this`, save the value because `this` is
-      // a const pointer and `old_value` is non-const.
+      // Temporarily unlink the partners to prevent an infinite loop. Even
+      // though the partners point to `this` and `next`, save the values
+      // because those are const and the saved values are non-const.
       ConnectedEdge* old_value = partner_->partner_;
+      ConnectedEdge* old_next_value = next.partner_->partner_;
       assert(old_value == this);
+      assert(old_next_value == &next);
       partner_->partner_ = nullptr;
+      next.partner_->partner_ = nullptr;
       bool merge_result = partner.CanMerge(/*next=*/next_partner);
       partner_->partner_ = old_value;
+      next.partner_->partner_ = old_next_value;
       if (!merge_result) return false;
     }
     return Parent::CanMerge(next);
@@ -197,14 +206,16 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
   void Merge(ConnectedEdge& next) {
     assert(CanMerge(next));
     if (next.partner() != nullptr) {
-      // This signals the partner not to try and merge this polygon's edges
+      FinalPolygon& partner_polygon = next.partner()->polygon();
+      const size_t partner_index = next.partner()->edge_index();
+      // This signals the partners not to try and merge this polygon's edges
       // again (preventing an infinite loop).
       partner_->partner_ = nullptr;
-      partner_ = next.partner_;
-      partner_->partner_ = this;
+      next.partner_->partner_ = nullptr;
       next.partner_ = nullptr;
 
-      partner()->polygon().MergeConnectedEdge(partner()->edge_index());
+      partner_ = partner_polygon.MergeConnectedEdge(partner_index);
+      partner_->partner_ = this;
     }
     Parent::Merge(next);
   }
@@ -456,11 +467,17 @@ class ConnectedPolygon : public ParentTemplate::template MakeParent<
   }
 
   // Called by ConnectedEdge.
-  void MergeConnectedEdge(size_t index) {
+  //
+  // Merges the edge at `index` with the next edge, and returns the merged
+  // edge.
+  EdgeRep* MergeConnectedEdge(size_t index) {
     bool merged = static_cast<FinalPolygon*>(this)->TryMergeEdge(index);
     // Fix an unused variable warning in release builds.
     (void)(merged);
     assert(merged);
+    // If the last edge absorbed the first edge, then the remaining edges were
+    // moved down.
+    return &edge(index < vertex_count() ? index : index - 1);
   }
 };
 
-- 
2.43.0


From e1f26eacf7c218ddc8ce200be4c196e3ebc3e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:04 +0000
Subject: [PATCH 19/44] fix: BSPTraverser terminated when the event point free
 list could not grow

FreeEventPoints is called from ~SplitStrategy.
---
 include/walnut/bsp_traverser.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/walnut/bsp_traverser.h b/include/walnut/bsp_traverser.h
index e312906..b8d61e1 100644
--- a/include/walnut/bsp_traverser.h
+++ b/include/walnut/bsp_traverser.h
@@ -1,6 +1,8 @@
 #ifndef WALNUT_BSP_TRAVERSER_H__
 #define WALNUT_BSP_TRAVERSER_H__
 
+// for std::bad_alloc
+#include <new>
 // for std::forward_as_tuple
 #include <tuple>
 // for std::pair
@@ -261,9 +263,15 @@ class BSPTraverser {
     }
   }
 
-  void FreeEventPoints(std::vector<PolygonEventPoint>&& event_points) {
+  // This is called from destructors, so it must not throw.
+  void FreeEventPoints(std::vector<PolygonEventPoint>&& event_points) noexcept {
     event_points.clear();
-    event_points_free_list_.push_back(std::move(event_points));
+    try {
+      event_points_free_list_.push_back(std::move(event_points));
+    } catch (const std::bad_alloc&) {
+      // The free list cannot grow. `event_points` keeps its storage, and frees
+      // it when it is destructed.
+    }
   }
 
   BorderMap border_map_;
-- 
2.43.0


From 0f3f43a07c1bfb19783cb7396f87253a970679f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:04 +0000
Subject: [PATCH 20/44] fix: BSPNode::Split leaked a child if the other one
 could not be allocated

---
 include/walnut/bsp_node.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index 13c48e0..9c30c80 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -45,7 +45,12 @@ class BSPNode {
 
   void Split(HalfSpace3&& half_space) {
     assert(half_space.IsValid());
-    MakeInterior(std::move(half_space), new BSPNode(), new BSPNode());
+    // Hold both nodes in smart pointers before the second one is allocated, so
+    // that neither is leaked if an allocation fails.
+    std::unique_ptr<BSPNode> negative_child = std::make_unique<BSPNode>();
+    std::unique_ptr<BSPNode> positive_child = std::make_unique<BSPNode>();
+    MakeInterior(std::move(half_space), std::move(negative_child),
+                 std::move(positive_child));
     PushContentsToChildren();
   }
 
@@ -233,15 +238,16 @@ class BSPNode {
   }
 
  protected:
-  void MakeInterior(HalfSpace3&& half_space, BSPNode* negative_child,
-                    BSPNode* positive_child) {
+  void MakeInterior(HalfSpace3&& half_space,
+                    std::unique_ptr<BSPNode> negative_child,
+                    std::unique_ptr<BSPNode> positive_child) {
     assert(IsLeaf());
     split_ = std::move(half_space);
-    negative_child_ = std::unique_ptr<BSPNode>(negative_child);
-    positive_child_ = std::unique_ptr<BSPNode>(positive_child);
+    negative_child_ = std::move(negative_child);
+    positive_child_ = std::move(positive_child);
 
-    negative_child->SetPWN(content_info_by_id_);
-    positive_child->SetPWN(content_info_by_id_);
+    negative_child_->SetPWN(content_info_by_id_);
+    positive_child_->SetPWN(content_info_by_id_);
   }
 
   void Reset() {
-- 
2.43.0


From 4bfa0cccfcf8831b73e9170557769149726988d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:04 +0000
Subject: [PATCH 21/44] fix: Moving an edge terminated when memory ran out

BigInt had no move assignment operator, so noexcept moves of polygon edges
copied their big integers.
---
 include/walnut/big_int.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 2fd029e..908fda4 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -121,6 +121,13 @@ class BigInt {
     return *this;
   }
 
+  // This never allocates. Afterwards `other` may only be assigned to or
+  // destructed, which is the same as after move constructing from it.
+  constexpr BigInt& operator=(BigInt&& other) noexcept {
+    words_ = std::move(other.words_);
+    return *this;
+  }
+
   constexpr BigInt& operator = (BigIntWord value) {
     words_.resize(1);
     words_[0] = value;
-- 
2.43.0


From e3b91c76bfbeabed7f37bc9ed2e30bc0e61c0582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 22/44] fix: HomoPoint3::Get2DTwistDir sign with one negative
 denominator

---
 src/walnut/homo_point3.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index 165ef3a..c509d98 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -99,9 +99,12 @@ BigIntWord HomoPoint3::Get2DTwistDir(int drop_dimension, const HomoPoint3& p1,
     vector_from_origin().DropDimension(drop_dimension) * p3.dist_denom();
   Vector2 p3_from_origin =
     p3.vector_from_origin().DropDimension(drop_dimension) * dist_denom();
-  return (p1_from_origin - p2_from_origin1).Cross(
-      p3_from_origin - p2_from_origin3).GetSign() ^
-    p1.dist_denom().SignExtension() ^ p3.dist_denom().SignExtension();
+  BigInt twist = (p1_from_origin - p2_from_origin1).Cross(
+      p3_from_origin - p2_from_origin3);
+  if (p1.dist_denom().HasDifferentSign(p3.dist_denom())) {
+    twist.Negate();
+  }
+  return twist.GetSign();
 }
 
 void HomoPoint3::Reduce() {
-- 
2.43.0


From ea6e0380903e09872503a6b241921d1a8f44e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 23/44] fix: PlanarRange treated a loop with equal first and
 last vertex as collinear

---
 include/walnut/planar_range.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/walnut/planar_range.h b/include/walnut/planar_range.h
index 4b440d5..05ebaf6 100644
--- a/include/walnut/planar_range.h
+++ b/include/walnut/planar_range.h
@@ -102,12 +102,13 @@ inline void PlanarRange<Point3Iterator>::Build(
     return;
   }
 
-  const Point3Rep& p2 = *remaining_begin;
+  const Point3Rep* p2 = &*remaining_begin;
   size_ = 2;
   ++remaining_begin;
 
-  // Keep p1 and p2 pointing to where they are. Use the next soonest point for
-  // p3 such that p1, p2, and p3 are not coincident.
+  // Keep p1 pointing to where it is, and p2 pointing to the first point that is
+  // different from p1. Use the next soonest point for p3 such that p1, p2, and
+  // p3 are not coincident.
   //
   // After the loop ends, `plane_` holds the plane formed from p1, p2, and p3.
   do {
@@ -117,7 +118,10 @@ inline void PlanarRange<Point3Iterator>::Build(
       return;
     }
     const Point3Rep& p3 = *remaining_begin;
-    plane_ = HalfSpace3(p1, p2, p3);
+    if (*p2 == p1) {
+      p2 = &p3;
+    }
+    plane_ = HalfSpace3(p1, *p2, p3);
     ++size_;
     ++remaining_begin;
   } while (!plane_.IsValid());
-- 
2.43.0


From 4ad0f6874b430a46be4b12ccb4d895ccca8b29e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 24/44] fix: MonotoneRange never finished on a zigzag that
 overshoots both ways

---
 include/walnut/monotone_range.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/walnut/monotone_range.h b/include/walnut/monotone_range.h
index 884996e..2b0593d 100644
--- a/include/walnut/monotone_range.h
+++ b/include/walnut/monotone_range.h
@@ -252,6 +252,8 @@ inline void MonotoneRange<Point3Iterator>::Build(
   --remaining_end;
 
   // Step 1. determine chain_dir_.
+  const Point3Iterator input_begin = remaining_begin;
+  const Point3Iterator input_end = range_end;
   Point3Iterator range_begin = remaining_begin;
   chain_dir_ = MonotoneRange<Point3Iterator>::GetDir(monotone_dimension,
                                                      /*prev=*/&*remaining_end,
@@ -370,6 +372,24 @@ inline void MonotoneRange<Point3Iterator>::Build(
   if (remaining_begin != remaining_end) {
     --remaining_begin;
     ++remaining_end;
+    if (remaining_begin == input_begin && remaining_end == input_end) {
+      // The last and the first vertex of the input range are the only ones
+      // that were accepted, because both of their other neighbors overshoot
+      // them in the monotone dimension. Every triangle is monotone, so remove
+      // the one made out of the last vertex, the first vertex, and its
+      // successor. Otherwise the remaining range would never get smaller.
+      Point3Iterator last = remaining_end;
+      --last;
+      ++remaining_begin;
+      Point3Iterator after_next = remaining_begin;
+      ++after_next;
+      chain1_.Clear();
+      chain1_.Append(remaining_begin, after_next);
+      chain1_.Append(last, remaining_end);
+      chain1_.Append(input_begin, remaining_begin);
+      chain2_.Clear();
+      chain2_.Append(input_begin, after_next);
+    }
   }
 }
 
-- 
2.43.0


From b0e9f54087696b995d9fd6d4b43cc815dc5d026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 25/44] fix: decomposers kept vertices of a Build interrupted
 by an exception

---
 include/walnut/monotone_decomposer.h           | 5 +++--
 include/walnut/monotone_triangulator.h         | 3 ++-
 include/walnut/orienting_monotone_decomposer.h | 3 +++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 408250c..97822bd 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -70,8 +70,9 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
   void Build(int drop_dimension, int monotone_dimension,
              TopIterator top_begin, TopIterator top_end,
              BottomIterator bottom_begin, BottomIterator bottom_end) {
-    assert(convex_top_.empty());
-    assert(convex_bottom_.empty());
+    // These are only non-empty if an exception interrupted a previous Build.
+    convex_top_.clear();
+    convex_bottom_.clear();
     orientation_ = 0;
 
     drop_dimension_ = drop_dimension;
diff --git a/include/walnut/monotone_triangulator.h b/include/walnut/monotone_triangulator.h
index aaa6666..1016c1f 100644
--- a/include/walnut/monotone_triangulator.h
+++ b/include/walnut/monotone_triangulator.h
@@ -108,7 +108,8 @@ void MonotoneTriangulator<Point3RepTemplate>::Build(
 
   // Top chain must contain the minimum vertex.
   assert(top_pos != top_end);
-  assert(reflex_stack_.empty());
+  // This is only non-empty if an exception interrupted a previous Build.
+  reflex_stack_.clear();
   reflex_stack_.push_back(&*top_pos);
   ++top_pos;
 
diff --git a/include/walnut/orienting_monotone_decomposer.h b/include/walnut/orienting_monotone_decomposer.h
index a718476..234ca9c 100644
--- a/include/walnut/orienting_monotone_decomposer.h
+++ b/include/walnut/orienting_monotone_decomposer.h
@@ -66,6 +66,9 @@ class OrientingMonotoneDecomposer :
       Chain2Iterator chain2_after_begin = chain2_begin;
       ++chain2_after_begin;
 
+      // These are only non-empty if an exception interrupted a previous Build.
+      convex_top_.clear();
+      convex_bottom_.clear();
       convex_top_.insert(convex_top_.end(), chain1_begin, chain1_before_end);
       convex_bottom_.insert(convex_bottom_.end(), chain2_after_begin, chain2_end);
       EmitOriented(/*orientation=*/0, convex_top_.rbegin(),
-- 
2.43.0


From 595b0bdadbe7f7eaacbe3ec554ab98d88394e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 26/44] fix: DetectOrientation ignored vertices of chain2 tied
 with the maximum

---
 include/walnut/orienting_monotone_decomposer.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/walnut/orienting_monotone_decomposer.h b/include/walnut/orienting_monotone_decomposer.h
index 234ca9c..e4549a2 100644
--- a/include/walnut/orienting_monotone_decomposer.h
+++ b/include/walnut/orienting_monotone_decomposer.h
@@ -223,18 +223,17 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
   while (true) {
     // Entries are preferentially taken from chain1, and both chains contain
     // the max element. So as long as chain1 is not completely consumed,
-    // chain2 still contains at least the max element.
-    if (chain1_pos == chain1_end) {
-      // Chain1 was completely consumed, which means only the maximum vertex
-      // remains in chain2. All of the vertices were collinear.
-#ifndef NDEBUG
-      ++chain2_pos;
-      assert(chain2_pos == chain2_end);
-#endif
+    // chain2 still contains at least the max element. After chain1 is
+    // completely consumed, the remaining vertices in chain2 are all tied for
+    // the maximum in the monotone dimension, but they could still be different
+    // from the maximum vertex.
+    if (chain2_pos == chain2_end) {
+      // All of the vertices were collinear.
+      assert(chain1_pos == chain1_end);
       return false;
     }
-    assert(chain2_pos != chain2_end);
     const bool chain1_is_current =
+      chain1_pos != chain1_end &&
       chain1_pos->CompareComponent(monotone_dimension, *chain2_pos) <= 0;
     const Point3Rep& current = chain1_is_current ? *chain1_pos : *chain2_pos;
     const BigIntWord twist =
-- 
2.43.0


From df1af6826b0671e2ea18b924028f110dd02486fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 27/44] fix: MonotoneDecomposer merged triangles into
 non-convex polygons

---
 include/walnut/monotone_decomposer.h | 71 +++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 7 deletions(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 97822bd..3a26caf 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -109,21 +109,36 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
     if (!convex_top_.empty()) {
       assert(!convex_bottom_.empty());
       if (convex_top_.back() == p1 && convex_bottom_.back() == p2) {
+        const int triangle_orientation =
+          p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
         bool set_orientation = false;
         if (orientation_ == 0) {
           set_orientation = true;
-          orientation_ = p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
+          orientation_ = triangle_orientation;
         }
         // For non-self-intersecting polygons, orientation_ will always be 0 or
         // -1. However for self-intersecting polygons, the triangulator can
         // produce flipped triangles, in which case orientation_ will be 1.
-        const Point3Rep& prev_top = convex_top_.size() > 1 ?
-          convex_top_.end()[-2] : convex_bottom_.front();
-        const Point3Rep& prev_bottom = convex_bottom_.size() > 1 ?
-          convex_bottom_.end()[-2] : convex_top_.front();
-        if (p1.Get2DTwistDir(drop_dimension_, prev_top, p3) *
+        const Point3Rep& prev_top = GetPrev(convex_top_, convex_bottom_);
+        const Point3Rep& prev_bottom = GetPrev(convex_bottom_, convex_top_);
+        // Use the reduced twist, because the unreduced twist could overflow when
+        // multiplied by orientation_.
+        const bool p3_is_flat =
+          IsFlat(p3_is_top_chain, p1, p2, p3);
+        bool doubles_back;
+        if (triangle_orientation != 0) {
+          // If the polygon is collinear so far, then it must not stick out of
+          // the edge that the triangle is added to.
+          doubles_back = set_orientation && !is_flat_;
+        } else {
+          // Adding a collinear p3 to a real polygon only leaves it convex if p3
+          // is on the edge that the triangle is added to.
+          doubles_back = orientation_ != 0 && !IsBetween(p1, p3, p2);
+        }
+        if (!doubles_back && triangle_orientation * orientation_ >= 0 &&
+            p1.Get2DTwistDirReduced(drop_dimension_, prev_top, p3) *
               orientation_ <= 0 &&
-            p2.Get2DTwistDir(drop_dimension_, prev_bottom, p3) *
+            p2.Get2DTwistDirReduced(drop_dimension_, prev_bottom, p3) *
               orientation_ >= 0) {
           if (p3_is_top_chain) {
             if (p1 != p3) {
@@ -134,6 +149,7 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
               convex_bottom_.push_back(p3);
             }
           }
+          is_flat_ = is_flat_ && p3_is_flat;
           return;
         }
         if (set_orientation) {
@@ -154,13 +170,54 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
       convex_bottom_.push_back(p3);
     }
     orientation_ = p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
+    is_flat_ = IsFlat(p3_is_top_chain, p1, p2, p3);
   }
 
  private:
+  // Returns true if `mid` is between `a` and `b`. All 3 must be collinear.
+  bool IsBetween(const Point3Rep& a, const Point3Rep& mid,
+                 const Point3Rep& b) const {
+    for (int i = 0; i < 3; ++i) {
+      if (i == drop_dimension_) continue;
+      if (a.CompareComponent(i, mid) * mid.CompareComponent(i, b) < 0) {
+        return false;
+      }
+    }
+    return true;
+  }
+
+  // Returns true if after adding p3 to its chain, the next edge to merge on is
+  // at least as long as the line segments that end in p3. All of the vertices
+  // must be collinear.
+  bool IsFlat(bool p3_is_top_chain, const Point3Rep& p1, const Point3Rep& p2,
+              const Point3Rep& p3) const {
+    return p3_is_top_chain ? IsBetween(p2, p1, p3) : IsBetween(p1, p2, p3);
+  }
+
+  // Returns the vertex that comes before the end of `chain` in the convex
+  // polygon being constructed, ignoring repetitions of the last vertex of
+  // `chain`. If all of the vertices in `chain` are equal, then the search
+  // continues at the beginning of `other_chain`.
+  static const Point3Rep& GetPrev(const std::vector<Point3Rep>& chain,
+                                  const std::vector<Point3Rep>& other_chain) {
+    const Point3Rep& last = chain.back();
+    for (auto pos = chain.rbegin() + 1; pos != chain.rend(); ++pos) {
+      if (*pos != last) return *pos;
+    }
+    for (const Point3Rep& vertex : other_chain) {
+      if (vertex != last) return vertex;
+    }
+    return last;
+  }
+
   // The orientation of the polygon being built. -1 for counter-clockwise, 1
   // for clockwise, or 0 for collinear.
   int orientation_;
 
+  // While the polygon being built is collinear, this is true if it does not
+  // extend beyond the last vertices of its two chains.
+  bool is_flat_;
+
   int drop_dimension_;
 };
 
-- 
2.43.0


From 8b372d1d3db2f5af79c4817c0c32d0c5f724cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 28/44] fix: editing a copy of a connected polygon redirected
 the original's partner links

---
 include/walnut/connected_polygon.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/walnut/connected_polygon.h b/include/walnut/connected_polygon.h
index 5293ac4..4cd9594 100644
--- a/include/walnut/connected_polygon.h
+++ b/include/walnut/connected_polygon.h
@@ -35,7 +35,10 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
     }
   }
 
-  ConnectedEdge(const ConnectedEdge&) = default;
+  // The copy starts without a partner, because the partner of `other` still
+  // refers to `other`.
+  ConnectedEdge(const ConnectedEdge& other)
+    : Parent(other), DeedTarget(other), polygon_(other.polygon_) { }
 
   ConnectedEdge(const Parent& other) : Parent(other) { }
 
-- 
2.43.0


From c2bb4c844ca0817f0a8bee1abd7317bc14ef98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 29/44] fix: polygon equality ignored the edge data of the
 first vertex

---
 include/walnut/convex_polygon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index b6dbe36..9416532 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -853,7 +853,7 @@ bool ConvexPolygon<EdgeParent>::operator==(
     }
     ++match_offset;
   }
-  for (size_t i = 1, j = match_offset + 1; i < vertex_count(); ++i, ++j) {
+  for (size_t i = 0, j = match_offset; i < vertex_count(); ++i, ++j) {
     if (vertex(i).DropDimension(drop_dimension()) !=
         other.vertex(j % vertex_count()).DropDimension(drop_dimension())) {
       return false;
-- 
2.43.0


From cbfef1b5ac4894f912d92881470f255218f88ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 30/44] fix: AABBConvexPolygon kept stale extreme vertices
 after SplitEdge, Invert and TryMergeEdge

---
 include/walnut/aabb_convex_polygon.h        | 21 +++++++++++++++++++++
 include/walnut/convex_vertex_aabb_tracker.h | 18 ++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/include/walnut/aabb_convex_polygon.h b/include/walnut/aabb_convex_polygon.h
index 0e1f71d..a80e0db 100644
--- a/include/walnut/aabb_convex_polygon.h
+++ b/include/walnut/aabb_convex_polygon.h
@@ -159,6 +159,18 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
     aabb_tracker_.RotateIndices(offset, vertex_count());
   }
 
+  // Overrides the non-virtual function from ConvexPolygon.
+  void SplitEdge(size_t split_index, HomoPoint3 mid_point) {
+    Parent::SplitEdge(split_index, std::move(mid_point));
+    aabb_tracker_.InsertIndex(split_index + 1);
+  }
+
+  // Overrides the non-virtual function from ConvexPolygon.
+  void Invert() {
+    Parent::Invert();
+    aabb_tracker_.InvertIndices(vertex_count());
+  }
+
   // Overrides the non-virtual function from ConvexPolygon.
   ConvexPolygonSplitInfo GetSplitInfo(const HalfSpace3& half_space) const {
     switch (aabb().GetPlaneSide(half_space)) {
@@ -233,6 +245,15 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
     return true;
   }
 
+  // Overrides the non-virtual function from ConvexPolygon.
+  bool TryMergeEdge(size_t index) {
+    if (!Parent::TryMergeEdge(index)) return false;
+
+    aabb_tracker_ = ConvexVertexAABBTracker(Parent::vertices_begin(),
+                                            Parent::vertices_end());
+    return true;
+  }
+
  protected:
   // Overrides the non-virtual function from ConvexPolygon.
   template <typename ParentRef, typename SplitInfoRef>
diff --git a/include/walnut/convex_vertex_aabb_tracker.h b/include/walnut/convex_vertex_aabb_tracker.h
index 9302f2c..d6ec64f 100644
--- a/include/walnut/convex_vertex_aabb_tracker.h
+++ b/include/walnut/convex_vertex_aabb_tracker.h
@@ -91,6 +91,24 @@ class ConvexVertexAABBTracker {
     }
   }
 
+  // Updates all of the extreme vertex indices after a vertex that is not
+  // extreme was inserted at `index`.
+  void InsertIndex(size_t index) {
+    for (size_t i = 0; i < 3; ++i) {
+      if (min_indices_[i] >= index) ++min_indices_[i];
+      if (max_indices_[i] >= index) ++max_indices_[i];
+    }
+  }
+
+  // Updates all of the extreme vertex indices after the order of all of the
+  // vertices except for the first was reversed.
+  void InvertIndices(size_t vertex_count) {
+    for (size_t i = 0; i < 3; ++i) {
+      if (min_indices_[i] != 0) min_indices_[i] = vertex_count - min_indices_[i];
+      if (max_indices_[i] != 0) max_indices_[i] = vertex_count - max_indices_[i];
+    }
+  }
+
   // Creates both split children.
   //
   // This function may only be called if `split.ShouldEmitNegativeChild()`
-- 
2.43.0


From 5b6e8753f534d9da0cac907b96f885653aa7dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:54 +0000
Subject: [PATCH 31/44] fix: move assigning a convex polygon copied the plane,
 reading freed words of a moved-from polygon

---
 include/walnut/convex_polygon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index 9416532..be3c4b6 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -744,7 +744,7 @@ class ConvexPolygon {
   }
 
   ConvexPolygon& operator=(RValueKey<ConvexPolygon> other) {
-    plane_ = std::move(other.get().plane());
+    plane_ = std::move(other.get().plane_);
     drop_dimension_ = other.get().drop_dimension();
     edges_ = std::move(other.get().edges_);
     return *this;
-- 
2.43.0


From 6e57909923eaec9069b9ddf1e76cdf2010c9897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 32/44] fix: EdgeLineConnector kept events of an abandoned call
 after error() threw

---
 include/walnut/edge_line_connector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/edge_line_connector.h b/include/walnut/edge_line_connector.h
index be7174d..7bd1cbb 100644
--- a/include/walnut/edge_line_connector.h
+++ b/include/walnut/edge_line_connector.h
@@ -171,8 +171,10 @@ class EdgeLineConnector {
   void ConnectEdgesInLine(
       Iterator edges_begin, const Iterator& edges_end, int sorted_dimension,
       const std::function<void(const std::string&)>& error) {
-    assert(end_events_.empty());
-    assert(need_partners_.empty());
+    // These could be left over, if `error` threw an exception during a previous
+    // call.
+    end_events_.clear();
+    need_partners_.clear();
 
     ActiveEdgeMap active_edges;
     EndEventsCompare end_events_compare(sorted_dimension);
-- 
2.43.0


From 3ea015180648ae7f9dc22ea2a44e72e61879679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 33/44] fix: BSPTraverser kept border polygons of an abandoned
 run after a visitor threw

---
 include/walnut/bsp_traverser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/walnut/bsp_traverser.h b/include/walnut/bsp_traverser.h
index b8d61e1..dfce579 100644
--- a/include/walnut/bsp_traverser.h
+++ b/include/walnut/bsp_traverser.h
@@ -231,7 +231,9 @@ class BSPTraverser {
   void VisitLeaf(BSPNodeRep& node, BSPVisitor<OutputPolygon>& visitor) {
     assert(node.IsLeaf());
     assert(node.contents().empty());
-    assert(border_map_.empty());
+    // Entries could be left over, if the visitor threw an exception during a
+    // previous run.
+    border_map_.clear();
     for (const InputPolygon& border : node.border_contents()) {
       assert(border.on_node_plane.split != nullptr);
       border_map_.emplace(border.on_node_plane.split, &border);
-- 
2.43.0


From edd24577b102463102e867e852c616f47900587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:01 +0000
Subject: [PATCH 34/44] fix: cell border queries failed when a split plane
 missed the bounding box

---
 include/walnut/bsp_tree.h | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/include/walnut/bsp_tree.h b/include/walnut/bsp_tree.h
index 1a823e5..65b0074 100644
--- a/include/walnut/bsp_tree.h
+++ b/include/walnut/bsp_tree.h
@@ -133,24 +133,26 @@ BSPTree<ConvexPolygonTemplate>::GetNodeBorder(Iterator node_path_begin,
   BSPContentId cell_border_id = 1;
   const BSPNodeRep* original_node = &root;
   // Add the split partitions from the node_path of from the original root into
-  // mapped_root.
+  // mapped_root. The ones that miss `bounding_box` are not part of the border.
   for (Iterator pos = node_path_begin; pos != node_path_end; ++pos) {
     if (*pos) {
       if (bounding_box_planes.find(-original_node->split()) ==
           bounding_box_planes.end()) {
-        mapped_root.AddRootContent(
-            cell_border_id,
-            bounding_box.IntersectPlane(-original_node->split()));
-        assert(mapped_root.contents().back().vertex_count() > 0);
+        MutableConvexPolygon<> polygon =
+          bounding_box.IntersectPlane(-original_node->split());
+        if (polygon.vertex_count() > 0) {
+          mapped_root.AddRootContent(cell_border_id, std::move(polygon));
+        }
       }
       original_node = original_node->positive_child();
     } else {
       if (bounding_box_planes.find(original_node->split()) ==
           bounding_box_planes.end()) {
-        mapped_root.AddRootContent(
-            cell_border_id,
-            bounding_box.IntersectPlane(original_node->split()));
-        assert(mapped_root.contents().back().vertex_count() > 0);
+        MutableConvexPolygon<> polygon =
+          bounding_box.IntersectPlane(original_node->split());
+        if (polygon.vertex_count() > 0) {
+          mapped_root.AddRootContent(cell_border_id, std::move(polygon));
+        }
       }
       original_node = original_node->negative_child();
     }
@@ -219,17 +221,21 @@ BSPTree<ConvexPolygonTemplate>::GetNodeBorderNoBoundWalls(
   BSPNodeRep mapped_root;
   const BSPNodeRep* original_node = &root;
   // Add the split partitions from the node_path of from the original root into
-  // mapped_root.
+  // mapped_root. The ones that miss `bounding_box` are not part of the border.
   for (Iterator pos = node_path_begin; pos != node_path_end; ++pos) {
     if (*pos) {
-      mapped_root.AddRootContent(
-          /*id=*/0, bounding_box.IntersectPlane(-original_node->split()));
-      assert(mapped_root.contents().back().vertex_count() > 0);
+      MutableConvexPolygon<> polygon =
+        bounding_box.IntersectPlane(-original_node->split());
+      if (polygon.vertex_count() > 0) {
+        mapped_root.AddRootContent(/*id=*/0, std::move(polygon));
+      }
       original_node = original_node->positive_child();
     } else {
-      mapped_root.AddRootContent(
-          /*id=*/0, bounding_box.IntersectPlane(original_node->split()));
-      assert(mapped_root.contents().back().vertex_count() > 0);
+      MutableConvexPolygon<> polygon =
+        bounding_box.IntersectPlane(original_node->split());
+      if (polygon.vertex_count() > 0) {
+        mapped_root.AddRootContent(/*id=*/0, std::move(polygon));
+      }
       original_node = original_node->negative_child();
     }
   }
-- 
2.43.0


From e4daec8f8a5d7177b116fedede9f15785e7f9f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 35/44] fix: MeshPlaneRepairer reversed the vertices a piece of
 a facet took from the end of the loop

---
 include/walnut/mesh_plane_repairer.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/walnut/mesh_plane_repairer.h b/include/walnut/mesh_plane_repairer.h
index 9a1ebd8..5cb3737 100644
--- a/include/walnut/mesh_plane_repairer.h
+++ b/include/walnut/mesh_plane_repairer.h
@@ -230,10 +230,9 @@ inline void MeshPlaneRepairer<PolygonData>::FinishFacet(PolygonData data) {
       polygon_vertices_.push_back(*it);
     }
 
-    // Copy the end portion of the accepted range in reverse order.
-    for (ActiveVertexIterator it = accepted_from_end_end;
-         it != remaining_end;) {
-      --it;
+    // Copy the end portion of the accepted range.
+    for (ActiveVertexIterator it = remaining_end; it != accepted_from_end_end;
+         ++it) {
       (*it)->TryAddAdjacent(&polygon.plane);
       polygon_vertices_.push_back(*it);
     }
-- 
2.43.0


From 3387978ed6b106c5c9908db5c4cdf1df9bce78f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:45 +0000
Subject: [PATCH 36/44] fix: NudgingPlaneBuilder ignored constrained vertices
 that were added after HasLargePlane

---
 include/walnut/nudging_plane_builder.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index a5f7448..92ce894 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -77,6 +77,8 @@ inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
     plane_info_[plane_info_used_].vertex = vertex;
     ++plane_info_used_;
     ++constrained_count_;
+    // The plane from an earlier `HasLargePlane` call might miss the vertex.
+    plane_set_ = false;
 
     if (constrained_count_ == 3) {
       plane_ = BuildFromPlaneInfo();
-- 
2.43.0


From b38aced60d5e5237bb1ff909bde115deb2244323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 37/44] fix: NudgingPlaneBuilder built the plane from vertices
 on one line

---
 include/walnut/nudging_plane_builder.h | 57 ++++++---------
 src/walnut/nudging_plane_builder.cpp   | 98 ++++++++++++++++++++------
 2 files changed, 99 insertions(+), 56 deletions(-)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index 92ce894..26e24d4 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -13,6 +13,9 @@ namespace walnut {
 class NudgingPlaneBuilder {
  public:
   // Adds an unconstrained vertex (one that can be nudged) to the plane.
+  //
+  // The vertex is only used if it does not lie on a line with the vertices
+  // that were added before.
   void AddUnconstrained(const HomoPoint3* vertex);
 
   // Tries to add a constrained vertex to the plane.
@@ -24,7 +27,8 @@ class NudgingPlaneBuilder {
   // Use the accepted vertices to build a plane.
   //
   // This may only be called after 3 or more calls to `AddUnconstrained` and
-  // `TryAddConstrained`.
+  // `TryAddConstrained`. The result is invalid if all of the accepted vertices
+  // are on one line.
   HalfSpace3 Build() const& {
     if (plane_set_) {
       return plane_;
@@ -36,7 +40,8 @@ class NudgingPlaneBuilder {
   // Use the accepted vertices to build a plane.
   //
   // This may only be called after 3 or more calls to `AddUnconstrained` and
-  // `TryAddConstrained`.
+  // `TryAddConstrained`. The result is invalid if all of the accepted vertices
+  // are on one line.
   HalfSpace3 Build() && {
     if (plane_set_) {
       return std::move(plane_);
@@ -48,50 +53,34 @@ class NudgingPlaneBuilder {
   bool HasLargePlane();
 
  private:
-  // This may only be called if `plane_info_used_` >= 3.
-  HalfSpace3 BuildFromPlaneInfo() const;
-
   struct VertexInfo {
     bool constrained;
     const HomoPoint3* vertex;
   };
+  using SelectedVertices = std::array<const VertexInfo*, 3>;
+
+  // Selects up to 3 vertices that are not on one line, and no 2 of which are
+  // equal. The constrained vertices are preferred.
+  //
+  // Returns the number of selected vertices.
+  size_t SelectVertices(bool only_constrained,
+                        SelectedVertices& selected) const;
+
+  HalfSpace3 BuildFromPlaneInfo() const;
+
+  // There are at most 3 constrained and 3 unconstrained vertices.
   std::array<VertexInfo, 6> plane_info_;
   size_t plane_info_used_ = 0;
+  // The number of vertices that `SelectVertices` selects.
+  size_t independent_count_ = 0;
   size_t constrained_count_ = 0;
-  // This is only initialized if constrained_count_ == 3.
+  // This is only initialized if plane_set_ is true.
   HalfSpace3 plane_;
   bool plane_set_ = false;
 };
 
-inline void NudgingPlaneBuilder::AddUnconstrained(const HomoPoint3* vertex) {
-  if (plane_info_used_ < 3) {
-    plane_info_[plane_info_used_].constrained = false;
-    plane_info_[plane_info_used_].vertex = vertex;
-    ++plane_info_used_;
-  }
-}
-
-inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
-  if (constrained_count_ < 3) {
-    plane_info_[plane_info_used_].constrained = true;
-    plane_info_[plane_info_used_].vertex = vertex;
-    ++plane_info_used_;
-    ++constrained_count_;
-    // The plane from an earlier `HasLargePlane` call might miss the vertex.
-    plane_set_ = false;
-
-    if (constrained_count_ == 3) {
-      plane_ = BuildFromPlaneInfo();
-      plane_set_ = true;
-    }
-    return true;
-  } else {
-    return plane_.IsCoincident(*vertex);
-  }
-}
-
 inline bool NudgingPlaneBuilder::HasLargePlane() {
-  if (plane_info_used_ < 3) return false;
+  if (independent_count_ < 3) return false;
 
   if (!plane_set_) {
     plane_ = BuildFromPlaneInfo();
diff --git a/src/walnut/nudging_plane_builder.cpp b/src/walnut/nudging_plane_builder.cpp
index 30ab83e..9fc2d37 100644
--- a/src/walnut/nudging_plane_builder.cpp
+++ b/src/walnut/nudging_plane_builder.cpp
@@ -1,32 +1,86 @@
 #include "walnut/nudging_plane_builder.h"
 
+#include <algorithm>
+
 namespace walnut {
 
-HalfSpace3 NudgingPlaneBuilder::BuildFromPlaneInfo() const {
-  std::array<const HomoPoint3*, 3> filtered_vertices;
-  // The number of remaining unconstrained vertices to accept.
-  size_t accept_unconstrained = 3 - constrained_count_;
-
-  for (size_t i = 0, accepted = 0; accepted < 3; ++i) {
-    const VertexInfo& info = plane_info_[i];
-    bool accept;
-    if (info.constrained) {
-      accept = true;
-    } else if (accept_unconstrained > 0) {
-      accept = true;
-      --accept_unconstrained;
-    } else {
-      accept = false;
-    }
-    if (accept) {
-      filtered_vertices[accepted] = info.vertex;
-      ++accepted;
+void NudgingPlaneBuilder::AddUnconstrained(const HomoPoint3* vertex) {
+  if (independent_count_ == 3) return;
+
+  plane_info_[plane_info_used_].constrained = false;
+  plane_info_[plane_info_used_].vertex = vertex;
+  ++plane_info_used_;
+
+  SelectedVertices selected;
+  const size_t count = SelectVertices(/*only_constrained=*/false, selected);
+  if (count == independent_count_) {
+    --plane_info_used_;
+  }
+  independent_count_ = count;
+}
+
+bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
+  if (constrained_count_ == 3) {
+    return plane_.IsCoincident(*vertex);
+  }
+  plane_info_[plane_info_used_].constrained = true;
+  plane_info_[plane_info_used_].vertex = vertex;
+  ++plane_info_used_;
+
+  SelectedVertices selected;
+  const size_t count = SelectVertices(/*only_constrained=*/true, selected);
+  if (count == constrained_count_) {
+    // Every plane through the other constrained vertices contains this one.
+    --plane_info_used_;
+    return true;
+  }
+  constrained_count_ = count;
+  independent_count_ = SelectVertices(/*only_constrained=*/false, selected);
+  // The plane from an earlier `HasLargePlane` call might miss the vertex.
+  plane_set_ = false;
+
+  if (constrained_count_ == 3) {
+    plane_ = BuildFromPlaneInfo();
+    plane_set_ = true;
+  }
+  return true;
+}
+
+size_t NudgingPlaneBuilder::SelectVertices(bool only_constrained,
+                                           SelectedVertices& selected) const {
+  size_t count = 0;
+  for (bool constrained : {true, false}) {
+    if (only_constrained && !constrained) break;
+
+    for (size_t i = 0; i < plane_info_used_ && count < 3; ++i) {
+      const VertexInfo& info = plane_info_[i];
+      if (info.constrained != constrained) continue;
+
+      if ((count == 1 && *selected[0]->vertex == *info.vertex) ||
+          (count == 2 && !HalfSpace3(*selected[0]->vertex,
+                                     *selected[1]->vertex,
+                                     *info.vertex).IsValid())) {
+        continue;
+      }
+      selected[count] = &info;
+      ++count;
     }
   }
-  HalfSpace3 result(*filtered_vertices[0], *filtered_vertices[1],
-                    *filtered_vertices[2]);
+  return count;
+}
+
+HalfSpace3 NudgingPlaneBuilder::BuildFromPlaneInfo() const {
+  SelectedVertices selected;
+  if (SelectVertices(/*only_constrained=*/false, selected) < 3) {
+    return HalfSpace3(/*x=*/0, /*y=*/0, /*z=*/0, /*dist=*/0);
+  }
+  // The order in which the vertices were added determines the direction of the
+  // normal.
+  std::sort(selected.begin(), selected.end());
+  HalfSpace3 result(*selected[0]->vertex, *selected[1]->vertex,
+                    *selected[2]->vertex);
   result.Reduce();
   return result;
 }
 
-}  // walnut
+}  // namespace walnut
-- 
2.43.0


From d37b21600be2995029b54802489ae8352d76bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:03 +0000
Subject: [PATCH 38/44] fix: MeshPlaneRepairer moved vertices to infinity where
 facet planes have no common point

---
 include/walnut/mesh_plane_repairer.h | 13 ++++++
 src/walnut/mesh_plane_repairer.cpp   | 61 ++++++++++++++++++++++++++++
 2 files changed, 74 insertions(+)

diff --git a/include/walnut/mesh_plane_repairer.h b/include/walnut/mesh_plane_repairer.h
index 5cb3737..01c49c0 100644
--- a/include/walnut/mesh_plane_repairer.h
+++ b/include/walnut/mesh_plane_repairer.h
@@ -29,6 +29,14 @@ class MeshPlaneRepairerBase {
       return plane_count < 3;
     }
 
+    // Returns true if there is a point that is coincident with `plane` and with
+    // all of the adjacent planes.
+    bool CanMoveOnto(const HalfSpace3& plane) const;
+
+    // Adjust `point` to be coincident with the adjacent planes that were added
+    // so far, and don't allow any more of them.
+    void Constrain();
+
     void TryAddAdjacent(const HalfSpace3* polygon);
 
     std::array<const HalfSpace3*, 3> adjacent;
@@ -60,6 +68,11 @@ class MeshPlaneRepairerBase {
   static HalfSpace3 GetNextPlanarRange(ActiveVertexIterator& first, 
                                        ActiveVertexIterator& last);
 
+  // Builds the plane for `GetNextPlanarRange`, without checking whether the
+  // accepted vertices can be moved onto it.
+  static HalfSpace3 TryGetNextPlanarRange(ActiveVertexIterator& first,
+                                          ActiveVertexIterator& last);
+
   void FinalizeVertices();
 
   void Clear();
diff --git a/src/walnut/mesh_plane_repairer.cpp b/src/walnut/mesh_plane_repairer.cpp
index a428307..31f862a 100644
--- a/src/walnut/mesh_plane_repairer.cpp
+++ b/src/walnut/mesh_plane_repairer.cpp
@@ -1,10 +1,40 @@
 #include "walnut/mesh_plane_repairer.h"
 
+// For std::for_each
+#include <algorithm>
+
 #include "walnut/nudging_plane_builder.h"
 #include "walnut/plucker_line.h"
 
 namespace walnut {
 
+bool MeshPlaneRepairerBase::VertexInfo::CanMoveOnto(
+    const HalfSpace3& plane) const {
+  if (!plane.IsValid()) return false;
+
+  switch (plane_count) {
+    case 0:
+      return true;
+    case 1:
+      return !adjacent[0]->normal().IsSameOrOppositeDir(plane.normal()) ||
+             adjacent[0]->IsSameOrOpposite(plane);
+    case 2: {
+      const PluckerLine line(*adjacent[0], *adjacent[1]);
+      return !line.d().Dot(plane.normal()).IsZero() ||
+             line.IsCoincident(plane);
+    }
+    default:
+      return plane.IsCoincident(point);
+  }
+}
+
+void MeshPlaneRepairerBase::VertexInfo::Constrain() {
+  if (plane_count < 3) {
+    Finalize();
+    plane_count = 3;
+  }
+}
+
 void MeshPlaneRepairerBase::VertexInfo::TryAddAdjacent(
     const HalfSpace3* polygon) {
   if (plane_count < 3) {
@@ -14,6 +44,11 @@ void MeshPlaneRepairerBase::VertexInfo::TryAddAdjacent(
         return;
       }
     }
+    if (plane_count == 2 &&
+        PluckerLine(*adjacent[0], *adjacent[1]).IsCoincident(*polygon)) {
+      // Every point on the other planes is already on this one.
+      return;
+    }
     adjacent[plane_count] = polygon;
     ++plane_count;
 
@@ -87,6 +122,32 @@ MeshPlaneRepairerBase::VertexInfo* MeshPlaneRepairerBase::AddVertexInfo(
 
 HalfSpace3 MeshPlaneRepairerBase::GetNextPlanarRange(
     ActiveVertexIterator& first, ActiveVertexIterator& last) {
+  while (true) {
+    ActiveVertexIterator remaining_first = first;
+    ActiveVertexIterator remaining_last = last;
+    HalfSpace3 plane = TryGetNextPlanarRange(remaining_first, remaining_last);
+
+    // If a vertex cannot be moved onto the plane without leaving the planes of
+    // the other facets, then the vertex has to stay where it is.
+    bool accepted = true;
+    auto constrain = [&plane, &accepted](VertexInfo* vertex) {
+      if (vertex->CanAddAdjacent() && !vertex->CanMoveOnto(plane)) {
+        vertex->Constrain();
+        accepted = false;
+      }
+    };
+    std::for_each(first, remaining_first, constrain);
+    std::for_each(remaining_last, last, constrain);
+    if (accepted) {
+      first = remaining_first;
+      last = remaining_last;
+      return plane;
+    }
+  }
+}
+
+HalfSpace3 MeshPlaneRepairerBase::TryGetNextPlanarRange(
+    ActiveVertexIterator& first, ActiveVertexIterator& last) {
   // Start a new range.
   NudgingPlaneBuilder plane_builder;
   // Add one vertex from the end of the range first.
-- 
2.43.0


From 85f1f03b6d7e4ff29786b83a6325defff219fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:49 +0000
Subject: [PATCH 39/44] fix: VTKToWalnutMesh read every triangle of a strip
 from its first three vertices and ignored the alternating winding

---
 vtk_interface/include/walnut/vtk_to_walnut_mesh.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
index 59c5819..a7f0f94 100644
--- a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
+++ b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
@@ -86,11 +86,11 @@ std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
   while (input->GetStrips()->GetNextCell(vertex_count, input_vertices)) {
     for (vtkIdType i = 0; i < vertex_count - 2; ++i) {
       HomoPoint3 vertices[3];
-      if ((i & 0) ^ flip) {
+      if ((i & 1) ^ flip) {
         // The vertices are in clockwise order. Reverse them first.
         double coordinates[3];
         for (int j = 0; j < 3; ++j) {
-          input->GetPoint(input_vertices[2 - j], coordinates);
+          input->GetPoint(input_vertices[i + 2 - j], coordinates);
           vertices[j] = HomoPoint3::FromDoubles(min_exponent, coordinates[0],
                                                 coordinates[1],
                                                 coordinates[2]);
@@ -98,13 +98,15 @@ std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
       } else {
         double coordinates[3];
         for (int j = 0; j < 3; ++j) {
-          input->GetPoint(input_vertices[j], coordinates);
+          input->GetPoint(input_vertices[i + j], coordinates);
           vertices[j] = HomoPoint3::FromDoubles(min_exponent, coordinates[0],
                                                 coordinates[1],
                                                 coordinates[2]);
         }
       }
       HalfSpace3 plane(vertices[0], vertices[1], vertices[2]);
+      // Degenerate triangles are used to join strips. They have no area.
+      if (!plane.IsValid()) continue;
       int drop_dimension = plane.normal().GetFirstNonzeroDimension();
       polygon_factory.result.emplace_back(std::move(plane), drop_dimension,
                                           std::move(vertices));
-- 
2.43.0


From 91741b87c52818c66ba18e6e2b80d4150b7931ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 40/44] fix: HalfSpace2SidelessCompare took the sign of the
 wrong component for lines with x = 0

---
 include/walnut/half_space2_sideless_compare.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/half_space2_sideless_compare.h b/include/walnut/half_space2_sideless_compare.h
index b3f35b9..55a602f 100644
--- a/include/walnut/half_space2_sideless_compare.h
+++ b/include/walnut/half_space2_sideless_compare.h
@@ -26,7 +26,7 @@ struct HalfSpace2SidelessCompare {
           /*flip=*/h1.x().HasDifferentSign(h2.x()), h2.d() * h1.x());
     } else {
       return (h1.d() * h2.y()).LessThan(
-          /*flip=*/h1.y().HasDifferentSign(h2.x()), h2.d() * h1.y());
+          /*flip=*/h1.y().HasDifferentSign(h2.y()), h2.d() * h1.y());
     }
   }
 };
-- 
2.43.0


From 1a8f835acc818629c8633b7a600d6b395e3d6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 41/44] fix: HomoPoint2::LexicographicallyLt ordered points
 with a negative denominator backwards

---
 include/walnut/homo_point2.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/walnut/homo_point2.h b/include/walnut/homo_point2.h
index 0928a7b..729adbe 100644
--- a/include/walnut/homo_point2.h
+++ b/include/walnut/homo_point2.h
@@ -69,8 +69,11 @@ class HomoPoint2 {
     vector_from_origin_(v), dist_denom_(w) { }
 
   static bool LexicographicallyLt(const HomoPoint2& a, const HomoPoint2& b) {
-    auto a_scaled = a.vector_from_origin() * b.dist_denom();
-    auto b_scaled = b.vector_from_origin() * a.dist_denom();
+    // a.v / a.w <?> b.v / b.w
+    // a.v * b.w <?> b.v * a.w (flip both sides if a.w * b.w is negative)
+    const int sign_flip = b.dist_denom().GetAbsMult(a.dist_denom());
+    auto a_scaled = a.vector_from_origin() * (b.dist_denom() * sign_flip);
+    auto b_scaled = b.vector_from_origin() * (a.dist_denom() * sign_flip);
     return std::lexicographical_compare(a_scaled.coords().begin(),
                                         a_scaled.coords().end(),
                                         b_scaled.coords().begin(),
-- 
2.43.0


From db3815ede111d0005b7085ea4586d3bcfc1a6bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 42/44] fix: HalfSpace3Compare treated planes whose normal
 components add up to zero as equivalent to everything

---
 include/walnut/half_space3.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/half_space3.h b/include/walnut/half_space3.h
index 23e75fa..f67349b 100644
--- a/include/walnut/half_space3.h
+++ b/include/walnut/half_space3.h
@@ -278,8 +278,10 @@ std::ostream& operator<<(std::ostream& out, const HalfSpace3& p);
 // This is useful for putting `HalfSpace3`s in a std::map or std::set.
 struct HalfSpace3Compare {
   bool operator()(const HalfSpace3& a, const HalfSpace3& b) const {
-    BigInt scale_a = (b.x() + b.y() + b.z()).abs();
-    BigInt scale_b = (a.x() + a.y() + a.z()).abs();
+    // The scales must not be zero for any valid plane, so that the components
+    // of the normal must not cancel out.
+    BigInt scale_a = b.x().abs() + b.y().abs() + b.z().abs();
+    BigInt scale_b = a.x().abs() + a.y().abs() + a.z().abs();
 
     return std::make_tuple(a.x().Multiply(scale_a),
                            a.y().Multiply(scale_a),
-- 
2.43.0


From 319a24146b322ca1cc379ff23a5bc08f75bbdf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:22 +0000
Subject: [PATCH 43/44] fix: HomoPoint3::FromDoubles did not round to grains
 larger than one

---
 src/walnut/homo_point3.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index c509d98..761e079 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -27,13 +27,17 @@ HomoPoint3 HomoPoint3::FromDoubles(int min_exponent, double x, double y,
   int64_t y_mantissa = Decompose(y, &y_exp);
   int64_t z_mantissa = Decompose(z, &z_exp);
 
-  int denom_exp = std::min(0,
-                           std::max(min_exponent,
-                                    std::min({x_exp, y_exp, z_exp})));
-  return HomoPoint3(SafeShiftLeft(x_mantissa, x_exp - denom_exp),
-                    SafeShiftLeft(y_mantissa, y_exp - denom_exp),
-                    SafeShiftLeft(z_mantissa, z_exp - denom_exp),
-                    BigInt(1) << -denom_exp);
+  // Every coordinate is rounded to a multiple of 2^grain_exp. All finite doubles
+  // round to 0 for grains that are above the upper limit used here.
+  const int grain_exp = std::min(DBL_MAX_EXP + DBL_MANT_DIG,
+                                 std::max(min_exponent,
+                                          std::min({x_exp, y_exp, z_exp})));
+  const int denom_exp = std::min(0, grain_exp);
+  return HomoPoint3(
+      SafeShiftLeft(x_mantissa, x_exp - grain_exp) << (grain_exp - denom_exp),
+      SafeShiftLeft(y_mantissa, y_exp - grain_exp) << (grain_exp - denom_exp),
+      SafeShiftLeft(z_mantissa, z_exp - grain_exp) << (grain_exp - denom_exp),
+      BigInt(1) << -denom_exp);
 }
 
 HomoPoint3 HomoPoint3::FromDoublesExact(double x, double y, double z) {
-- 
2.43.0


From 95a00847f9ff939c5b6727af5838c63f768ef775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:14 +0000
Subject: [PATCH 44/44] fix: large negative BigInts were converted to doubles
 as NaN

---
 src/walnut/big_int.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/walnut/big_int.cpp b/src/walnut/big_int.cpp
index b7d4281..0d267a5 100644
--- a/src/walnut/big_int.cpp
+++ b/src/walnut/big_int.cpp
@@ -53,10 +53,12 @@ BigInt::operator double() const {
       return std::numeric_limits<double>::infinity() *
              BigIntWord{words_[used - 1]};
     }
-    return std::ldexp(BigIntWord{words_[used - 1]},
-                      static_cast<int>(first_shift)) +
-           words_[used - 2].ToDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 2)));
+    // The words are added before they are shifted to their place, because for
+    // large negative numbers both would overflow, in opposite directions.
+    return std::ldexp(std::ldexp((double)BigIntWord{words_[used - 1]},
+                                 bits_per_word) +
+                        words_[used - 2].ToDoubleWithShift(0),
+                      static_cast<int>(bits_per_word * (used - 2)));
   }
 }
 
@@ -76,12 +78,13 @@ BigInt::operator long double() const {
       return std::numeric_limits<long double>::infinity() *
              BigIntWord{words_[used - 1]};
     }
-    return std::ldexp((long double)BigIntWord{words_[used - 1]},
-                      static_cast<int>(bits_per_word * (used - 1))) +
-           words_[used - 2].ToLongDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 2))) +
-           words_[used - 3].ToLongDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 3)));
+    // The words are added before they are shifted to their place, because for
+    // large negative numbers they would overflow in opposite directions.
+    return std::ldexp(std::ldexp((long double)BigIntWord{words_[used - 1]},
+                                 2 * bits_per_word) +
+                        words_[used - 2].ToLongDoubleWithShift(bits_per_word) +
+                        words_[used - 3].ToLongDoubleWithShift(0),
+                      static_cast<int>(bits_per_word * (used - 3)));
   }
 }
 
-- 
2.43.0

