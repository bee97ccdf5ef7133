From 0cb4b1dd3340e3cdd36809dfdd2e88d77e374929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 01/16] fix: polymorphic_cxx14 initializer_list constructor
 must own a U, not a T

---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 0849204..08a0964 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -237,7 +237,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From 479d913b4aaf78dc439a9fb211d8657723b6ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 02/16] fix: polymorphic_cxx14 allocator-extended move may only
 steal from an equal allocator

---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 08a0964..73afc47 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -333,7 +333,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From b7e520431cac66cbfd063dd075adb09433c2e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 03/16] fix: copy the owned object from a const lvalue

---
 indirect.h          | 2 +-
 indirect_cxx14.h    | 2 +-
 polymorphic.h       | 3 ++-
 polymorphic_cxx14.h | 3 ++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/indirect.h b/indirect.h
index 7869cc4..43ea0cc 100644
--- a/indirect.h
+++ b/indirect.h
@@ -246,7 +246,7 @@ class indirect {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp =
-            construct_from(update_alloc ? other.alloc_ : alloc_, *other.p_);
+            construct_from(update_alloc ? other.alloc_ : alloc_, *other);
         reset();
         p_ = tmp;
       }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c45aeb7..4d3aa67 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -256,7 +256,7 @@ class indirect : private detail::empty_base_optimization<A> {
         // or updating allocators until this is done.
         auto tmp = construct_from(
             update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            *other.p_);
+            *other);
         reset();
         p_ = tmp;
       }
diff --git a/polymorphic.h b/polymorphic.h
index a32be6d..9937f7f 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -86,7 +86,8 @@ class polymorphic {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
+        cb_alloc_traits::construct(cb_alloc, mem, alloc,
+                                   static_cast<const U&>(storage_.u_));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 73afc47..dc1fe7d 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -141,7 +141,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
+        cb_alloc_traits::construct(cb_alloc, mem, alloc,
+                                   static_cast<const U&>(storage_.u_));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
-- 
2.43.0


From ae8095350c1860885a0f947790a8944a88332b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 04/16] fix: assigning from an object inside the owned object
 destroyed it twice

---
 indirect.h          | 11 +++++++----
 indirect_cxx14.h    | 13 +++++++++----
 polymorphic.h       | 11 +++++++----
 polymorphic_cxx14.h | 13 +++++++++----
 4 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/indirect.h b/indirect.h
index 43ea0cc..02f40cb 100644
--- a/indirect.h
+++ b/indirect.h
@@ -235,6 +235,8 @@ class indirect {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // other may be destroyed along with the object that *this owns.
+    const A new_alloc = update_alloc ? other.alloc_ : alloc_;
 
     if (other.valueless_after_move()) {
       reset();
@@ -252,7 +254,7 @@ class indirect {
       }
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -269,6 +271,8 @@ class indirect {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // other may be destroyed along with the object that *this owns.
+    const A new_alloc = update_alloc ? other.alloc_ : alloc_;
 
     if (other.valueless_after_move()) {
       reset();
@@ -286,7 +290,7 @@ class indirect {
       }
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -436,8 +440,7 @@ class indirect {
 
   constexpr void reset() noexcept {
     if (p_ == nullptr) return;
-    destroy_with(alloc_, p_);
-    p_ = nullptr;
+    destroy_with(alloc_, std::exchange(p_, nullptr));
   }
 
   template <typename... Ts>
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 4d3aa67..c5c4d77 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -244,6 +244,9 @@ class indirect : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // other may be destroyed along with the object that *this owns.
+    const A new_alloc =
+        update_alloc ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -262,7 +265,7 @@ class indirect : private detail::empty_base_optimization<A> {
       }
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -277,6 +280,9 @@ class indirect : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // other may be destroyed along with the object that *this owns.
+    const A new_alloc =
+        update_alloc ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -295,7 +301,7 @@ class indirect : private detail::empty_base_optimization<A> {
       }
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -548,8 +554,7 @@ class indirect : private detail::empty_base_optimization<A> {
 
   void reset() noexcept {
     if (p_ == nullptr) return;
-    destroy_with(alloc_base::get(), p_);
-    p_ = nullptr;
+    destroy_with(alloc_base::get(), std::exchange(p_, nullptr));
   }
 
   template <typename... Ts>
diff --git a/polymorphic.h b/polymorphic.h
index 9937f7f..1f164c9 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -285,6 +285,8 @@ class polymorphic {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // other may be destroyed along with the object that *this owns.
+    const A new_alloc = update_alloc ? other.alloc_ : alloc_;
 
     if (other.valueless_after_move()) {
       reset();
@@ -298,7 +300,7 @@ class polymorphic {
       cb_ = tmp;
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -313,6 +315,8 @@ class polymorphic {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // other may be destroyed along with the object that *this owns.
+    const A new_alloc = update_alloc ? other.alloc_ : alloc_;
 
     if (other.valueless_after_move()) {
       reset();
@@ -332,7 +336,7 @@ class polymorphic {
     }
 
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -396,8 +400,7 @@ class polymorphic {
  private:
   constexpr void reset() noexcept {
     if (cb_ != nullptr) {
-      cb_->destroy(alloc_);
-      cb_ = nullptr;
+      std::exchange(cb_, nullptr)->destroy(alloc_);
     }
   }
 };
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index dc1fe7d..f5a394d 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -365,6 +365,9 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // other may be destroyed along with the object that *this owns.
+    const A new_alloc =
+        update_alloc ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -377,7 +380,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       cb_ = tmp;
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -392,6 +395,9 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // other may be destroyed along with the object that *this owns.
+    const A new_alloc =
+        update_alloc ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -410,7 +416,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
     }
 
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -466,8 +472,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
  private:
   void reset() noexcept {
     if (cb_ != nullptr) {
-      cb_->destroy(alloc_base::get());
-      cb_ = nullptr;
+      std::exchange(cb_, nullptr)->destroy(alloc_base::get());
     }
   }
 };
-- 
2.43.0


From 2274072cbd8e586140bbbf0af0337a1f936968c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 05/16] fix: indirect_cxx14 converting assignment must not
 capture indirect lvalues

---
 indirect_cxx14.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c5c4d77..370ecb0 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -309,7 +309,9 @@ class indirect : private detail::empty_base_optimization<A> {
   template <class U, typename std::enable_if<
                          (std::is_constructible<T, U>::value &&
                           std::is_assignable<T&, U>::value &&
-                          !std::is_same<std::remove_cv_t<U>, indirect>::value),
+                          !std::is_same<
+                              std::remove_cv_t<std::remove_reference_t<U>>,
+                              indirect>::value),
                          int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
-- 
2.43.0


From e005bff13fea91c17bcd8f494b19acf3f5d3c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 06/16] fix: accept every assignable value type in indirect's
 assignment from a value

The documented constraint is is_assignable_v<T&, U>; std::assignable_from also
demands a common reference, which rejects move-only element types and types
that are only explicitly constructible from U.
---
 indirect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indirect.h b/indirect.h
index 02f40cb..bb1099c 100644
--- a/indirect.h
+++ b/indirect.h
@@ -298,7 +298,7 @@ class indirect {
   template <class U>
   constexpr indirect& operator=(U&& u)
     requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
-             std::constructible_from<T, U> && std::assignable_from<T&, U>)
+             std::constructible_from<T, U> && std::is_assignable_v<T&, U>)
   {
     if (valueless_after_move()) {
       p_ = construct_from(alloc_, std::forward<U>(u));
-- 
2.43.0


From c170a6fb11171190702604fa39044941118979b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 07/16] fix: declare move constructors noexcept, as documented

Three of the four headers made the promise depend on is_always_equal, so that
containers of such objects copied their elements instead of moving them.
---
 indirect.h       | 3 +--
 indirect_cxx14.h | 2 +-
 polymorphic.h    | 3 +--
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/indirect.h b/indirect.h
index bb1099c..05dec95 100644
--- a/indirect.h
+++ b/indirect.h
@@ -134,8 +134,7 @@ class indirect {
     static_assert(std::copy_constructible<T>);
   }
 
-  constexpr indirect(indirect&& other) noexcept(
-      allocator_traits::is_always_equal::value)
+  constexpr indirect(indirect&& other) noexcept
       : indirect(std::allocator_arg, other.alloc_, std::move(other)) {}
 
   //
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 370ecb0..0b1a06a 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -230,7 +230,7 @@ class indirect : private detail::empty_base_optimization<A> {
     }
   }
 
-  indirect(indirect&& other) noexcept(allocator_traits::is_always_equal::value)
+  indirect(indirect&& other) noexcept
       : indirect(std::allocator_arg, other.alloc_base::get(),
                  std::move(other)) {}
 
diff --git a/polymorphic.h b/polymorphic.h
index 1f164c9..a136e64 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -193,8 +193,7 @@ class polymorphic {
                         other.alloc_),
                     other) {}
 
-  constexpr polymorphic(polymorphic&& other) noexcept(
-      allocator_traits::is_always_equal::value)
+  constexpr polymorphic(polymorphic&& other) noexcept
       : polymorphic(std::allocator_arg_t{}, other.alloc_, std::move(other)) {}
 
   //
-- 
2.43.0


From 40656dfce4db561d90d48b71e03366c54d15fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 08/16] fix: constrain the cxx14 converting constructors on a
 default constructible allocator

---
 indirect_cxx14.h    | 5 ++++-
 polymorphic_cxx14.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 0b1a06a..4ef3c27 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -150,7 +150,10 @@ class indirect : private detail::empty_base_optimization<A> {
           !std::is_same<typename std::remove_cv<
                             typename std::remove_reference<U>::type>::type,
                         xyz::in_place_t>::value,
-          int>::type = 0>
+          int>::type = 0,
+      class AA = A,
+      typename std::enable_if<std::is_default_constructible<AA>::value,
+                              int>::type = 0>
   explicit constexpr indirect(U&& u)
       : indirect(std::allocator_arg, A{}, std::forward<U>(u)) {}
 
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index f5a394d..b30aa8b 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -308,7 +308,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
           std::is_base_of<
               T, typename std::remove_cv<
                      typename std::remove_reference<U>::type>::type>::value,
-          int>::type = 0>
+          int>::type = 0,
+      typename AA = A,
+      typename std::enable_if<std::is_default_constructible<AA>::value,
+                              int>::type = 0>
   explicit polymorphic(U&& u)
       : polymorphic(std::allocator_arg_t{}, A{},
                     in_place_type_t<typename std::remove_cv<
-- 
2.43.0


From 8de38b7cadb90c55a1aec005dc4f3e9fae9f6467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 09/16] fix: indirect_cxx14 must not require a complete element
 type for copies, moves and members

The in-place constructors and the assignment from a value asked
is_constructible<T, ...> while overload resolution considered them for a copy
or move. With clang that instantiates the trait for an incomplete T and is a
hard error, so a class with an indirect member of incomplete type did not
compile.
---
 indirect_cxx14.h | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 4ef3c27..39fbeec 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -157,21 +157,27 @@ class indirect : private detail::empty_base_optimization<A> {
   explicit constexpr indirect(U&& u)
       : indirect(std::allocator_arg, A{}, std::forward<U>(u)) {}
 
-  template <class... Us,
+  // The type of the tag is deduced so that constructibility of T, which may be
+  // incomplete, is only considered for in-place construction.
+  template <class Tag, class... Us,
+            typename std::enable_if<std::is_same<Tag, xyz::in_place_t>::value,
+                                    int>::type = 0,
             typename std::enable_if<std::is_constructible<T, Us&&...>::value,
                                     int>::type = 0>
-  indirect(std::allocator_arg_t, const A& alloc, xyz::in_place_t, Us&&... us)
+  indirect(std::allocator_arg_t, const A& alloc, Tag, Us&&... us)
       : alloc_base(alloc) {
     p_ = construct_from(alloc_base::get(), std::forward<Us>(us)...);
   }
 
-  template <class... Us,
+  template <class Tag, class... Us,
+            typename std::enable_if<std::is_same<Tag, xyz::in_place_t>::value,
+                                    int>::type = 0,
             typename std::enable_if<std::is_constructible<T, Us&&...>::value,
                                     int>::type = 0,
             class AA = A,
             typename std::enable_if<std::is_default_constructible<AA>::value,
                                     int>::type = 0>
-  explicit indirect(xyz::in_place_t, Us&&... us)
+  explicit indirect(Tag, Us&&... us)
       : indirect(std::allocator_arg, A(), xyz::in_place_t{},
                  std::forward<Us>(us)...) {}
 
@@ -309,13 +315,14 @@ class indirect : private detail::empty_base_optimization<A> {
     return *this;
   }
 
-  template <class U, typename std::enable_if<
-                         (std::is_constructible<T, U>::value &&
-                          std::is_assignable<T&, U>::value &&
-                          !std::is_same<
-                              std::remove_cv_t<std::remove_reference_t<U>>,
-                              indirect>::value),
-                         int>::type = 0>
+  template <class U,
+            typename std::enable_if<
+                !std::is_same<std::remove_cv_t<std::remove_reference_t<U>>,
+                              indirect>::value,
+                int>::type = 0,
+            typename std::enable_if<(std::is_constructible<T, U>::value &&
+                                     std::is_assignable<T&, U>::value),
+                                    int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
       p_ = construct_from(get_allocator(), std::forward<U>(u));
-- 
2.43.0


From 2ddfc43395e9be400d624f04f4e8ca8a99bd22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 10/16] fix: polymorphic_cxx14 default construction must not be
 constrained on the element type

Default construction is documented to be constrained on the allocator only.
Asking whether T is default constructible made it a hard error to use
polymorphic<T> in a class with an implicit default constructor while T is
incomplete.
---
 polymorphic_cxx14.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index b30aa8b..9b4696a 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -197,17 +197,11 @@ class polymorphic : private detail::empty_base_optimization<A> {
   using pointer = typename allocator_traits::pointer;
   using const_pointer = typename allocator_traits::const_pointer;
 
-  template <typename TT = T,
-            typename std::enable_if<std::is_default_constructible<TT>::value,
-                                    int>::type = 0>
   polymorphic(std::allocator_arg_t, const A& alloc) : alloc_base(alloc) {
     cb_ = create_control_block<T>();
   }
 
-  template <typename TT = T,
-            typename std::enable_if<std::is_default_constructible<TT>::value,
-                                    int>::type = 0,
-            typename AA = A,
+  template <typename AA = A,
             typename std::enable_if<std::is_default_constructible<AA>::value,
                                     int>::type = 0>
   polymorphic() : alloc_base() {
-- 
2.43.0


From 4f862f66e1555a7c1332b2011d412eeb13b346f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 11/16] fix: do not require allocators that are not propagated
 to be assignable or swappable

Copy and move assignment assigned the allocator in code that is compiled (if
never executed) for allocators that do not propagate, as did swap in the C++14
headers. Allocators that are not assignable, std::pmr::polymorphic_allocator
for one, could therefore not be used with any of them. A propagated allocator
is now also moved, not copied, on move assignment.
---
 indirect.h          | 10 ++++++----
 indirect_cxx14.h    | 33 ++++++++++++++++++++++++---------
 polymorphic.h       | 10 ++++++----
 polymorphic_cxx14.h | 33 ++++++++++++++++++++++++---------
 4 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/indirect.h b/indirect.h
index 05dec95..2a2bd42 100644
--- a/indirect.h
+++ b/indirect.h
@@ -252,7 +252,8 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (allocator_traits::propagate_on_container_copy_assignment::
+                      value) {
       alloc_ = new_alloc;
     }
     return *this;
@@ -271,7 +272,7 @@ class indirect {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
     // other may be destroyed along with the object that *this owns.
-    const A new_alloc = update_alloc ? other.alloc_ : alloc_;
+    A new_alloc = update_alloc ? other.alloc_ : alloc_;
 
     if (other.valueless_after_move()) {
       reset();
@@ -288,8 +289,9 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_ = new_alloc;
+    if constexpr (allocator_traits::propagate_on_container_move_assignment::
+                      value) {
+      alloc_ = std::move(new_alloc);
     }
     return *this;
   }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 39fbeec..c95cfd5 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -273,9 +273,9 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_allocator(
+        new_alloc,
+        typename allocator_traits::propagate_on_container_copy_assignment{});
     return *this;
   }
 
@@ -290,8 +290,7 @@ class indirect : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
     // other may be destroyed along with the object that *this owns.
-    const A new_alloc =
-        update_alloc ? other.alloc_base::get() : alloc_base::get();
+    A new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -309,9 +308,9 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_allocator(
+        std::move(new_alloc),
+        typename allocator_traits::propagate_on_container_move_assignment{});
     return *this;
   }
 
@@ -373,7 +372,8 @@ class indirect : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_allocators(other,
+                      typename allocator_traits::propagate_on_container_swap{});
       std::swap(p_, other.p_);
       return;
     } else /*  */ {
@@ -564,6 +564,21 @@ class indirect : private detail::empty_base_optimization<A> {
  private:
   pointer p_;
 
+  // Allocators need only be assignable or swappable if they are propagated.
+  template <class AA>
+  constexpr void assign_allocator(AA&& alloc, std::true_type) {
+    alloc_base::get() = std::forward<AA>(alloc);
+  }
+
+  template <class AA>
+  constexpr void assign_allocator(AA&&, std::false_type) noexcept {}
+
+  void swap_allocators(indirect& other, std::true_type) {
+    std::swap(alloc_base::get(), other.alloc_base::get());
+  }
+
+  void swap_allocators(indirect&, std::false_type) noexcept {}
+
   void reset() noexcept {
     if (p_ == nullptr) return;
     destroy_with(alloc_base::get(), std::exchange(p_, nullptr));
diff --git a/polymorphic.h b/polymorphic.h
index a136e64..9152222 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -298,7 +298,8 @@ class polymorphic {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
+    if constexpr (allocator_traits::propagate_on_container_copy_assignment::
+                      value) {
       alloc_ = new_alloc;
     }
     return *this;
@@ -315,7 +316,7 @@ class polymorphic {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
     // other may be destroyed along with the object that *this owns.
-    const A new_alloc = update_alloc ? other.alloc_ : alloc_;
+    A new_alloc = update_alloc ? other.alloc_ : alloc_;
 
     if (other.valueless_after_move()) {
       reset();
@@ -334,8 +335,9 @@ class polymorphic {
       }
     }
 
-    if (update_alloc) {
-      alloc_ = new_alloc;
+    if constexpr (allocator_traits::propagate_on_container_move_assignment::
+                      value) {
+      alloc_ = std::move(new_alloc);
     }
     return *this;
   }
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 9b4696a..df8547e 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -376,9 +376,9 @@ class polymorphic : private detail::empty_base_optimization<A> {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_allocator(
+        new_alloc,
+        typename allocator_traits::propagate_on_container_copy_assignment{});
     return *this;
   }
 
@@ -393,8 +393,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
     // other may be destroyed along with the object that *this owns.
-    const A new_alloc =
-        update_alloc ? other.alloc_base::get() : alloc_base::get();
+    A new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -412,9 +411,9 @@ class polymorphic : private detail::empty_base_optimization<A> {
       }
     }
 
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_allocator(
+        std::move(new_alloc),
+        typename allocator_traits::propagate_on_container_move_assignment{});
     return *this;
   }
 
@@ -449,7 +448,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_allocators(other,
+                      typename allocator_traits::propagate_on_container_swap{});
       std::swap(cb_, other.cb_);
       return;
     } else /*  */ {
@@ -467,6 +467,21 @@ class polymorphic : private detail::empty_base_optimization<A> {
   }
 
  private:
+  // Allocators need only be assignable or swappable if they are propagated.
+  template <class AA>
+  constexpr void assign_allocator(AA&& alloc, std::true_type) {
+    alloc_base::get() = std::forward<AA>(alloc);
+  }
+
+  template <class AA>
+  constexpr void assign_allocator(AA&&, std::false_type) noexcept {}
+
+  void swap_allocators(polymorphic& other, std::true_type) {
+    std::swap(alloc_base::get(), other.alloc_base::get());
+  }
+
+  void swap_allocators(polymorphic&, std::false_type) noexcept {}
+
   void reset() noexcept {
     if (cb_ != nullptr) {
       std::exchange(cb_, nullptr)->destroy(alloc_base::get());
-- 
2.43.0


From 6c2e082bac69c59bbf4b373034a9a487aea16403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 12/16] fix: swap allocators by unqualified call

DRAFT.md: the allocators are exchanged by calling swap as described in
[swappable.requirements]. A qualified call to std::swap does not find the swap
function of an allocator that has its own (and does not compile if the
allocator is not assignable).
---
 indirect.h          | 3 ++-
 indirect_cxx14.h    | 3 ++-
 polymorphic.h       | 3 ++-
 polymorphic_cxx14.h | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/indirect.h b/indirect.h
index 2a2bd42..0d69e91 100644
--- a/indirect.h
+++ b/indirect.h
@@ -358,7 +358,8 @@ class indirect {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(p_, other.p_);
       return;
     } else /* constexpr */ {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c95cfd5..9be0482 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -574,7 +574,8 @@ class indirect : private detail::empty_base_optimization<A> {
   constexpr void assign_allocator(AA&&, std::false_type) noexcept {}
 
   void swap_allocators(indirect& other, std::true_type) {
-    std::swap(alloc_base::get(), other.alloc_base::get());
+    using std::swap;
+    swap(alloc_base::get(), other.alloc_base::get());
   }
 
   void swap_allocators(indirect&, std::false_type) noexcept {}
diff --git a/polymorphic.h b/polymorphic.h
index 9152222..9bbbc00 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -381,7 +381,8 @@ class polymorphic {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(cb_, other.cb_);
       return;
     } else /* constexpr */ {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index df8547e..d0a124e 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -477,7 +477,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
   constexpr void assign_allocator(AA&&, std::false_type) noexcept {}
 
   void swap_allocators(polymorphic& other, std::true_type) {
-    std::swap(alloc_base::get(), other.alloc_base::get());
+    using std::swap;
+    swap(alloc_base::get(), other.alloc_base::get());
   }
 
   void swap_allocators(polymorphic&, std::false_type) noexcept {}
-- 
2.43.0


From 607cbfb7ab0f6762212432901b989dc7432f13e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:51 +0000
Subject: [PATCH 13/16] fix: comparing for equality is non-throwing if
 comparing the elements is

DRAFT.md declares operator== of indirect noexcept(noexcept(*lhs == *rhs)) and
noexcept(noexcept(*lhs == rhs)); neither header did.
---
 indirect.h       |  9 +++++----
 indirect_cxx14.h | 24 ++++++++++++++----------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/indirect.h b/indirect.h
index 0d69e91..4c364d6 100644
--- a/indirect.h
+++ b/indirect.h
@@ -381,8 +381,9 @@ class indirect {
   //
 
   template <class U, class AA>
-  [[nodiscard]] friend constexpr bool operator==(const indirect<T, A>& lhs,
-                                                 const indirect<U, AA>& rhs) {
+  [[nodiscard]] friend constexpr bool operator==(
+      const indirect<T, A>& lhs,
+      const indirect<U, AA>& rhs) noexcept(noexcept(*lhs == *rhs)) {
     if (lhs.valueless_after_move()) {
       return rhs.valueless_after_move();
     }
@@ -393,8 +394,8 @@ class indirect {
   }
 
   template <class U>
-  [[nodiscard]] friend constexpr bool operator==(const indirect<T, A>& lhs,
-                                                 const U& rhs)
+  [[nodiscard]] friend constexpr bool operator==(
+      const indirect<T, A>& lhs, const U& rhs) noexcept(noexcept(*lhs == rhs))
     requires(!is_indirect_v<U>)
   {
     if (lhs.valueless_after_move()) {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 9be0482..20bae29 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -391,8 +391,9 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
   template <class U, class AA>
-  [[nodiscard]] friend bool operator==(const indirect<T, A>& lhs,
-                                       const indirect<U, AA>& rhs) {
+  [[nodiscard]] friend bool operator==(
+      const indirect<T, A>& lhs,
+      const indirect<U, AA>& rhs) noexcept(noexcept(*lhs == *rhs)) {
     if (lhs.valueless_after_move() || rhs.valueless_after_move()) {
       return lhs.valueless_after_move() && rhs.valueless_after_move();
     }
@@ -400,8 +401,9 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
   template <class U, class AA>
-  [[nodiscard]] friend bool operator!=(const indirect<T, A>& lhs,
-                                       const indirect<U, AA>& rhs) {
+  [[nodiscard]] friend bool operator!=(
+      const indirect<T, A>& lhs,
+      const indirect<U, AA>& rhs) noexcept(noexcept(*lhs != *rhs)) {
     if (lhs.valueless_after_move() || rhs.valueless_after_move()) {
       return !(lhs.valueless_after_move() && rhs.valueless_after_move());
     }
@@ -448,7 +450,8 @@ class indirect : private detail::empty_base_optimization<A> {
   template <class U,
             typename std::enable_if<!is_indirect<U>::value, int>::type = 0>
   [[nodiscard]] friend bool operator==(const indirect<T, A>& lhs,
-                                       const U& rhs) {
+                                       const U& rhs) noexcept(noexcept(*lhs ==
+                                                                       rhs)) {
     if (lhs.valueless_after_move()) {
       return false;
     }
@@ -457,8 +460,8 @@ class indirect : private detail::empty_base_optimization<A> {
 
   template <class U,
             typename std::enable_if<!is_indirect<U>::value, int>::type = 0>
-  [[nodiscard]] friend bool operator==(const U& lhs,
-                                       const indirect<T, A>& rhs) {
+  [[nodiscard]] friend bool operator==(
+      const U& lhs, const indirect<T, A>& rhs) noexcept(noexcept(lhs == *rhs)) {
     if (rhs.valueless_after_move()) {
       return false;
     }
@@ -468,7 +471,8 @@ class indirect : private detail::empty_base_optimization<A> {
   template <class U,
             typename std::enable_if<!is_indirect<U>::value, int>::type = 0>
   [[nodiscard]] friend bool operator!=(const indirect<T, A>& lhs,
-                                       const U& rhs) {
+                                       const U& rhs) noexcept(noexcept(*lhs !=
+                                                                       rhs)) {
     if (lhs.valueless_after_move()) {
       return true;
     }
@@ -477,8 +481,8 @@ class indirect : private detail::empty_base_optimization<A> {
 
   template <class U,
             typename std::enable_if<!is_indirect<U>::value, int>::type = 0>
-  [[nodiscard]] friend bool operator!=(const U& lhs,
-                                       const indirect<T, A>& rhs) {
+  [[nodiscard]] friend bool operator!=(
+      const U& lhs, const indirect<T, A>& rhs) noexcept(noexcept(lhs != *rhs)) {
     if (rhs.valueless_after_move()) {
       return true;
     }
-- 
2.43.0


From cd7cba69efc8b26dadf266ae1688e5261a7db722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:00 +0000
Subject: [PATCH 14/16] fix: converting construction and assignment default to
 the element type

DRAFT.md: template <class U = T>. Without the default a braced initializer
list could not be used to construct from, or assign, a value of the element
type (all of it in the C++14 headers and polymorphic.h, assignment in
indirect.h).
---
 indirect.h          | 2 +-
 indirect_cxx14.h    | 6 +++---
 polymorphic.h       | 4 ++--
 polymorphic_cxx14.h | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/indirect.h b/indirect.h
index 4c364d6..0c6e556 100644
--- a/indirect.h
+++ b/indirect.h
@@ -296,7 +296,7 @@ class indirect {
     return *this;
   }
 
-  template <class U>
+  template <class U = T>
   constexpr indirect& operator=(U&& u)
     requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
              std::constructible_from<T, U> && std::is_assignable_v<T&, U>)
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 20bae29..3ef9569 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -123,7 +123,7 @@ class indirect : private detail::empty_base_optimization<A> {
   indirect() : indirect(std::allocator_arg, A()) {}
 
   template <
-      class U,
+      class U = T,
       typename std::enable_if<
           std::is_same<
               T, typename std::remove_cv<
@@ -140,7 +140,7 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
   template <
-      class U,
+      class U = T,
       typename std::enable_if<
           std::is_same<
               T, typename std::remove_cv<
@@ -314,7 +314,7 @@ class indirect : private detail::empty_base_optimization<A> {
     return *this;
   }
 
-  template <class U,
+  template <class U = T,
             typename std::enable_if<
                 !std::is_same<std::remove_cv_t<std::remove_reference_t<U>>,
                               indirect>::value,
diff --git a/polymorphic.h b/polymorphic.h
index 9bbbc00..fe5d398 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -160,7 +160,7 @@ class polymorphic {
     static_assert(std::default_initializable<T> && std::copy_constructible<T>);
   }
 
-  template <class U>
+  template <class U = T>
   constexpr explicit polymorphic(U&& u)
     requires(!std::same_as<polymorphic, std::remove_cvref_t<U>>) &&
             std::copy_constructible<std::remove_cvref_t<U>> &&
@@ -207,7 +207,7 @@ class polymorphic {
     cb_ = create_control_block<T>();
   }
 
-  template <class U>
+  template <class U = T>
   constexpr explicit polymorphic(std::allocator_arg_t, const A& alloc, U&& u)
     requires(not std::same_as<polymorphic, std::remove_cvref_t<U>>) &&
             std::copy_constructible<std::remove_cvref_t<U>> &&
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index d0a124e..f6c48e3 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -266,7 +266,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
                     std::forward<Ts>(ts)...) {}
 
   template <
-      class U,
+      class U = T,
       typename std::enable_if<
           !std::is_same<polymorphic,
                         typename std::remove_cv<typename std::remove_reference<
@@ -288,7 +288,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
                     std::forward<U>(u)) {}
 
   template <
-      class U,
+      class U = T,
       typename std::enable_if<
           !std::is_same<polymorphic,
                         typename std::remove_cv<typename std::remove_reference<
-- 
2.43.0


From ddaca32322abe2af6d9518bf2cf3f1eb6f3f4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 15/16] fix: moving an indirect does not require its element to
 be movable

Move construction takes ownership of the owned object (DRAFT.md has no
mandate), as does allocator-extended move construction if all allocators are
equal; both demanded a move constructible element type.
---
 indirect.h       |  6 +++---
 indirect_cxx14.h | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/indirect.h b/indirect.h
index 0c6e556..07082f4 100644
--- a/indirect.h
+++ b/indirect.h
@@ -135,7 +135,7 @@ class indirect {
   }
 
   constexpr indirect(indirect&& other) noexcept
-      : indirect(std::allocator_arg, other.alloc_, std::move(other)) {}
+      : p_(std::exchange(other.p_, nullptr)), alloc_(other.alloc_) {}
 
   //
   // Allocator-extended constructors.
@@ -197,11 +197,11 @@ class indirect {
       std::allocator_arg_t, const A& alloc,
       indirect&& other) noexcept(allocator_traits::is_always_equal::value)
       : p_(nullptr), alloc_(alloc) {
-    static_assert(std::move_constructible<T>);
-
     if constexpr (allocator_traits::is_always_equal::value) {
       std::swap(p_, other.p_);
     } else {
+      static_assert(std::move_constructible<T>);
+
       if (alloc_ == other.alloc_) {
         std::swap(p_, other.p_);
       } else {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 3ef9569..3c7f0a6 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -231,7 +231,8 @@ class indirect : private detail::empty_base_optimization<A> {
         std::swap(p_, other.p_);
       } else {
         if (!other.valueless_after_move()) {
-          p_ = construct_from(alloc_base::get(), std::move(*other));
+          p_ = construct_moved(std::move(*other),
+                               typename allocator_traits::is_always_equal{});
         } else {
           p_ = nullptr;
         }
@@ -240,8 +241,8 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
   indirect(indirect&& other) noexcept
-      : indirect(std::allocator_arg, other.alloc_base::get(),
-                 std::move(other)) {}
+      : alloc_base(other.alloc_base::get()),
+        p_(std::exchange(other.p_, nullptr)) {}
 
   ~indirect() { reset(); }
 
@@ -601,6 +602,15 @@ class indirect : private detail::empty_base_optimization<A> {
     }
   }
 
+  // T need not be move constructible if all allocators are equal.
+  [[nodiscard]] T* construct_moved(T&&, std::true_type) noexcept {
+    unreachable();  // LCOV_EXCL_LINE
+  }
+
+  [[nodiscard]] T* construct_moved(T&& t, std::false_type) {
+    return construct_from(alloc_base::get(), std::move(t));
+  }
+
   static void destroy_with(A alloc, T* p) {
     allocator_traits::destroy(alloc, p);
     allocator_traits::deallocate(alloc, p, 1);
-- 
2.43.0


From 2c8bc5dbf15324d1c38890e625d873c15456587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:14 +0000
Subject: [PATCH 16/16] fix: constrain and mandate what is documented of the
 element type

The concepts copy_constructible and default_initializable ask for more than
is_copy_constructible and is_default_constructible, which DRAFT.md names: types
with an explicit copy constructor, and types that cannot be initialized with
empty braces, were rejected. Conversely the converting constructors of the
C++14 headers and of polymorphic took part in overload resolution for arguments
the (derived) element type cannot be constructed from.
---
 indirect.h          | 12 ++++++------
 indirect_cxx14.h    |  2 ++
 polymorphic.h       | 23 ++++++++++++++---------
 polymorphic_cxx14.h | 12 ++++++++++++
 4 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/indirect.h b/indirect.h
index 07082f4..18eaf0f 100644
--- a/indirect.h
+++ b/indirect.h
@@ -96,7 +96,7 @@ class indirect {
   explicit constexpr indirect()
     requires std::default_initializable<A>
       : alloc_() {
-    static_assert(std::default_initializable<T>);
+    static_assert(std::is_default_constructible_v<T>);
     p_ = construct_from(alloc_);
   }
 
@@ -131,7 +131,7 @@ class indirect {
                  allocator_traits::select_on_container_copy_construction(
                      other.alloc_),
                  other) {
-    static_assert(std::copy_constructible<T>);
+    static_assert(std::is_copy_constructible_v<T>);
   }
 
   constexpr indirect(indirect&& other) noexcept
@@ -184,7 +184,7 @@ class indirect {
   constexpr indirect(std::allocator_arg_t, const A& alloc,
                      const indirect& other)
       : alloc_(alloc) {
-    static_assert(std::copy_constructible<T>);
+    static_assert(std::is_copy_constructible_v<T>);
 
     if (other.valueless_after_move()) {
       p_ = nullptr;
@@ -200,7 +200,7 @@ class indirect {
     if constexpr (allocator_traits::is_always_equal::value) {
       std::swap(p_, other.p_);
     } else {
-      static_assert(std::move_constructible<T>);
+      static_assert(std::is_move_constructible_v<T>);
 
       if (alloc_ == other.alloc_) {
         std::swap(p_, other.p_);
@@ -225,7 +225,7 @@ class indirect {
   //
 
   constexpr indirect& operator=(const indirect& other) {
-    static_assert(std::copy_constructible<T>);
+    static_assert(std::is_copy_constructible_v<T>);
 
     if (this == &other) return *this;
 
@@ -262,7 +262,7 @@ class indirect {
   constexpr indirect& operator=(indirect&& other) noexcept(
       allocator_traits::propagate_on_container_move_assignment::value ||
       allocator_traits::is_always_equal::value) {
-    static_assert(std::move_constructible<T>);
+    static_assert(std::is_move_constructible_v<T>);
 
     if (this == &other) return *this;
 
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 3c7f0a6..e6fda4b 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -129,6 +129,7 @@ class indirect : private detail::empty_base_optimization<A> {
               T, typename std::remove_cv<
                      typename std::remove_reference<U>::type>::type>::value,
           int>::type = 0,
+      typename std::enable_if<std::is_constructible<T, U>::value, int>::type = 0,
       typename std::enable_if<
           !std::is_same<typename std::remove_cv<
                             typename std::remove_reference<U>::type>::type,
@@ -146,6 +147,7 @@ class indirect : private detail::empty_base_optimization<A> {
               T, typename std::remove_cv<
                      typename std::remove_reference<U>::type>::type>::value,
           int>::type = 0,
+      typename std::enable_if<std::is_constructible<T, U>::value, int>::type = 0,
       typename std::enable_if<
           !std::is_same<typename std::remove_cv<
                             typename std::remove_reference<U>::type>::type,
diff --git a/polymorphic.h b/polymorphic.h
index fe5d398..81fe136 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -25,6 +25,7 @@ CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include <concepts>
 #include <initializer_list>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 #ifndef XYZ_POLYMORPHIC_HAS_EXTENDED_CONSTRUCTORS
@@ -157,14 +158,16 @@ class polymorphic {
   explicit constexpr polymorphic()
     requires std::default_initializable<A>
       : polymorphic(std::allocator_arg_t{}, A{}) {
-    static_assert(std::default_initializable<T> && std::copy_constructible<T>);
+    static_assert(std::is_default_constructible_v<T> &&
+                  std::is_copy_constructible_v<T>);
   }
 
   template <class U = T>
   constexpr explicit polymorphic(U&& u)
     requires(!std::same_as<polymorphic, std::remove_cvref_t<U>>) &&
-            std::copy_constructible<std::remove_cvref_t<U>> &&
+            std::is_copy_constructible_v<std::remove_cvref_t<U>> &&
             std::derived_from<std::remove_cvref_t<U>, T> &&
+            std::constructible_from<std::remove_cvref_t<U>, U> &&
             std::default_initializable<A>
       : polymorphic(std::allocator_arg_t{}, A{}, std::forward<U>(u)) {}
 
@@ -172,7 +175,7 @@ class polymorphic {
   explicit constexpr polymorphic(std::in_place_type_t<U>, Ts&&... ts)
     requires std::same_as<std::remove_cvref_t<U>, U> &&
              std::constructible_from<U, Ts&&...> &&
-             std::copy_constructible<U> && std::derived_from<U, T> &&
+             std::is_copy_constructible_v<U> && std::derived_from<U, T> &&
              std::default_initializable<A>
       : polymorphic(std::allocator_arg_t{}, A{}, std::in_place_type<U>,
                     std::forward<Ts>(ts)...) {}
@@ -182,7 +185,7 @@ class polymorphic {
                                  std::initializer_list<I> ilist, Ts&&... ts)
     requires std::same_as<std::remove_cvref_t<U>, U> &&
              std::constructible_from<U, std::initializer_list<I>, Ts&&...> &&
-             std::copy_constructible<U> && std::derived_from<U, T> &&
+             std::is_copy_constructible_v<U> && std::derived_from<U, T> &&
              std::default_initializable<A>
       : polymorphic(std::allocator_arg_t{}, A{}, std::in_place_type<U>, ilist,
                     std::forward<Ts>(ts)...) {}
@@ -202,7 +205,8 @@ class polymorphic {
 
   explicit constexpr polymorphic(std::allocator_arg_t, const A& alloc)
       : alloc_(alloc) {
-    static_assert(std::default_initializable<T> && std::copy_constructible<T>);
+    static_assert(std::is_default_constructible_v<T> &&
+                  std::is_copy_constructible_v<T>);
 
     cb_ = create_control_block<T>();
   }
@@ -210,8 +214,9 @@ class polymorphic {
   template <class U = T>
   constexpr explicit polymorphic(std::allocator_arg_t, const A& alloc, U&& u)
     requires(not std::same_as<polymorphic, std::remove_cvref_t<U>>) &&
-            std::copy_constructible<std::remove_cvref_t<U>> &&
-            std::derived_from<std::remove_cvref_t<U>, T>
+            std::is_copy_constructible_v<std::remove_cvref_t<U>> &&
+            std::derived_from<std::remove_cvref_t<U>, T> &&
+            std::constructible_from<std::remove_cvref_t<U>, U>
       : alloc_(alloc) {
     cb_ = create_control_block<std::remove_cvref_t<U>>(std::forward<U>(u));
   }
@@ -221,7 +226,7 @@ class polymorphic {
                                  std::in_place_type_t<U>, Ts&&... ts)
     requires std::same_as<std::remove_cvref_t<U>, U> &&
              std::constructible_from<U, Ts&&...> &&
-             std::copy_constructible<U> && std::derived_from<U, T>
+             std::is_copy_constructible_v<U> && std::derived_from<U, T>
       : alloc_(alloc) {
     cb_ = create_control_block<U>(std::forward<Ts>(ts)...);
   }
@@ -232,7 +237,7 @@ class polymorphic {
                                  std::initializer_list<I> ilist, Ts&&... ts)
     requires std::same_as<std::remove_cvref_t<U>, U> &&
              std::constructible_from<U, std::initializer_list<I>, Ts&&...> &&
-             std::copy_constructible<U> && std::derived_from<U, T>
+             std::is_copy_constructible_v<U> && std::derived_from<U, T>
       : alloc_(alloc) {
     cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index f6c48e3..6eb5b33 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -280,6 +280,12 @@ class polymorphic : private detail::empty_base_optimization<A> {
           std::is_base_of<
               T, typename std::remove_cv<
                      typename std::remove_reference<U>::type>::type>::value,
+          int>::type = 0,
+      typename std::enable_if<
+          std::is_constructible<
+              typename std::remove_cv<
+                  typename std::remove_reference<U>::type>::type,
+              U>::value,
           int>::type = 0>
   explicit polymorphic(std::allocator_arg_t, const A& alloc, U&& u)
       : polymorphic(std::allocator_arg_t{}, alloc,
@@ -303,6 +309,12 @@ class polymorphic : private detail::empty_base_optimization<A> {
               T, typename std::remove_cv<
                      typename std::remove_reference<U>::type>::type>::value,
           int>::type = 0,
+      typename std::enable_if<
+          std::is_constructible<
+              typename std::remove_cv<
+                  typename std::remove_reference<U>::type>::type,
+              U>::value,
+          int>::type = 0,
       typename AA = A,
       typename std::enable_if<std::is_default_constructible<AA>::value,
                               int>::type = 0>
-- 
2.43.0

