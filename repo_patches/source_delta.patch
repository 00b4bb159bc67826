From a10ee52dc3135e58f94dd885a088bc7c550d3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:45 +0000
Subject: [PATCH 01/25] fix: make circular_buffer_adapter const_iterators
 copyable and movable through the buffer

The const_iterator had no copy constructor (the declared move constructor
deleted it), and for a non-const element type its increment, decrement,
random access and raw_index() did not compile.
---
 include/embedded/detail/circular_buffer_adapter.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index 02b51b7..1e72ca1 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -67,10 +67,16 @@ class cba_iterator {
 
   cba_iterator() = default;
 
-  cba_iterator(cba_iterator<T, cba_mutable_iterator_traits<T>> const& other)
+  template <typename Tr,
+            typename std::enable_if<
+                std::is_same<Tr, cba_mutable_iterator_traits<T>>::value &&
+                    !std::is_same<Tr, Traits>::value,
+                bool>::type = true>
+  cba_iterator(cba_iterator<T, Tr> const& other)
       : adapter_{other.adapter_}
       , it_{other.it_} {}
 
+  cba_iterator(cba_iterator const&) = default;
   cba_iterator(cba_iterator&&) = default;
   cba_iterator& operator=(cba_iterator const&) = default;
   cba_iterator& operator=(cba_iterator&&) = default;
@@ -183,7 +189,7 @@ class cba_iterator {
   }
 
  private:
-  cba_iterator(circular_buffer_adapter<T> const* adapter, pointer it)
+  cba_iterator(circular_buffer_adapter<T> const* adapter, T* it)
       : adapter_{adapter}
       , it_{it} {}
 
@@ -191,10 +197,10 @@ class cba_iterator {
     return it_ ? adapter_->index(it_) : adapter_->size();
   }
 
-  pointer realiter() const { return it_ ? it_ : adapter_->last_; }
+  T* realiter() const { return it_ ? it_ : adapter_->last_; }
 
   circular_buffer_adapter<T> const* adapter_{nullptr};
-  pointer it_{nullptr};
+  T* it_{nullptr};
 };
 
 template <typename T, typename Traits>
-- 
2.43.0


From bd6aa18e9cb7a677e1918f8a2815b1ec437dc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:45 +0000
Subject: [PATCH 02/25] fix: don't pass null pointers to memcpy when copying an
 empty range

copy_in()/copy_out() with a range starting at end() (e.g. begin() and end()
of an empty buffer) called memcpy() with a null pointer.
---
 include/embedded/circular_buffer_adapter.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index bd4f0fc..665649a 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -334,14 +334,18 @@ class circular_buffer_adapter {
   void copy_in(pointer dest, value_type const* src, size_type count) {
     copy_in_impl(dest, src, count,
                  [](pointer dest, value_type const* src, size_type count) {
-                   std::memcpy(dest, src, sizeof(*dest) * count);
+                   if (count > 0) {
+                     std::memcpy(dest, src, sizeof(*dest) * count);
+                   }
                  });
   }
 
   void copy_out(value_type* dest, const_pointer src, size_type count) const {
     copy_out_impl(dest, src, count,
                   [](value_type* dest, const_pointer src, size_type count) {
-                    std::memcpy(dest, src, sizeof(*dest) * count);
+                    if (count > 0) {
+                      std::memcpy(dest, src, sizeof(*dest) * count);
+                    }
                   });
   }
 
-- 
2.43.0


From 6393e18b79ac2ba39b4e82de74dd30fc7d45e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:45 +0000
Subject: [PATCH 03/25] fix: wrap a first element position of end in
 circular_buffer_adapter

The constructors accept first == end, but kept it as the position of the
first element, so front() and begin() referred to memory past the buffer.
---
 include/embedded/circular_buffer_adapter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index 665649a..f2ee7c2 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -95,8 +95,8 @@ class circular_buffer_adapter {
                           size_type item_count)
       : begin_{begin}
       , end_{end}
-      , first_{first}
-      , last_{add(first, item_count)}
+      , first_{first == end ? begin : first}
+      , last_{add(first_, item_count)}
       , size_{item_count} {
     assert(begin <= first);
     assert(first <= end);
-- 
2.43.0


From ae21aad2314497b953e961d2ccd21a35abdb800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:12 +0000
Subject: [PATCH 04/25] fix: call the target of a function<> with non-default
 capacity or alignment

The call operator treated every function<> as one with the default capacity
and alignment, so with a larger alignment the target was called with the
wrong storage address.
---
 include/embedded/function.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 81b06fb..ae4816a 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -121,30 +121,32 @@ struct is_function : std::false_type {};
 template <typename S, size_t C, size_t A>
 struct is_function<function<S, C, A>> : std::true_type {};
 
-template <typename Signature>
+template <typename Signature, size_t Capacity, size_t Alignment>
 struct function_traits;
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...)> {
+template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
+struct function_traits<Return(Args...), Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
-    auto fn = static_cast<function<Return(Args...)>*>(this);
+    auto fn =
+        static_cast<function<Return(Args...), Capacity, Alignment>*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
 };
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...) const> {
+template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
+struct function_traits<Return(Args...) const, Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
-    auto fn = static_cast<function<Return(Args...) const> const*>(this);
+    auto fn = static_cast<
+        function<Return(Args...) const, Capacity, Alignment> const*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
@@ -175,9 +177,10 @@ struct function_traits<Return(Args...) const> {
  * https://github.com/WG21-SG14/SG14/blob/master/Docs/Proposals/NonAllocatingStandardFunction.pdf
  */
 template <typename Signature, size_t Capacity, size_t Alignment>
-class function final : private detail::function_traits<Signature> {
+class function final
+    : private detail::function_traits<Signature, Capacity, Alignment> {
  public:
-  using traits = detail::function_traits<Signature>;
+  using traits = detail::function_traits<Signature, Capacity, Alignment>;
   using signature = typename traits::signature;
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
-- 
2.43.0


From e6c57df764079ad64a8c8b10725bda8e01847642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:12 +0000
Subject: [PATCH 05/25] fix: call the const overload of a target held by a
 const function<>

A function<R(Args...) const> invoked its target as a non-const object, so a
target with both overloads had its non-const call operator invoked.
---
 include/embedded/function.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index ae4816a..d202c1d 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -65,7 +65,7 @@ class vtbl<Return(Args...)> {
   template <typename T>
   explicit constexpr vtbl(wrap<T>) noexcept
       : call{&vt_call<T>}
-      , proc{&vt_proc<T>} {}
+      , proc{&vt_proc<typename std::remove_const<T>::type>} {}
 
  private:
   static Return empty_call(storage_t, Args&&...) {
@@ -128,6 +128,8 @@ template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
 struct function_traits<Return(Args...), Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
+  template <typename T>
+  using target = T;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
@@ -142,6 +144,8 @@ template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
 struct function_traits<Return(Args...) const, Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
+  template <typename T>
+  using target = T const;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
@@ -207,7 +211,7 @@ class function final
                 !detail::is_function<C>::value &&
                 traits::template is_invocable<C>::value>::type>
   function(T&& fun) noexcept
-      : vtbl_{&typed_vtbl<C>::value} {
+      : vtbl_{&typed_vtbl<typename traits::template target<C>>::value} {
     static_assert(
         std::is_nothrow_move_constructible<C>::value,
         "function<> can only be used with nothrow move-constructible types");
-- 
2.43.0


From 4ed7c07372d8ad579cd66ba10d345e6da63270aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:12 +0000
Subject: [PATCH 06/25] fix: allow function<void(Args...)> to hold targets that
 return a value

Such targets are accepted by the constructor, but failed to compile.
---
 include/embedded/function.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index d202c1d..94d7738 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -80,7 +80,8 @@ class vtbl<Return(Args...)> {
 
   template <typename T>
   static Return vt_call(storage_t s, Args&&... args) {
-    return (*static_cast<T*>(s))(static_cast<Args&&>(args)...);
+    return static_cast<Return>(
+        (*static_cast<T*>(s))(static_cast<Args&&>(args)...));
   }
 
   template <typename T>
-- 
2.43.0


From 35416b32035b59f3ca40a00bc63bfa686458deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:48 +0000
Subject: [PATCH 07/25] fix: don't terminate when move construction throws in
 move_wrapper

The constructor was noexcept depending on T's default constructor instead of
the move constructor that it calls.
---
 include/embedded/move_wrapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index d1cf836..b6796f1 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -30,7 +30,8 @@ namespace embedded {
 template <typename T>
 class move_wrapper {
  public:
-  explicit move_wrapper(T&& t) noexcept(std::is_nothrow_constructible<T>::value)
+  explicit move_wrapper(T&& t) noexcept(
+      std::is_nothrow_move_constructible<T>::value)
       : val_{std::forward<T>(t)} {}
 
   move_wrapper(move_wrapper const& other) noexcept(
-- 
2.43.0


From 5513bdd33c992f260bf97b1e6d7e8391c9acf0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:48 +0000
Subject: [PATCH 08/25] fix: don't wrap types with an initializer_list
 constructor into themselves

function<> and move_wrapper<> moved their contents with brace initialization,
which prefers an initializer_list constructor: a move_wrapper for a
std::vector<std::any> ended up with a vector holding the original vector.
---
 include/embedded/function.h     | 4 ++--
 include/embedded/move_wrapper.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 94d7738..8b7e7d6 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -88,7 +88,7 @@ class vtbl<Return(Args...)> {
   static void vt_proc(oper op, storage_t src, storage_t dst) noexcept {
     switch (op) {
     case oper::move:
-      ::new (dst) T{std::move(*static_cast<T*>(src))};
+      ::new (dst) T(std::move(*static_cast<T*>(src)));
       // fallthrough
     case oper::destroy:
       static_cast<T*>(src)->~T();
@@ -221,7 +221,7 @@ class function final
     static_assert(Alignment % alignof(C) == 0,
                   "function<> alignment too small for this type");
 
-    ::new (std::addressof(storage_)) C{std::forward<T>(fun)};
+    ::new (std::addressof(storage_)) C(std::forward<T>(fun));
   }
 
   function(function&& other) noexcept
diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index b6796f1..222a721 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -32,14 +32,14 @@ class move_wrapper {
  public:
   explicit move_wrapper(T&& t) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::forward<T>(t)} {}
+      : val_(std::forward<T>(t)) {}
 
   move_wrapper(move_wrapper const& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(const_cast<move_wrapper&>(other).val_)} {}
+      : val_(std::move(const_cast<move_wrapper&>(other).val_)) {}
   move_wrapper(move_wrapper&& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(other.val_)} {}
+      : val_(std::move(other.val_)) {}
 
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
-- 
2.43.0


From 3a79eeecc48c865cda74731e5b0181ee1167f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:48 +0000
Subject: [PATCH 09/25] fix: truncate long names in the filter coefficient
 debug record

sizeof(name) referred to the constructor's parameter rather than to the
member, so a name longer than the member failed to compile.
---
 include/embedded/signal/detail/debug_filter_coefs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/signal/detail/debug_filter_coefs.h b/include/embedded/signal/detail/debug_filter_coefs.h
index 21e9488..37066cb 100644
--- a/include/embedded/signal/detail/debug_filter_coefs.h
+++ b/include/embedded/signal/detail/debug_filter_coefs.h
@@ -66,7 +66,8 @@ struct filter_debug_header {
                                 char const (&name)[S]) noexcept
       : filter_debug_header(
             length, structure, valtype, name,
-            make_index_sequence<cmath::min(sizeof(name) - 1, S)>{}) {}
+            make_index_sequence<cmath::min(
+                sizeof(filter_debug_header::name) - 1, S)>{}) {}
 
   template <size_t S, std::size_t... Ints>
   constexpr filter_debug_header(uint16_t length_,
-- 
2.43.0


From 855ac162430147955f42bc0b885f2f57a7434772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 10/25] fix: pair a real pole with a real pole when building
 second order sections

The predicate that selects the second of two real poles preferred complex
poles (and compared a.is_real() with itself), so a real pole closer to the
unit circle than a complex pair got combined with one pole of that pair,
silently discarding its imaginary part.
---
 include/embedded/signal/detail/filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/detail/filter.h b/include/embedded/signal/detail/filter.h
index f28690b..9413eee 100644
--- a/include/embedded/signal/detail/filter.h
+++ b/include/embedded/signal/detail/filter.h
@@ -235,8 +235,8 @@ struct unit_circle_distance_real_less {
   template <typename F>
   constexpr bool operator()(cmath::complex<F> const& a,
                             cmath::complex<F> const& b) const noexcept {
-    return a.is_real() < b.is_real() ||
-           (a.is_real() == a.is_real() && unit_distance(a) < unit_distance(b));
+    return a.is_real() > b.is_real() ||
+           (a.is_real() == b.is_real() && unit_distance(a) < unit_distance(b));
   }
 };
 
-- 
2.43.0


From 6724a0bf1bb337fce4894474eb7454770dc3c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:31 +0000
Subject: [PATCH 11/25] fix: allow chebyshev filters to be designed in single
 precision

The ripple factor computed in the precision of the ripple argument (double by
default) was narrowed to the design precision in a braced initializer, which
is ill-formed for a float design.
---
 include/embedded/signal/chebyshev.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/embedded/signal/chebyshev.h b/include/embedded/signal/chebyshev.h
index 4353b51..0811408 100644
--- a/include/embedded/signal/chebyshev.h
+++ b/include/embedded/signal/chebyshev.h
@@ -51,7 +51,8 @@ class chebyshev1 {
     using value_type = F;
 
     constexpr specification(PF ripple) noexcept
-        : rf_{cmath::sqrt(cmath::pow(PF{10}, PF{0.1} * ripple) - PF{1})} {}
+        : rf_{static_cast<value_type>(
+              cmath::sqrt(cmath::pow(PF{10}, PF{0.1} * ripple) - PF{1}))} {}
 
     template <std::size_t N>
     using carray = cmath::vector<cmath::complex<value_type>, N>;
@@ -130,8 +131,9 @@ class chebyshev2 {
     };
 
     constexpr specification(PF ripple) noexcept
-        : rf_{PF{1} /
-              cmath::sqrt(cmath::pow(PF{10}, PF{0.1} * ripple) - PF{1})} {}
+        : rf_{static_cast<value_type>(
+              PF{1} /
+              cmath::sqrt(cmath::pow(PF{10}, PF{0.1} * ripple) - PF{1}))} {}
 
     template <std::size_t N>
     using carray = cmath::vector<cmath::complex<value_type>, N>;
-- 
2.43.0


From 74fb4e82339ce92433b75b403ca63e866a364019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 12/25] fix: make second order sections streamable

The stream operator referred to a member that does not exist and was not in
the namespace where argument dependent lookup finds it.
---
 include/embedded/ostream_ops.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index da61cfa..dfd8538 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -51,14 +51,14 @@ std::ostream& operator<<(std::ostream& os, zpk_value<Zn, Pn, F> const& zpk) {
   return os;
 }
 
+} // namespace detail
+
 template <typename T>
-std::ostream&
-operator<<(std::ostream& os, embedded::signal::sos_section<T> const& s) {
-  os << "{gain=" << s.gain_ << ", b=" << s.b() << ", a=" << s.a() << "}";
+std::ostream& operator<<(std::ostream& os, sos_section<T> const& s) {
+  os << "{b=" << s.b() << ", a=" << s.a() << "}";
   return os;
 }
 
-} // namespace detail
 } // namespace signal
 
 namespace cmath {
-- 
2.43.0


From 4ae9904bfa00a8ef358d7526bac037a50649f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 13/25] fix: don't stream a negative zero imaginary part as
 "+-0j"

---
 include/embedded/ostream_ops.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index dfd8538..c13f285 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -23,6 +23,7 @@
 #pragma once
 
 #include <array>
+#include <cmath>
 #include <ostream>
 
 #include "constexpr_math/complex.h"
@@ -66,7 +67,7 @@ namespace cmath {
 template <typename T>
 std::ostream& operator<<(std::ostream& os, complex<T> const& z) {
   os << z.real();
-  if (z.imag() >= 0) {
+  if (!std::signbit(z.imag())) {
     os << "+";
   }
   os << z.imag() << "j";
-- 
2.43.0


From 754234c3366c4077bc68b0fadd9d5dc75652eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 14/25] fix: detect libstdc++ when functions.h is the first
 header included

---
 include/embedded/constexpr_math/functions.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/embedded/constexpr_math/functions.h b/include/embedded/constexpr_math/functions.h
index 0164d46..17e60e2 100644
--- a/include/embedded/constexpr_math/functions.h
+++ b/include/embedded/constexpr_math/functions.h
@@ -22,6 +22,8 @@
 
 #pragma once
 
+#include <cstddef> // makes sure _GLIBCXX_CONSTEXPR is defined
+
 // TODO: this is probably a poor check
 #if !defined(LIBEMB_DISABLE_GLIBCXX_CONSTEXPR) &&                              \
     !defined(__INTEL_COMPILER) && !defined(__clang__) && defined(__GNUG__) &&  \
-- 
2.43.0


From 40d587bb06aa2a25b8603888c0c62a98689c006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 15/25] fix: allow move-assigning a function from one owned by
 its own target

---
 include/embedded/function.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 8b7e7d6..9c327f5 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -232,8 +232,10 @@ class function final
   }
 
   function& operator=(function&& other) noexcept {
+    // other may be owned by our current target (or be ourself)
+    function tmp(std::move(other));
     this->~function();
-    ::new (this) function(std::move(other));
+    ::new (this) function(std::move(tmp));
     return *this;
   }
 
-- 
2.43.0


From b4e9a1ed534be921216b272c8f734a1d4a452c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 16/25] fix: vector equality treated unordered elements (NaN)
 as equal and did not compile for complex elements

---
 include/embedded/constexpr_math/vector.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index 1c2da14..2e254bb 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -127,15 +127,15 @@ class prod_reducer {
 };
 
 template <typename T, std::size_t Size, std::size_t I = 0>
-struct compare {
-  constexpr int operator()(T const& a, T const& b) const noexcept {
-    return a[I] < b[I] ? -1 : a[I] > b[I] ? 1 : compare<T, Size, I + 1>()(a, b);
+struct equal {
+  constexpr bool operator()(T const& a, T const& b) const noexcept {
+    return a[I] == b[I] && equal<T, Size, I + 1>()(a, b);
   }
 };
 
 template <typename T, std::size_t Size>
-struct compare<T, Size, Size> {
-  constexpr int operator()(T const&, T const&) const noexcept { return 0; }
+struct equal<T, Size, Size> {
+  constexpr bool operator()(T const&, T const&) const noexcept { return true; }
 };
 
 template <typename T, std::size_t Size, typename Pred, std::size_t I = 0>
@@ -296,7 +296,7 @@ class vector {
   }
 
   constexpr bool operator==(vector const& other) const noexcept {
-    return detail::compare<vector, Size>()(*this, other) == 0;
+    return detail::equal<vector, Size>()(*this, other);
   }
 
   template <typename Pred>
-- 
2.43.0


From 9a4caeeb6b84053e806a94b6236a41c191919a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:40 +0000
Subject: [PATCH 17/25] fix: complex division overflowed for operands whose
 quotient is representable, making high order designs infinite

---
 include/embedded/constexpr_math/complex.h | 43 +++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/include/embedded/constexpr_math/complex.h b/include/embedded/constexpr_math/complex.h
index bc5681d..79610b2 100644
--- a/include/embedded/constexpr_math/complex.h
+++ b/include/embedded/constexpr_math/complex.h
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <limits>
 #include <type_traits>
 
 #include "functions.h"
@@ -149,14 +150,52 @@ operator*(complex<T> const& z1, complex<T> const& z2) noexcept -> complex<T> {
                     z1.real() * z2.imag() + z2.real() * z1.imag());
 }
 
+namespace detail {
+
 template <typename T>
-constexpr auto
-operator/(complex<T> const& z1, complex<T> const& z2) noexcept -> complex<T> {
+constexpr T max_component(complex<T> const& z) noexcept {
+  return cmath::abs(z.real()) > cmath::abs(z.imag()) ? cmath::abs(z.real())
+                                                     : cmath::abs(z.imag());
+}
+
+// The products in a complex division can overflow or underflow even if the
+// quotient does not, unless the operands are scaled.
+
+template <typename T>
+constexpr bool needs_scaling(T const& dividend, T const& divisor) noexcept {
+  return dividend > cmath::sqrt(std::numeric_limits<T>::max()) / 2 ||
+         divisor > cmath::sqrt(std::numeric_limits<T>::max()) / 2 ||
+         (divisor > T{0} &&
+          divisor < cmath::sqrt(std::numeric_limits<T>::min()) * 2);
+}
+
+template <typename T>
+constexpr auto divide_complex(complex<T> const& z1,
+                              complex<T> const& z2) noexcept -> complex<T> {
   return (T{1} / z2.norm()) *
          complex<T>(z1.real() * z2.real() + z1.imag() * z2.imag(),
                     z1.imag() * z2.real() - z1.real() * z2.imag());
 }
 
+template <typename T>
+constexpr auto
+divide_complex(complex<T> const& z1, complex<T> const& z2,
+               T const& scale) noexcept -> complex<T> {
+  return divide_complex(complex<T>(z1.real() / scale, z1.imag() / scale),
+                        complex<T>(z2.real() / scale, z2.imag() / scale));
+}
+
+} // namespace detail
+
+template <typename T>
+constexpr auto
+operator/(complex<T> const& z1, complex<T> const& z2) noexcept -> complex<T> {
+  return detail::needs_scaling(detail::max_component(z1),
+                               detail::max_component(z2))
+             ? detail::divide_complex(z1, z2, detail::max_component(z2))
+             : detail::divide_complex(z1, z2);
+}
+
 template <typename T>
 constexpr auto
 operator/(T const& x, complex<T> const& z) noexcept -> complex<T> {
-- 
2.43.0


From 84d5c1d7ded42a94a943d675268d0fd53540571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:27 +0000
Subject: [PATCH 18/25] fix: keep the names of debug coefficient records apart
 from each other and from the designs

---
 include/embedded/signal/debug_filter_coefs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/signal/debug_filter_coefs.h b/include/embedded/signal/debug_filter_coefs.h
index 078520b..9d36200 100644
--- a/include/embedded/signal/debug_filter_coefs.h
+++ b/include/embedded/signal/debug_filter_coefs.h
@@ -32,7 +32,7 @@
   extern "C" ::embedded::signal::detail::filter_design_debug<                  \
       std::decay<decltype(design)>::type> const                                \
       __attribute__((section(LIBEMB_DEBUG_FILTER_COEFS_SECTION)))              \
-      LIBEMB_UNIQUE_NAME(design) {                                             \
+      LIBEMB_UNIQUE_NAME(libemb_filter_coefs_##design##_) {                    \
     design, name                                                               \
   }
 
-- 
2.43.0


From bbdbaa5d7ea613e6e82cb7d77195347a978162ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:27 +0000
Subject: [PATCH 19/25] fix: print names of debug coefficient records that were
 truncated inside a multi-byte character

---
 scripts/parse-filter-coefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse-filter-coefs.py b/scripts/parse-filter-coefs.py
index a61fb43..5fe363d 100755
--- a/scripts/parse-filter-coefs.py
+++ b/scripts/parse-filter-coefs.py
@@ -35,7 +35,7 @@ def parse(data):
         valnum = size // valsizes[valtype]
         values = unpack(f"{valnum}{valtypes[valtype]}", data[:size])
         data = data[size:]
-        name = name.rstrip(b"\0").decode("utf-8")
+        name = name.rstrip(b"\0").decode("utf-8", "ignore")
         print(f"{name}:")
 
         if structure == 0:
-- 
2.43.0


From 0aac1b20493090ec6fc363ec887c9f780f3a86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 20/25] fix: don't stream imaginary parts with two signs when
 the stream shows positive signs

---
 include/embedded/ostream_ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index c13f285..5587079 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -67,7 +67,7 @@ namespace cmath {
 template <typename T>
 std::ostream& operator<<(std::ostream& os, complex<T> const& z) {
   os << z.real();
-  if (!std::signbit(z.imag())) {
+  if (!std::signbit(z.imag()) && !(os.flags() & std::ios_base::showpos)) {
     os << "+";
   }
   os << z.imag() << "j";
-- 
2.43.0


From ab502bf3bb9b1170a837937875db04f3d3d46107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 21/25] fix: define the bessel pole tables out of class so
 C++11 and C++14 builds link

---
 include/embedded/signal/detail/bessel_poles.h | 300 ++++++++++++++++++
 scripts/gen-bessel-poles.py                   |   9 +
 2 files changed, 309 insertions(+)

diff --git a/include/embedded/signal/detail/bessel_poles.h b/include/embedded/signal/detail/bessel_poles.h
index b891f7c..853823d 100644
--- a/include/embedded/signal/detail/bessel_poles.h
+++ b/include/embedded/signal/detail/bessel_poles.h
@@ -41,6 +41,9 @@ struct bessel_poles<F, 1> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 1> bessel_poles<F, 1>::value;
+
 template <typename F>
 struct bessel_poles<F, 2> {
   static constexpr cmath::vector<cmath::complex<F>, 2> value{
@@ -49,6 +52,9 @@ struct bessel_poles<F, 2> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 2> bessel_poles<F, 2>::value;
+
 template <typename F>
 struct bessel_poles<F, 3> {
   static constexpr cmath::vector<cmath::complex<F>, 3> value{
@@ -58,6 +64,9 @@ struct bessel_poles<F, 3> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 3> bessel_poles<F, 3>::value;
+
 template <typename F>
 struct bessel_poles<F, 4> {
   static constexpr cmath::vector<cmath::complex<F>, 4> value{
@@ -68,6 +77,9 @@ struct bessel_poles<F, 4> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 4> bessel_poles<F, 4>::value;
+
 template <typename F>
 struct bessel_poles<F, 5> {
   static constexpr cmath::vector<cmath::complex<F>, 5> value{
@@ -79,6 +91,9 @@ struct bessel_poles<F, 5> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 5> bessel_poles<F, 5>::value;
+
 template <typename F>
 struct bessel_poles<F, 6> {
   static constexpr cmath::vector<cmath::complex<F>, 6> value{
@@ -91,6 +106,9 @@ struct bessel_poles<F, 6> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 6> bessel_poles<F, 6>::value;
+
 template <typename F>
 struct bessel_poles<F, 7> {
   static constexpr cmath::vector<cmath::complex<F>, 7> value{
@@ -104,6 +122,9 @@ struct bessel_poles<F, 7> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 7> bessel_poles<F, 7>::value;
+
 template <typename F>
 struct bessel_poles<F, 8> {
   static constexpr cmath::vector<cmath::complex<F>, 8> value{
@@ -118,6 +139,9 @@ struct bessel_poles<F, 8> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 8> bessel_poles<F, 8>::value;
+
 template <typename F>
 struct bessel_poles<F, 9> {
   static constexpr cmath::vector<cmath::complex<F>, 9> value{
@@ -133,6 +157,9 @@ struct bessel_poles<F, 9> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 9> bessel_poles<F, 9>::value;
+
 template <typename F>
 struct bessel_poles<F, 10> {
   static constexpr cmath::vector<cmath::complex<F>, 10> value{
@@ -149,6 +176,9 @@ struct bessel_poles<F, 10> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 10> bessel_poles<F, 10>::value;
+
 template <typename F>
 struct bessel_poles<F, 11> {
   static constexpr cmath::vector<cmath::complex<F>, 11> value{
@@ -166,6 +196,9 @@ struct bessel_poles<F, 11> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 11> bessel_poles<F, 11>::value;
+
 template <typename F>
 struct bessel_poles<F, 12> {
   static constexpr cmath::vector<cmath::complex<F>, 12> value{
@@ -184,6 +217,9 @@ struct bessel_poles<F, 12> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 12> bessel_poles<F, 12>::value;
+
 template <typename F>
 struct bessel_poles<F, 13> {
   static constexpr cmath::vector<cmath::complex<F>, 13> value{
@@ -203,6 +239,9 @@ struct bessel_poles<F, 13> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 13> bessel_poles<F, 13>::value;
+
 template <typename F>
 struct bessel_poles<F, 14> {
   static constexpr cmath::vector<cmath::complex<F>, 14> value{
@@ -223,6 +262,9 @@ struct bessel_poles<F, 14> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 14> bessel_poles<F, 14>::value;
+
 template <typename F>
 struct bessel_poles<F, 15> {
   static constexpr cmath::vector<cmath::complex<F>, 15> value{
@@ -244,6 +286,9 @@ struct bessel_poles<F, 15> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 15> bessel_poles<F, 15>::value;
+
 template <typename F>
 struct bessel_poles<F, 16> {
   static constexpr cmath::vector<cmath::complex<F>, 16> value{
@@ -266,6 +311,9 @@ struct bessel_poles<F, 16> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 16> bessel_poles<F, 16>::value;
+
 template <typename F>
 struct bessel_poles<F, 17> {
   static constexpr cmath::vector<cmath::complex<F>, 17> value{
@@ -289,6 +337,9 @@ struct bessel_poles<F, 17> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 17> bessel_poles<F, 17>::value;
+
 template <typename F>
 struct bessel_poles<F, 18> {
   static constexpr cmath::vector<cmath::complex<F>, 18> value{
@@ -313,6 +364,9 @@ struct bessel_poles<F, 18> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 18> bessel_poles<F, 18>::value;
+
 template <typename F>
 struct bessel_poles<F, 19> {
   static constexpr cmath::vector<cmath::complex<F>, 19> value{
@@ -338,6 +392,9 @@ struct bessel_poles<F, 19> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 19> bessel_poles<F, 19>::value;
+
 template <typename F>
 struct bessel_poles<F, 20> {
   static constexpr cmath::vector<cmath::complex<F>, 20> value{
@@ -364,6 +421,9 @@ struct bessel_poles<F, 20> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 20> bessel_poles<F, 20>::value;
+
 template <typename F>
 struct bessel_poles<F, 21> {
   static constexpr cmath::vector<cmath::complex<F>, 21> value{
@@ -391,6 +451,9 @@ struct bessel_poles<F, 21> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 21> bessel_poles<F, 21>::value;
+
 template <typename F>
 struct bessel_poles<F, 22> {
   static constexpr cmath::vector<cmath::complex<F>, 22> value{
@@ -419,6 +482,9 @@ struct bessel_poles<F, 22> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 22> bessel_poles<F, 22>::value;
+
 template <typename F>
 struct bessel_poles<F, 23> {
   static constexpr cmath::vector<cmath::complex<F>, 23> value{
@@ -448,6 +514,9 @@ struct bessel_poles<F, 23> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 23> bessel_poles<F, 23>::value;
+
 template <typename F>
 struct bessel_poles<F, 24> {
   static constexpr cmath::vector<cmath::complex<F>, 24> value{
@@ -478,6 +547,9 @@ struct bessel_poles<F, 24> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 24> bessel_poles<F, 24>::value;
+
 template <typename F>
 struct bessel_poles<F, 25> {
   static constexpr cmath::vector<cmath::complex<F>, 25> value{
@@ -509,6 +581,9 @@ struct bessel_poles<F, 25> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 25> bessel_poles<F, 25>::value;
+
 template <typename F>
 struct bessel_poles<F, 26> {
   static constexpr cmath::vector<cmath::complex<F>, 26> value{
@@ -541,6 +616,9 @@ struct bessel_poles<F, 26> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 26> bessel_poles<F, 26>::value;
+
 template <typename F>
 struct bessel_poles<F, 27> {
   static constexpr cmath::vector<cmath::complex<F>, 27> value{
@@ -574,6 +652,9 @@ struct bessel_poles<F, 27> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 27> bessel_poles<F, 27>::value;
+
 template <typename F>
 struct bessel_poles<F, 28> {
   static constexpr cmath::vector<cmath::complex<F>, 28> value{
@@ -608,6 +689,9 @@ struct bessel_poles<F, 28> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 28> bessel_poles<F, 28>::value;
+
 template <typename F>
 struct bessel_poles<F, 29> {
   static constexpr cmath::vector<cmath::complex<F>, 29> value{
@@ -643,6 +727,9 @@ struct bessel_poles<F, 29> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 29> bessel_poles<F, 29>::value;
+
 template <typename F>
 struct bessel_poles<F, 30> {
   static constexpr cmath::vector<cmath::complex<F>, 30> value{
@@ -679,6 +766,9 @@ struct bessel_poles<F, 30> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 30> bessel_poles<F, 30>::value;
+
 template <typename F>
 struct bessel_poles<F, 31> {
   static constexpr cmath::vector<cmath::complex<F>, 31> value{
@@ -716,6 +806,9 @@ struct bessel_poles<F, 31> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 31> bessel_poles<F, 31>::value;
+
 template <typename F>
 struct bessel_poles<F, 32> {
   static constexpr cmath::vector<cmath::complex<F>, 32> value{
@@ -754,6 +847,9 @@ struct bessel_poles<F, 32> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 32> bessel_poles<F, 32>::value;
+
 template <typename F>
 struct bessel_poles<F, 33> {
   static constexpr cmath::vector<cmath::complex<F>, 33> value{
@@ -793,6 +889,9 @@ struct bessel_poles<F, 33> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 33> bessel_poles<F, 33>::value;
+
 template <typename F>
 struct bessel_poles<F, 34> {
   static constexpr cmath::vector<cmath::complex<F>, 34> value{
@@ -833,6 +932,9 @@ struct bessel_poles<F, 34> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 34> bessel_poles<F, 34>::value;
+
 template <typename F>
 struct bessel_poles<F, 35> {
   static constexpr cmath::vector<cmath::complex<F>, 35> value{
@@ -874,6 +976,9 @@ struct bessel_poles<F, 35> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 35> bessel_poles<F, 35>::value;
+
 template <typename F>
 struct bessel_poles<F, 36> {
   static constexpr cmath::vector<cmath::complex<F>, 36> value{
@@ -916,6 +1021,9 @@ struct bessel_poles<F, 36> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 36> bessel_poles<F, 36>::value;
+
 template <typename F>
 struct bessel_poles<F, 37> {
   static constexpr cmath::vector<cmath::complex<F>, 37> value{
@@ -959,6 +1067,9 @@ struct bessel_poles<F, 37> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 37> bessel_poles<F, 37>::value;
+
 template <typename F>
 struct bessel_poles<F, 38> {
   static constexpr cmath::vector<cmath::complex<F>, 38> value{
@@ -1003,6 +1114,9 @@ struct bessel_poles<F, 38> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 38> bessel_poles<F, 38>::value;
+
 template <typename F>
 struct bessel_poles<F, 39> {
   static constexpr cmath::vector<cmath::complex<F>, 39> value{
@@ -1048,6 +1162,9 @@ struct bessel_poles<F, 39> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 39> bessel_poles<F, 39>::value;
+
 template <typename F>
 struct bessel_poles<F, 40> {
   static constexpr cmath::vector<cmath::complex<F>, 40> value{
@@ -1094,6 +1211,9 @@ struct bessel_poles<F, 40> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 40> bessel_poles<F, 40>::value;
+
 template <typename F>
 struct bessel_poles<F, 41> {
   static constexpr cmath::vector<cmath::complex<F>, 41> value{
@@ -1141,6 +1261,9 @@ struct bessel_poles<F, 41> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 41> bessel_poles<F, 41>::value;
+
 template <typename F>
 struct bessel_poles<F, 42> {
   static constexpr cmath::vector<cmath::complex<F>, 42> value{
@@ -1189,6 +1312,9 @@ struct bessel_poles<F, 42> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 42> bessel_poles<F, 42>::value;
+
 template <typename F>
 struct bessel_poles<F, 43> {
   static constexpr cmath::vector<cmath::complex<F>, 43> value{
@@ -1238,6 +1364,9 @@ struct bessel_poles<F, 43> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 43> bessel_poles<F, 43>::value;
+
 template <typename F>
 struct bessel_poles<F, 44> {
   static constexpr cmath::vector<cmath::complex<F>, 44> value{
@@ -1288,6 +1417,9 @@ struct bessel_poles<F, 44> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 44> bessel_poles<F, 44>::value;
+
 template <typename F>
 struct bessel_poles<F, 45> {
   static constexpr cmath::vector<cmath::complex<F>, 45> value{
@@ -1339,6 +1471,9 @@ struct bessel_poles<F, 45> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 45> bessel_poles<F, 45>::value;
+
 template <typename F>
 struct bessel_poles<F, 46> {
   static constexpr cmath::vector<cmath::complex<F>, 46> value{
@@ -1391,6 +1526,9 @@ struct bessel_poles<F, 46> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 46> bessel_poles<F, 46>::value;
+
 template <typename F>
 struct bessel_poles<F, 47> {
   static constexpr cmath::vector<cmath::complex<F>, 47> value{
@@ -1444,6 +1582,9 @@ struct bessel_poles<F, 47> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 47> bessel_poles<F, 47>::value;
+
 template <typename F>
 struct bessel_poles<F, 48> {
   static constexpr cmath::vector<cmath::complex<F>, 48> value{
@@ -1498,6 +1639,9 @@ struct bessel_poles<F, 48> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 48> bessel_poles<F, 48>::value;
+
 template <typename F>
 struct bessel_poles<F, 49> {
   static constexpr cmath::vector<cmath::complex<F>, 49> value{
@@ -1553,6 +1697,9 @@ struct bessel_poles<F, 49> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 49> bessel_poles<F, 49>::value;
+
 template <typename F>
 struct bessel_poles<F, 50> {
   static constexpr cmath::vector<cmath::complex<F>, 50> value{
@@ -1609,6 +1756,9 @@ struct bessel_poles<F, 50> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 50> bessel_poles<F, 50>::value;
+
 template <typename F>
 struct bessel_poles<F, 51> {
   static constexpr cmath::vector<cmath::complex<F>, 51> value{
@@ -1666,6 +1816,9 @@ struct bessel_poles<F, 51> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 51> bessel_poles<F, 51>::value;
+
 template <typename F>
 struct bessel_poles<F, 52> {
   static constexpr cmath::vector<cmath::complex<F>, 52> value{
@@ -1724,6 +1877,9 @@ struct bessel_poles<F, 52> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 52> bessel_poles<F, 52>::value;
+
 template <typename F>
 struct bessel_poles<F, 53> {
   static constexpr cmath::vector<cmath::complex<F>, 53> value{
@@ -1783,6 +1939,9 @@ struct bessel_poles<F, 53> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 53> bessel_poles<F, 53>::value;
+
 template <typename F>
 struct bessel_poles<F, 54> {
   static constexpr cmath::vector<cmath::complex<F>, 54> value{
@@ -1843,6 +2002,9 @@ struct bessel_poles<F, 54> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 54> bessel_poles<F, 54>::value;
+
 template <typename F>
 struct bessel_poles<F, 55> {
   static constexpr cmath::vector<cmath::complex<F>, 55> value{
@@ -1904,6 +2066,9 @@ struct bessel_poles<F, 55> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 55> bessel_poles<F, 55>::value;
+
 template <typename F>
 struct bessel_poles<F, 56> {
   static constexpr cmath::vector<cmath::complex<F>, 56> value{
@@ -1966,6 +2131,9 @@ struct bessel_poles<F, 56> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 56> bessel_poles<F, 56>::value;
+
 template <typename F>
 struct bessel_poles<F, 57> {
   static constexpr cmath::vector<cmath::complex<F>, 57> value{
@@ -2029,6 +2197,9 @@ struct bessel_poles<F, 57> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 57> bessel_poles<F, 57>::value;
+
 template <typename F>
 struct bessel_poles<F, 58> {
   static constexpr cmath::vector<cmath::complex<F>, 58> value{
@@ -2093,6 +2264,9 @@ struct bessel_poles<F, 58> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 58> bessel_poles<F, 58>::value;
+
 template <typename F>
 struct bessel_poles<F, 59> {
   static constexpr cmath::vector<cmath::complex<F>, 59> value{
@@ -2158,6 +2332,9 @@ struct bessel_poles<F, 59> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 59> bessel_poles<F, 59>::value;
+
 template <typename F>
 struct bessel_poles<F, 60> {
   static constexpr cmath::vector<cmath::complex<F>, 60> value{
@@ -2224,6 +2401,9 @@ struct bessel_poles<F, 60> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 60> bessel_poles<F, 60>::value;
+
 template <typename F>
 struct bessel_poles<F, 61> {
   static constexpr cmath::vector<cmath::complex<F>, 61> value{
@@ -2291,6 +2471,9 @@ struct bessel_poles<F, 61> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 61> bessel_poles<F, 61>::value;
+
 template <typename F>
 struct bessel_poles<F, 62> {
   static constexpr cmath::vector<cmath::complex<F>, 62> value{
@@ -2359,6 +2542,9 @@ struct bessel_poles<F, 62> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 62> bessel_poles<F, 62>::value;
+
 template <typename F>
 struct bessel_poles<F, 63> {
   static constexpr cmath::vector<cmath::complex<F>, 63> value{
@@ -2428,6 +2614,9 @@ struct bessel_poles<F, 63> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 63> bessel_poles<F, 63>::value;
+
 template <typename F>
 struct bessel_poles<F, 64> {
   static constexpr cmath::vector<cmath::complex<F>, 64> value{
@@ -2498,6 +2687,9 @@ struct bessel_poles<F, 64> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 64> bessel_poles<F, 64>::value;
+
 template <typename F>
 struct bessel_poles<F, 65> {
   static constexpr cmath::vector<cmath::complex<F>, 65> value{
@@ -2569,6 +2761,9 @@ struct bessel_poles<F, 65> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 65> bessel_poles<F, 65>::value;
+
 template <typename F>
 struct bessel_poles<F, 66> {
   static constexpr cmath::vector<cmath::complex<F>, 66> value{
@@ -2641,6 +2836,9 @@ struct bessel_poles<F, 66> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 66> bessel_poles<F, 66>::value;
+
 template <typename F>
 struct bessel_poles<F, 67> {
   static constexpr cmath::vector<cmath::complex<F>, 67> value{
@@ -2714,6 +2912,9 @@ struct bessel_poles<F, 67> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 67> bessel_poles<F, 67>::value;
+
 template <typename F>
 struct bessel_poles<F, 68> {
   static constexpr cmath::vector<cmath::complex<F>, 68> value{
@@ -2788,6 +2989,9 @@ struct bessel_poles<F, 68> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 68> bessel_poles<F, 68>::value;
+
 template <typename F>
 struct bessel_poles<F, 69> {
   static constexpr cmath::vector<cmath::complex<F>, 69> value{
@@ -2863,6 +3067,9 @@ struct bessel_poles<F, 69> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 69> bessel_poles<F, 69>::value;
+
 template <typename F>
 struct bessel_poles<F, 70> {
   static constexpr cmath::vector<cmath::complex<F>, 70> value{
@@ -2939,6 +3146,9 @@ struct bessel_poles<F, 70> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 70> bessel_poles<F, 70>::value;
+
 template <typename F>
 struct bessel_poles<F, 71> {
   static constexpr cmath::vector<cmath::complex<F>, 71> value{
@@ -3016,6 +3226,9 @@ struct bessel_poles<F, 71> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 71> bessel_poles<F, 71>::value;
+
 template <typename F>
 struct bessel_poles<F, 72> {
   static constexpr cmath::vector<cmath::complex<F>, 72> value{
@@ -3094,6 +3307,9 @@ struct bessel_poles<F, 72> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 72> bessel_poles<F, 72>::value;
+
 template <typename F>
 struct bessel_poles<F, 73> {
   static constexpr cmath::vector<cmath::complex<F>, 73> value{
@@ -3173,6 +3389,9 @@ struct bessel_poles<F, 73> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 73> bessel_poles<F, 73>::value;
+
 template <typename F>
 struct bessel_poles<F, 74> {
   static constexpr cmath::vector<cmath::complex<F>, 74> value{
@@ -3253,6 +3472,9 @@ struct bessel_poles<F, 74> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 74> bessel_poles<F, 74>::value;
+
 template <typename F>
 struct bessel_poles<F, 75> {
   static constexpr cmath::vector<cmath::complex<F>, 75> value{
@@ -3334,6 +3556,9 @@ struct bessel_poles<F, 75> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 75> bessel_poles<F, 75>::value;
+
 template <typename F>
 struct bessel_poles<F, 76> {
   static constexpr cmath::vector<cmath::complex<F>, 76> value{
@@ -3416,6 +3641,9 @@ struct bessel_poles<F, 76> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 76> bessel_poles<F, 76>::value;
+
 template <typename F>
 struct bessel_poles<F, 77> {
   static constexpr cmath::vector<cmath::complex<F>, 77> value{
@@ -3499,6 +3727,9 @@ struct bessel_poles<F, 77> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 77> bessel_poles<F, 77>::value;
+
 template <typename F>
 struct bessel_poles<F, 78> {
   static constexpr cmath::vector<cmath::complex<F>, 78> value{
@@ -3583,6 +3814,9 @@ struct bessel_poles<F, 78> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 78> bessel_poles<F, 78>::value;
+
 template <typename F>
 struct bessel_poles<F, 79> {
   static constexpr cmath::vector<cmath::complex<F>, 79> value{
@@ -3668,6 +3902,9 @@ struct bessel_poles<F, 79> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 79> bessel_poles<F, 79>::value;
+
 template <typename F>
 struct bessel_poles<F, 80> {
   static constexpr cmath::vector<cmath::complex<F>, 80> value{
@@ -3754,6 +3991,9 @@ struct bessel_poles<F, 80> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 80> bessel_poles<F, 80>::value;
+
 template <typename F>
 struct bessel_poles<F, 81> {
   static constexpr cmath::vector<cmath::complex<F>, 81> value{
@@ -3841,6 +4081,9 @@ struct bessel_poles<F, 81> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 81> bessel_poles<F, 81>::value;
+
 template <typename F>
 struct bessel_poles<F, 82> {
   static constexpr cmath::vector<cmath::complex<F>, 82> value{
@@ -3929,6 +4172,9 @@ struct bessel_poles<F, 82> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 82> bessel_poles<F, 82>::value;
+
 template <typename F>
 struct bessel_poles<F, 83> {
   static constexpr cmath::vector<cmath::complex<F>, 83> value{
@@ -4018,6 +4264,9 @@ struct bessel_poles<F, 83> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 83> bessel_poles<F, 83>::value;
+
 template <typename F>
 struct bessel_poles<F, 84> {
   static constexpr cmath::vector<cmath::complex<F>, 84> value{
@@ -4108,6 +4357,9 @@ struct bessel_poles<F, 84> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 84> bessel_poles<F, 84>::value;
+
 template <typename F>
 struct bessel_poles<F, 85> {
   static constexpr cmath::vector<cmath::complex<F>, 85> value{
@@ -4199,6 +4451,9 @@ struct bessel_poles<F, 85> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 85> bessel_poles<F, 85>::value;
+
 template <typename F>
 struct bessel_poles<F, 86> {
   static constexpr cmath::vector<cmath::complex<F>, 86> value{
@@ -4291,6 +4546,9 @@ struct bessel_poles<F, 86> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 86> bessel_poles<F, 86>::value;
+
 template <typename F>
 struct bessel_poles<F, 87> {
   static constexpr cmath::vector<cmath::complex<F>, 87> value{
@@ -4384,6 +4642,9 @@ struct bessel_poles<F, 87> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 87> bessel_poles<F, 87>::value;
+
 template <typename F>
 struct bessel_poles<F, 88> {
   static constexpr cmath::vector<cmath::complex<F>, 88> value{
@@ -4478,6 +4739,9 @@ struct bessel_poles<F, 88> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 88> bessel_poles<F, 88>::value;
+
 template <typename F>
 struct bessel_poles<F, 89> {
   static constexpr cmath::vector<cmath::complex<F>, 89> value{
@@ -4573,6 +4837,9 @@ struct bessel_poles<F, 89> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 89> bessel_poles<F, 89>::value;
+
 template <typename F>
 struct bessel_poles<F, 90> {
   static constexpr cmath::vector<cmath::complex<F>, 90> value{
@@ -4669,6 +4936,9 @@ struct bessel_poles<F, 90> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 90> bessel_poles<F, 90>::value;
+
 template <typename F>
 struct bessel_poles<F, 91> {
   static constexpr cmath::vector<cmath::complex<F>, 91> value{
@@ -4766,6 +5036,9 @@ struct bessel_poles<F, 91> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 91> bessel_poles<F, 91>::value;
+
 template <typename F>
 struct bessel_poles<F, 92> {
   static constexpr cmath::vector<cmath::complex<F>, 92> value{
@@ -4864,6 +5137,9 @@ struct bessel_poles<F, 92> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 92> bessel_poles<F, 92>::value;
+
 template <typename F>
 struct bessel_poles<F, 93> {
   static constexpr cmath::vector<cmath::complex<F>, 93> value{
@@ -4963,6 +5239,9 @@ struct bessel_poles<F, 93> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 93> bessel_poles<F, 93>::value;
+
 template <typename F>
 struct bessel_poles<F, 94> {
   static constexpr cmath::vector<cmath::complex<F>, 94> value{
@@ -5063,6 +5342,9 @@ struct bessel_poles<F, 94> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 94> bessel_poles<F, 94>::value;
+
 template <typename F>
 struct bessel_poles<F, 95> {
   static constexpr cmath::vector<cmath::complex<F>, 95> value{
@@ -5164,6 +5446,9 @@ struct bessel_poles<F, 95> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 95> bessel_poles<F, 95>::value;
+
 template <typename F>
 struct bessel_poles<F, 96> {
   static constexpr cmath::vector<cmath::complex<F>, 96> value{
@@ -5266,6 +5551,9 @@ struct bessel_poles<F, 96> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 96> bessel_poles<F, 96>::value;
+
 template <typename F>
 struct bessel_poles<F, 97> {
   static constexpr cmath::vector<cmath::complex<F>, 97> value{
@@ -5369,6 +5657,9 @@ struct bessel_poles<F, 97> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 97> bessel_poles<F, 97>::value;
+
 template <typename F>
 struct bessel_poles<F, 98> {
   static constexpr cmath::vector<cmath::complex<F>, 98> value{
@@ -5473,6 +5764,9 @@ struct bessel_poles<F, 98> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 98> bessel_poles<F, 98>::value;
+
 template <typename F>
 struct bessel_poles<F, 99> {
   static constexpr cmath::vector<cmath::complex<F>, 99> value{
@@ -5578,6 +5872,9 @@ struct bessel_poles<F, 99> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 99> bessel_poles<F, 99>::value;
+
 template <typename F>
 struct bessel_poles<F, 100> {
   static constexpr cmath::vector<cmath::complex<F>, 100> value{
@@ -5684,6 +5981,9 @@ struct bessel_poles<F, 100> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 100> bessel_poles<F, 100>::value;
+
 } // namespace detail
 } // namespace signal
 } // namespace embedded
diff --git a/scripts/gen-bessel-poles.py b/scripts/gen-bessel-poles.py
index bff5143..1a602c8 100644
--- a/scripts/gen-bessel-poles.py
+++ b/scripts/gen-bessel-poles.py
@@ -88,6 +88,15 @@ with open(filename, "w") as fh:
             fh.write(f"      cmath::complex<F>{{{p.real}l, {p.imag}l}},\n")
 
         fh.write("  };\n};\n")
+        # an out-of-class definition is needed before C++17
+        fh.write(
+            dedent(
+                f"""
+                template <typename F>
+                constexpr cmath::vector<cmath::complex<F>, {order}> bessel_poles<F, {order}>::value;
+                """
+            )
+        )
 
     fh.write(
         dedent(
-- 
2.43.0


From d1e87241757c9aa5ee6de0b85a23c1847ac3535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 22/25] fix: design chebyshev filters with long double ripple
 to long double precision

---
 include/embedded/signal/chebyshev.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/chebyshev.h b/include/embedded/signal/chebyshev.h
index 0811408..7a2355c 100644
--- a/include/embedded/signal/chebyshev.h
+++ b/include/embedded/signal/chebyshev.h
@@ -52,7 +52,7 @@ class chebyshev1 {
 
     constexpr specification(PF ripple) noexcept
         : rf_{static_cast<value_type>(
-              cmath::sqrt(cmath::pow(PF{10}, PF{0.1} * ripple) - PF{1}))} {}
+              cmath::sqrt(cmath::pow(PF{10}, PF{0.1l} * ripple) - PF{1}))} {}
 
     template <std::size_t N>
     using carray = cmath::vector<cmath::complex<value_type>, N>;
@@ -133,7 +133,7 @@ class chebyshev2 {
     constexpr specification(PF ripple) noexcept
         : rf_{static_cast<value_type>(
               PF{1} /
-              cmath::sqrt(cmath::pow(PF{10}, PF{0.1} * ripple) - PF{1}))} {}
+              cmath::sqrt(cmath::pow(PF{10}, PF{0.1l} * ripple) - PF{1}))} {}
 
     template <std::size_t N>
     using carray = cmath::vector<cmath::complex<value_type>, N>;
-- 
2.43.0


From 486b13e582f92fe4b9cc850a4eac83f24f63a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 23/25] fix: stream the raw value of byte-sized fixed-point
 numbers as a number

---
 include/embedded/ostream_ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index 5587079..ba83cd8 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -34,7 +34,7 @@ namespace fpm {
 
 template <typename T1, typename T2, unsigned B>
 std::ostream& operator<<(std::ostream& os, fixed<T1, T2, B> const& f) {
-  os << static_cast<double>(f) << " (" << f.raw_value() << ")";
+  os << static_cast<double>(f) << " (" << +f.raw_value() << ")";
   return os;
 }
 
-- 
2.43.0


From d4e897bd23e79f109234d5ad1a7b40f16e79f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 24/25] fix: count each element a vector predicate holds for
 once

The predicate's result was added as a number, so a predicate answering with
anything but a bool (a bit mask, say) counted elements more than once.
---
 include/embedded/constexpr_math/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index 2e254bb..10c4ae2 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -159,7 +159,7 @@ template <typename T, std::size_t Size, typename Pred, std::size_t I = 0>
 struct count {
   constexpr std::size_t
   operator()(T const& a, Pred const& pred) const noexcept {
-    return pred(a[I]) + count<T, Size, Pred, I + 1>()(a, pred);
+    return (pred(a[I]) ? 1 : 0) + count<T, Size, Pred, I + 1>()(a, pred);
   }
 };
 
-- 
2.43.0


From 5f52739800e4a319172c5fcfd7b579d8bbaf0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 25/25] fix: reach the value of move_wrapper past an overloaded
 operator&

---
 include/embedded/move_wrapper.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index 222a721..924cc47 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -44,8 +45,8 @@ class move_wrapper {
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
 
-  T const* operator->() const { return &val_; }
-  T* operator->() { return &val_; }
+  T const* operator->() const { return std::addressof(val_); }
+  T* operator->() { return std::addressof(val_); }
 
  private:
   T val_;
-- 
2.43.0

