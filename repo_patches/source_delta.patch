From b3001684e5725cff4e1f7726904dd6276fe81fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:35 +0000
Subject: [PATCH 01/53] fix: bitset range operations with zero length no longer
 write out of bounds

---
 include/stdx/bitset.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index a48b7d9..e1d8fd4 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -316,6 +316,9 @@ class bitset {
         -> bitset & {
         auto const l = to_underlying(lsb);
         auto const length = to_underlying(len);
+        if (length == 0) {
+            return *this;
+        }
         return set(lsb, static_cast<msb_t>(l + length - 1), value);
     }
 
-- 
2.43.0


From 148dcf3739093536d202c088d46b4c863cfd6286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:14 +0000
Subject: [PATCH 02/53] fix: bitset shifts by the capacity or more give an
 empty bitset, and right shifts ignore unused bits

---
 include/stdx/bitset.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index e1d8fd4..9eb7688 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -444,6 +444,9 @@ class bitset {
 
     constexpr auto operator<<=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            if (pos >= N) {
+                return reset();
+            }
             auto dst = storage_size - 1;
             auto const start = dst - (pos / storage_elem_size);
             pos %= storage_elem_size;
@@ -472,6 +475,10 @@ class bitset {
 
     constexpr auto operator>>=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            if (pos >= N) {
+                return reset();
+            }
+            storage.back() &= lastmask;
             auto dst = std::size_t{};
             auto const start = pos / storage_elem_size;
             pos %= storage_elem_size;
-- 
2.43.0


From 82c05215aa2d8112cc8291d788f3f04ef8f1ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:14 +0000
Subject: [PATCH 03/53] fix: bitset transform_reduce and lowest_unset ignore
 bits beyond the capacity

---
 include/stdx/bitset.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 9eb7688..b3c9dba 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -167,6 +167,9 @@ class bitset {
         for (auto e : storage) {
             while (e != 0) {
                 auto const offset = static_cast<std::size_t>(countr_zero(e));
+                if (i + offset >= N) {
+                    break;
+                }
                 e &= static_cast<elem_t>(~(bit << offset));
                 init =
                     r(std::move(init), f(static_cast<iter_arg_t>(i + offset)));
@@ -408,11 +411,11 @@ class bitset {
         for (auto e : storage) {
             if (auto offset = static_cast<std::size_t>(countr_one(e));
                 offset != std::numeric_limits<elem_t>::digits) {
-                return static_cast<iter_arg_t>(i + offset);
+                return static_cast<iter_arg_t>(std::min(i + offset, N));
             }
             i += std::numeric_limits<elem_t>::digits;
         }
-        return static_cast<iter_arg_t>(i);
+        return static_cast<iter_arg_t>(N);
     }
 
     [[nodiscard]] constexpr auto operator~() const -> bitset {
-- 
2.43.0


From f54790c8e94c8a655f446c4aecc6a98a41d51479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:15 +0000
Subject: [PATCH 04/53] fix: for_each over a bitset of capacity zero visits
 nothing

---
 include/stdx/bitset.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index b3c9dba..41bba7e 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -147,14 +147,16 @@ class bitset {
 
     template <detail::bit_spec Spec, typename F>
     constexpr auto for_each(F &&f) const -> F {
-        std::size_t idx = 0;
-        for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
-            Spec::template fn<bit, iter_arg_t,
-                              std::numeric_limits<elem_t>::max()>(storage[i],
-                                                                  idx, f);
-            idx += std::numeric_limits<elem_t>::digits;
+        if constexpr (N != 0) {
+            std::size_t idx = 0;
+            for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
+                Spec::template fn<bit, iter_arg_t,
+                                  std::numeric_limits<elem_t>::max()>(
+                    storage[i], idx, f);
+                idx += std::numeric_limits<elem_t>::digits;
+            }
+            Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         }
-        Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         return std::forward<F>(f);
     }
 
-- 
2.43.0


From 0f0737abbff38c8961fd904b2872855d15d2c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:15 +0000
Subject: [PATCH 05/53] fix: bitset conversion to a type narrower than the
 storage element, or to an enumeration

---
 include/stdx/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 41bba7e..7a4a1a8 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -242,12 +242,12 @@ class bitset {
             "Conversion must be to an unsigned integral type or enum!");
         static_assert(N <= std::numeric_limits<U>::digits,
                       "Bitset too big for conversion to T");
-        if constexpr (std::is_same_v<elem_t, U>) {
+        if constexpr (storage_size == 1) {
             return static_cast<T>(storage[0] & lastmask);
         } else {
             U result{highbits()};
             for (auto i = storage_size - 2u; i < storage_size; --i) {
-                result = static_cast<T>(result << storage_elem_size);
+                result = static_cast<U>(result << storage_elem_size);
                 result |= storage[i];
             }
             return static_cast<T>(result);
-- 
2.43.0


From 4efbdea0d8072332cce00dae268c3471a058b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:15 +0000
Subject: [PATCH 06/53] fix: type_bitset mutators use the position of the type
 in the deduplicated list

---
 include/stdx/bitset.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 7a4a1a8..1ced843 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -622,24 +622,24 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto set(bool value = true) LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.set();
         } else {
-            (bs.set(detail::index_of<Us, type_list<Ts...>>, value), ...);
+            (bs.set(detail::index_of<Us, list_t>, value), ...);
         }
         return *this;
     }
 
     template <typename... Us>
     constexpr auto reset() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.reset();
         } else {
-            (bs.reset(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.reset(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
@@ -651,12 +651,12 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto flip() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.flip();
         } else {
-            (bs.flip(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.flip(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
-- 
2.43.0


From d22e9c267109388792cc7304b5af62f702574655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:15:29 +0000
Subject: [PATCH 07/53] fix: cx_vector reverse iteration compiles

---
 include/stdx/cx_vector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index ef1bf2d..0d8814e 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -58,27 +58,27 @@ template <typename T, std::size_t N> class cx_vector {
     }
 
     [[nodiscard]] constexpr auto rbegin() LIFETIMEBOUND -> reverse_iterator {
-        return end();
+        return reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto rbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return end();
+        return const_reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto crbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cend();
+        return const_reverse_iterator{cend()};
     }
 
     [[nodiscard]] constexpr auto rend() LIFETIMEBOUND -> reverse_iterator {
-        return begin();
+        return reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto rend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return begin();
+        return const_reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto crend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cbegin();
+        return const_reverse_iterator{cbegin()};
     }
 
     [[nodiscard]] constexpr auto front() LIFETIMEBOUND -> reference {
-- 
2.43.0


From 3f2a3bc2bfcad78ee6632ad1e8f29be7174582dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:15:29 +0000
Subject: [PATCH 08/53] fix: cx_set constructed from repeated values holds each
 value once

---
 include/stdx/cx_set.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdx/cx_set.hpp b/include/stdx/cx_set.hpp
index 914d86f..579b108 100644
--- a/include/stdx/cx_set.hpp
+++ b/include/stdx/cx_set.hpp
@@ -25,8 +25,9 @@ template <typename Key, std::size_t N> class cx_set {
     constexpr cx_set() = default;
     template <convertible_to<key_type>... Ts>
         requires(sizeof...(Ts) <= N)
-    constexpr explicit cx_set(Ts const &...ts)
-        : storage{static_cast<key_type>(ts)...}, current_size{sizeof...(Ts)} {}
+    constexpr explicit cx_set(Ts const &...ts) {
+        (insert(static_cast<key_type>(ts)), ...);
+    }
 
     [[nodiscard]] constexpr auto begin() LIFETIMEBOUND -> iterator {
         return std::data(storage);
-- 
2.43.0


From 7979b18c606869f327268dce70382bf964337dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:22:12 +0000
Subject: [PATCH 09/53] fix: intrusive_list insert at the end ends the list at
 the inserted node

---
 include/stdx/intrusive_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdx/intrusive_list.hpp b/include/stdx/intrusive_list.hpp
index 2f8ccd4..8cff599 100644
--- a/include/stdx/intrusive_list.hpp
+++ b/include/stdx/intrusive_list.hpp
@@ -91,6 +91,7 @@ class intrusive_list {
             n->prev = p->prev;
             p->prev = n;
         } else {
+            n->next = nullptr;
             n->prev = tail;
             tail = n;
         }
-- 
2.43.0


From 4771f0fd85c283199a2ca5918f9ea97b178643ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:26:52 +0000
Subject: [PATCH 10/53] fix: optional of a class type can be assigned a value
 of that type

---
 include/stdx/optional.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index a8bb172..6bbdc9e 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -122,9 +122,7 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     template <typename U = T>
         requires(std::is_constructible_v<T, U> and
                  std::is_assignable_v<T &, U> and
-                 not std::is_same_v<std::remove_cvref_t<U>, optional> and
-                 (std::is_scalar_v<T> or
-                  not std::is_same_v<std::decay_t<U>, T>))
+                 not std::is_same_v<std::remove_cvref_t<U>, optional>)
     constexpr auto operator=(U &&u) -> optional & {
         val = std::forward<U>(u);
         return *this;
-- 
2.43.0


From b7aac39bf821577c5416d8ab4c825bc0ef842d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:31:55 +0000
Subject: [PATCH 11/53] fix: optional <= and >= compare held values with <= so
 that NaN is unordered

---
 include/stdx/optional.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index 6bbdc9e..47752bf 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -272,7 +272,12 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     [[nodiscard]] friend constexpr auto operator<=(optional const &lhs,
                                                    optional const &rhs)
         -> bool {
-        return not(rhs < lhs);
+        if constexpr (requires { lhs.val <= rhs.val; }) {
+            return lhs.has_value() and rhs.has_value() ? lhs.val <= rhs.val
+                                                       : not lhs.has_value();
+        } else {
+            return not(rhs < lhs);
+        }
     }
     [[nodiscard]] friend constexpr auto operator>(optional const &lhs,
                                                   optional const &rhs) -> bool {
@@ -281,7 +286,7 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     [[nodiscard]] friend constexpr auto operator>=(optional const &lhs,
                                                    optional const &rhs)
         -> bool {
-        return not(lhs < rhs);
+        return rhs <= lhs;
     }
 
     template <typename F>
-- 
2.43.0


From fc3718aa84e98117293b88e0108e742b9ce738de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:33:48 +0000
Subject: [PATCH 12/53] fix: optional construction initialises the value as
 std::optional does

---
 include/stdx/optional.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index 47752bf..ab2ea64 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -108,11 +108,16 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     constexpr explicit optional(std::in_place_t, Args &&...args)
         : val{std::forward<Args>(args)...} {}
 
+    template <typename... Args>
+        requires std::is_constructible_v<T, Args...>
+    constexpr explicit optional(std::in_place_t, Args &&...args)
+        : val(std::forward<Args>(args)...) {}
+
     template <typename U = T>
         requires(std::is_constructible_v<T, U &&> and
                  not std::is_same_v<std::remove_cvref_t<U>, std::in_place_t> and
                  not std::is_same_v<std::remove_cvref_t<U>, optional>)
-    constexpr explicit optional(U &&u) : val{std::forward<U>(u)} {}
+    constexpr explicit optional(U &&u) : val(std::forward<U>(u)) {}
 
     constexpr auto operator=(std::nullopt_t) -> optional & {
         reset();
-- 
2.43.0


From 55f9e93204d0cf8cd326efad1361e9a1962a4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:38:10 +0000
Subject: [PATCH 13/53] fix: rollover_t multiplication of 16-bit values does
 not overflow int

---
 include/stdx/rollover.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/rollover.hpp b/include/stdx/rollover.hpp
index a791df8..f56ec0b 100644
--- a/include/stdx/rollover.hpp
+++ b/include/stdx/rollover.hpp
@@ -52,7 +52,8 @@ template <typename T> struct rollover_t {
         return *this;
     }
     constexpr auto operator*=(rollover_t other) -> rollover_t & {
-        value *= other.value;
+        // multiply as unsigned: narrow types would be promoted to int
+        value = static_cast<underlying_t>(1u * value * other.value);
         return *this;
     }
     constexpr auto operator/=(rollover_t other) -> rollover_t & {
-- 
2.43.0


From efb5450fb88d2640d803b9bed371eae4fc7ded04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:38:10 +0000
Subject: [PATCH 14/53] fix: saturate_cast between types of different size and
 signedness

---
 include/stdx/numeric.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/stdx/numeric.hpp b/include/stdx/numeric.hpp
index 2706030..d87dd27 100644
--- a/include/stdx/numeric.hpp
+++ b/include/stdx/numeric.hpp
@@ -38,22 +38,24 @@ constexpr auto saturate_cast(From from) -> To {
     constexpr auto to_min = std::numeric_limits<To>::min();
     constexpr auto to_max = std::numeric_limits<To>::max();
 
-    if constexpr (sizeof(From) > sizeof(To)) {
-        auto const clamped = std::clamp<From>(from, to_min, to_max);
-        return static_cast<To>(clamped);
-    }
-
-    if constexpr (sizeof(From) == sizeof(To)) {
-        if constexpr (std::is_unsigned_v<From> and std::is_signed_v<To>) {
-            if (from > to_max) {
-                return to_max;
-            }
+    if constexpr (std::is_signed_v<From> and not std::is_signed_v<To>) {
+        if (from < 0) {
+            return to_min;
         }
-
-        if constexpr (std::is_signed_v<From> and std::is_unsigned_v<To>) {
-            if (from < 0) {
-                return static_cast<To>(0);
-            }
+        if (static_cast<std::make_unsigned_t<From>>(from) > to_max) {
+            return to_max;
+        }
+    } else if constexpr (std::is_signed_v<To> and
+                         not std::is_signed_v<From>) {
+        if (from > static_cast<std::make_unsigned_t<To>>(to_max)) {
+            return to_max;
+        }
+    } else {
+        if (from < to_min) {
+            return to_min;
+        }
+        if (from > to_max) {
+            return to_max;
         }
     }
 
-- 
2.43.0


From a770bd543609b281d76e85d308ce96f2d1dc8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:38:10 +0000
Subject: [PATCH 15/53] fix: fallback rotl and rotr accept rotations of the
 width of the type or more

---
 include/stdx/bit.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/stdx/bit.hpp b/include/stdx/bit.hpp
index 5587bfa..0cb3ea8 100644
--- a/include/stdx/bit.hpp
+++ b/include/stdx/bit.hpp
@@ -170,25 +170,27 @@ template <typename T>
 template <typename T>
 [[nodiscard]] constexpr auto rotl(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
-    if (s == 0) {
+    auto const r = s % std::numeric_limits<T>::digits;
+    if (r == 0) {
         return x;
     }
-    if (s < 0) {
-        return detail::rotr(x, T(-s));
+    if (r < 0) {
+        return detail::rotr(x, T(-r));
     }
-    return detail::rotl(x, T(s));
+    return detail::rotl(x, T(r));
 }
 
 template <typename T>
 [[nodiscard]] constexpr auto rotr(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
-    if (s == 0) {
+    auto const r = s % std::numeric_limits<T>::digits;
+    if (r == 0) {
         return x;
     }
-    if (s < 0) {
-        return detail::rotl(x, T(-s));
+    if (r < 0) {
+        return detail::rotl(x, T(-r));
     }
-    return detail::rotr(x, T(s));
+    return detail::rotr(x, T(r));
 }
 #else
 using std::countl_one;
-- 
2.43.0


From 439d167edf97868e86e8a1bf686bbb99818c820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:38:10 +0000
Subject: [PATCH 16/53] fix: fallback bit_ceil and bit_floor work for 64-bit
 values

---
 include/stdx/bit.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bit.hpp b/include/stdx/bit.hpp
index 0cb3ea8..5da0625 100644
--- a/include/stdx/bit.hpp
+++ b/include/stdx/bit.hpp
@@ -223,7 +223,7 @@ template <typename T>
     if (x <= 1U) {
         return 1U;
     }
-    return T(1U << bit_width(x - 1U));
+    return T(T{1} << bit_width(T(x - 1U)));
 }
 
 template <typename T>
@@ -232,7 +232,7 @@ template <typename T>
     if (x == 0) {
         return x;
     }
-    return T(1U << (bit_width(x) - 1));
+    return T(T{1} << (bit_width(x) - 1));
 }
 #else
 using std::bit_ceil;
-- 
2.43.0


From 0ec8ef2157c34d96c70ab41f9e9daf2b99bbcb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:43:12 +0000
Subject: [PATCH 17/53] fix: byterator advance_to_alignment uses the alignment
 of the type, not its size

---
 include/stdx/byterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/byterator.hpp b/include/stdx/byterator.hpp
index 283d821..b31e814 100644
--- a/include/stdx/byterator.hpp
+++ b/include/stdx/byterator.hpp
@@ -148,7 +148,7 @@ template <typename T> class byterator {
     template <typename V = std::uint8_t>
     auto advance_to_alignment(difference_type n = 0) -> decltype(auto) {
         auto p = bit_cast<std::uintptr_t>(ptr);
-        constexpr auto offset = sizeof(V) - 1u;
+        constexpr auto offset = alignof(V) - 1u;
         constexpr auto mask = ~offset;
         ptr = bit_cast<byte_t *>((p + offset) & mask);
         return advance(n * static_cast<difference_type>(sizeof(V)));
-- 
2.43.0


From 9817cf9c10f7717454d099fb99b3f474135db287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:28 +0000
Subject: [PATCH 18/53] fix: for_each_butlastn over random-access iterators
 from std returns the stdx result

---
 include/stdx/algorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/algorithm.hpp b/include/stdx/algorithm.hpp
index d2ccb99..926783a 100644
--- a/include/stdx/algorithm.hpp
+++ b/include/stdx/algorithm.hpp
@@ -93,7 +93,8 @@ constexpr auto for_each_butlastn(std::random_access_iterator_tag, RandIt first,
                                  RandIt last, N n, Operation op,
                                  RandItN... first_n) {
     auto const sz = std::distance(first, last);
-    return for_each_n(first, sz - static_cast<decltype(sz)>(n), op, first_n...);
+    return stdx::for_each_n(first, sz - static_cast<decltype(sz)>(n), op,
+                            first_n...);
 }
 } // namespace detail
 
-- 
2.43.0


From c171936089a9085eb216760100df25905dbd288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:10 +0000
Subject: [PATCH 19/53] fix: tuples with const or reference-to-const elements
 can be destructured

---
 include/stdx/tuple_destructure.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stdx/tuple_destructure.hpp b/include/stdx/tuple_destructure.hpp
index 907aaef..a6ee973 100644
--- a/include/stdx/tuple_destructure.hpp
+++ b/include/stdx/tuple_destructure.hpp
@@ -14,8 +14,7 @@ struct std::tuple_size<stdx::tuple<Ts...>>
     : std::integral_constant<std::size_t, sizeof...(Ts)> {};
 template <std::size_t I, typename... Ts>
 struct std::tuple_element<I, stdx::tuple<Ts...>>
-    : std::type_identity<std::remove_cvref_t<
-          decltype(std::declval<stdx::tuple<Ts...>>()[stdx::index<I>])>> {};
+    : std::type_identity<stdx::tuple_element_t<I, stdx::tuple<Ts...>>> {};
 
 template <typename IL, typename... Ts>
 struct std::tuple_size<stdx::indexed_tuple<IL, Ts...>>
@@ -23,8 +22,7 @@ struct std::tuple_size<stdx::indexed_tuple<IL, Ts...>>
 template <std::size_t I, typename IL, typename... Ts>
 struct std::tuple_element<I, stdx::indexed_tuple<IL, Ts...>>
     : std::type_identity<
-          std::remove_cvref_t<decltype(std::declval<stdx::indexed_tuple<
-                                           IL, Ts...>>()[stdx::index<I>])>> {};
+          stdx::tuple_element_t<I, stdx::indexed_tuple<IL, Ts...>>> {};
 
 // NOLINTEND(bugprone-std-namespace-modification)
 
-- 
2.43.0


From 115310df29a87132d65913fdbdbb9d26460da916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:38 +0000
Subject: [PATCH 20/53] fix: cartesian products accept elements from namespace
 std and move no element twice

---
 include/stdx/tuple_algorithms.hpp | 47 +++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index be86d1f..7dceda5 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -433,20 +433,41 @@ template <tuplelike Tuple> [[nodiscard]] constexpr auto chunk(Tuple &&t) {
 
 template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
     if constexpr (sizeof...(Ts) == 0) {
-        return make_tuple(tuple{});
+        return stdx::make_tuple(tuple{});
     } else {
         return []<typename First, typename... Rest>(First &&first,
                                                     Rest &&...rest) {
-            auto const c = cartesian_product_copy(std::forward<Rest>(rest)...);
+            auto c =
+                stdx::cartesian_product_copy(std::forward<Rest>(rest)...);
             return std::forward<First>(first).apply([&]<typename... Elems>(
                                                         Elems &&...elems) {
+                // an element can be moved only if it is used once
+                [[maybe_unused]] auto const prepend_to =
+                    [&]<typename E, typename Sub>(E &&e, Sub &&sub) {
+                        if constexpr (tuple_size_v<decltype(c)> == 1) {
+                            return stdx::tuple_cat(
+                                stdx::make_tuple(std::forward<E>(e)),
+                                std::forward<Sub>(sub));
+                        } else {
+                            return stdx::tuple_cat(stdx::make_tuple(e),
+                                                   std::forward<Sub>(sub));
+                        }
+                    };
                 [[maybe_unused]] auto const prepend = [&]<typename E>(E &&e) {
-                    return c.apply([&](auto... subs) {
-                        return make_tuple(
-                            tuple_cat(make_tuple(std::forward<E>(e)), subs)...);
-                    });
+                    if constexpr (sizeof...(Elems) == 1) {
+                        return std::move(c).apply([&](auto &&...subs) {
+                            return stdx::make_tuple(prepend_to(
+                                std::forward<E>(e), std::move(subs))...);
+                        });
+                    } else {
+                        return c.apply([&](auto const &...subs) {
+                            return stdx::make_tuple(
+                                prepend_to(std::forward<E>(e), subs)...);
+                        });
+                    }
                 };
-                return tuple_cat(prepend(std::forward<Elems>(elems))...);
+                return stdx::tuple_cat(
+                    prepend(std::forward<Elems>(elems))...);
             });
         }(std::forward<Ts>(ts)...);
     }
@@ -454,20 +475,22 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
 
 template <tuplelike... Ts> constexpr auto cartesian_product(Ts &&...ts) {
     if constexpr (sizeof...(Ts) == 0) {
-        return make_tuple(tuple{});
+        return stdx::make_tuple(tuple{});
     } else {
         return []<typename First, typename... Rest>(First &&first,
                                                     Rest &&...rest) {
-            auto const c = cartesian_product(std::forward<Rest>(rest)...);
+            auto const c = stdx::cartesian_product(std::forward<Rest>(rest)...);
             return std::forward<First>(first).apply(
                 [&]<typename... Elems>(Elems &&...elems) {
                     auto const prepend = [&]<typename E>(E &&e) {
                         return c.apply([&](auto... subs) {
-                            return make_tuple(tuple_cat(
-                                forward_as_tuple(std::forward<E>(e)), subs)...);
+                            return stdx::make_tuple(stdx::tuple_cat(
+                                stdx::forward_as_tuple(std::forward<E>(e)),
+                                subs)...);
                         });
                     };
-                    return tuple_cat(prepend(std::forward<Elems>(elems))...);
+                    return stdx::tuple_cat(
+                        prepend(std::forward<Elems>(elems))...);
                 });
         }(std::forward<Ts>(ts)...);
     }
-- 
2.43.0


From 9b23ccf67e59bba963487a84bb65b62e90bc62bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:38 +0000
Subject: [PATCH 21/53] fix: tuple_element_t keeps the const of scalar elements

---
 include/stdx/tuple.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index dbb76c2..f98812b 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -57,7 +57,8 @@ template <std::size_t Index, typename T, typename... Ts> struct element {
 #if __has_builtin(__type_pack_element)
     using type = T;
 #else
-    constexpr static auto ugly_Value(index_constant<Index>) -> T;
+    constexpr static auto ugly_Value(index_constant<Index>)
+        -> std::type_identity<T>;
 
     [[nodiscard]] constexpr auto
     ugly_iGet_clvr(index_constant<Index>) const & noexcept LIFETIMEBOUND
@@ -186,9 +187,10 @@ struct tuple_impl<std::index_sequence<Is...>, index_function_list<Fs...>, Ts...>
     template <std::size_t I>
     using element_t = typename base_t<I, __type_pack_element<I, Ts...>>::type;
 #else
-    constexpr static auto ugly_Value(...) -> void;
+    constexpr static auto ugly_Value(...) -> std::type_identity<void>;
     using base_t<Is, Ts>::ugly_Value...;
-    template <std::size_t I> using element_t = decltype(ugly_Value(index<I>));
+    template <std::size_t I>
+    using element_t = typename decltype(ugly_Value(index<I>))::type;
 
     using base_t<Is, Ts>::ugly_iGet_clvr...;
     using base_t<Is, Ts>::ugly_iGet_lvr...;
-- 
2.43.0


From a34d97b5baabc5494a85a414a4407effaa07207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:01:26 +0000
Subject: [PATCH 22/53] fix: for_each over a tuple with an lvalue function
 object did not compile

---
 include/stdx/tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index f98812b..7d50fdb 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -517,10 +517,10 @@ constexpr auto transform(Op &&op, T &&t) {
 
 template <typename Op, tuplelike T>
 constexpr auto for_each(Op &&op, T &&t) -> Op {
-    return std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
+    std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
         (op(std::forward<Ts>(ts)), ...);
-        return op;
     });
+    return op;
 }
 
 template <typename... Ts>
-- 
2.43.0


From e00491d0e19ffafbf9f404d18babf1a72910edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:09 +0000
Subject: [PATCH 23/53] fix: call_by_need ignored functions given as an lvalue
 tuple

---
 include/stdx/call_by_need.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/call_by_need.hpp b/include/stdx/call_by_need.hpp
index e4355cc..fa028d1 100644
--- a/include/stdx/call_by_need.hpp
+++ b/include/stdx/call_by_need.hpp
@@ -162,7 +162,7 @@ constexpr auto call_by_need(Fs &&fs, Args &&args) {
     auto new_fs = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple{get<Is>(std::forward<Fs>(fs))...,
                      cbn_detail::safe_forward{}};
-    }(std::make_index_sequence<tuple_size_v<Fs>>{});
+    }(std::make_index_sequence<tuple_size_v<std::remove_cvref_t<Fs>>>{});
 
     auto ret = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple<
-- 
2.43.0


From 692cdf42b34cddd4bff21cc052898d7532f7804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:44:50 +0000
Subject: [PATCH 24/53] fix: split of a ct_string at a null character that does
 not occur

---
 include/stdx/ct_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/ct_string.hpp b/include/stdx/ct_string.hpp
index 0881b9e..4eabc1b 100644
--- a/include/stdx/ct_string.hpp
+++ b/include/stdx/ct_string.hpp
@@ -101,7 +101,7 @@ using ct_string_to_type_t = decltype(ct_string_to_type<S, T>());
 
 template <ct_string S, char C> [[nodiscard]] consteval auto split() {
     constexpr auto it = [] {
-        for (auto i = S.value.cbegin(); i != S.value.cend(); ++i) {
+        for (auto i = S.value.cbegin(); i != S.end(); ++i) {
             if (*i == C) {
                 return i;
             }
-- 
2.43.0


From bb0995c214af85485e24aed048b3c22751ea1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:51:11 +0000
Subject: [PATCH 25/53] fix: bind_front and bind_back of a function did not
 compile

---
 include/stdx/functional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/functional.hpp b/include/stdx/functional.hpp
index c5355b9..f8d1b9a 100644
--- a/include/stdx/functional.hpp
+++ b/include/stdx/functional.hpp
@@ -56,7 +56,7 @@ struct bind_front_t<F, std::index_sequence<Is...>, BoundArgs...> {
 
 template <typename F, typename... Args>
 constexpr auto bind_front(F &&f, Args &&...args) {
-    return detail::bind_front_t<std::remove_cvref_t<F>,
+    return detail::bind_front_t<std::decay_t<F>,
                                 std::make_index_sequence<sizeof...(Args)>,
                                 std::decay_t<Args>...>{
         std::forward<F>(f), {std::forward<Args>(args)...}};
@@ -112,7 +112,7 @@ struct bind_back_t<F, std::index_sequence<Is...>, BoundArgs...> {
 
 template <typename F, typename... Args>
 constexpr auto bind_back(F &&f, Args &&...args) {
-    return detail::bind_back_t<std::remove_cvref_t<F>,
+    return detail::bind_back_t<std::decay_t<F>,
                                std::make_index_sequence<sizeof...(Args)>,
                                std::decay_t<Args>...>{
         std::forward<F>(f), {std::forward<Args>(args)...}};
-- 
2.43.0


From 4b415e07a3f588fa74e53b49ff539f7c0c1d001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:51:22 +0000
Subject: [PATCH 26/53] fix: arity_t of a function taking lvalue references did
 not compile

---
 include/stdx/function_traits.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index 05adb7d..0384ef3 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -169,12 +169,16 @@ template <typename F, typename N> struct generic_arity {
         has_arg_count<F, N>, N, generic_arity_t, F,
         std::integral_constant<std::size_t, N::value + 1u>>;
 };
+
+template <typename F, typename = void>
+struct arity : generic_arity<F, std::integral_constant<std::size_t, 0u>> {};
+
+template <typename F> struct arity<F, std::void_t<nongeneric_arity_t<F>>> {
+    using type = nongeneric_arity_t<F>;
+};
 } // namespace detail
 
-template <typename F>
-using arity_t = boost::mp11::mp_eval_or<
-    detail::generic_arity_t<F, std::integral_constant<std::size_t, 0u>>,
-    nongeneric_arity_t, F>;
+template <typename F> using arity_t = typename detail::arity<F>::type;
 template <typename F> constexpr auto arity_v = arity_t<F>::value;
 } // namespace v1
 } // namespace stdx
-- 
2.43.0


From cc25da8e650998c4829b193b51980ba432c8ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:53:08 +0000
Subject: [PATCH 27/53] fix: function traits did not handle noexcept callables

---
 include/stdx/function_traits.hpp | 72 ++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index 0384ef3..b5e8560 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -36,82 +36,92 @@ template <typename R, typename... Args> struct function_traits<R(Args...)> {
 };
 
 template <typename R, typename... Args>
-struct function_traits<R (*)(Args...)> : function_traits<R(Args...)> {};
+struct function_traits<R(Args...) noexcept> : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*const)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, bool NX, typename... Args>
+struct function_traits<R (*)(Args...) noexcept(NX)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*volatile)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, bool NX, typename... Args>
+struct function_traits<R (*const)(Args...) noexcept(NX)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*const volatile)(Args...)>
+template <typename R, bool NX, typename... Args>
+struct function_traits<R (*volatile)(Args...) noexcept(NX)>
     : function_traits<R(Args...)> {};
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...)> : function_traits<R(Args...)> {
+template <typename R, bool NX, typename... Args>
+struct function_traits<R (*const volatile)(Args...) noexcept(NX)>
+    : function_traits<R(Args...)> {};
+
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) noexcept(NX)>
+    : function_traits<R(Args...)> {
     using obj_t = C;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) &> : function_traits<R(Args...)> {
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) & noexcept(NX)>
+    : function_traits<R(Args...)> {
     using obj_t = C &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const &>
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) const & noexcept(NX)>
     : function_traits<R(Args...)> {
     using obj_t = C const &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile &>
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) volatile & noexcept(NX)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile &>
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) const volatile & noexcept(NX)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) &&> : function_traits<R(Args...)> {
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) && noexcept(NX)>
+    : function_traits<R(Args...)> {
     using obj_t = C &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const &&>
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) const && noexcept(NX)>
     : function_traits<R(Args...)> {
     using obj_t = C const &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile &&>
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) volatile && noexcept(NX)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile &&>
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) const volatile && noexcept(NX)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const> : function_traits<R(Args...)> {
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) const noexcept(NX)>
+    : function_traits<R(Args...)> {
     using obj_t = C const;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile>
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) volatile noexcept(NX)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile>
+template <typename C, typename R, bool NX, typename... Args>
+struct function_traits<R (C::*)(Args...) const volatile noexcept(NX)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile;
 };
-- 
2.43.0


From acad74d29f3b05c8baf7dfe001b499ef42258577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:03:14 +0000
Subject: [PATCH 28/53] fix: for_each_n_args did not compile with functions
 taking references

---
 include/stdx/for_each_n_args.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/for_each_n_args.hpp b/include/stdx/for_each_n_args.hpp
index 5039028..561fadc 100644
--- a/include/stdx/for_each_n_args.hpp
+++ b/include/stdx/for_each_n_args.hpp
@@ -5,6 +5,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <type_traits>
 #include <utility>
 
 namespace stdx {
@@ -32,7 +33,7 @@ template <std::size_t N = 0, typename F, typename... Args>
 void for_each_n_args(F &&f, Args &&...args) {
     constexpr auto batch_size = [] {
         if constexpr (N == 0) {
-            return arity_t<F>::value;
+            return arity_t<std::remove_reference_t<F>>::value;
         } else {
             return N;
         }
-- 
2.43.0


From 73bd02d7c8590868e331604b951a0614d7471a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:10:41 +0000
Subject: [PATCH 29/53] fix: type_map lookups of const, array and function
 types

The lookups went through a function return type. That dropped const from
scalars, and gave the default for array and function types.
---
 include/stdx/utility.hpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 19636af..49fc746 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -47,30 +47,33 @@ template <typename... Ts> using type_map = shrink_t<detail::type_map<Ts...>>;
 
 namespace detail {
 template <typename K, typename Default>
-constexpr static auto lookup(...) -> Default;
+constexpr static auto lookup(...) -> type_identity<Default>;
 template <typename K, typename Default, typename V>
-constexpr static auto lookup(type_pair<K, V>) -> V;
+constexpr static auto lookup(type_pair<K, V>) -> type_identity<V>;
 
 template <typename V, typename Default>
-constexpr static auto reverse_lookup(...) -> Default;
+constexpr static auto reverse_lookup(...) -> type_identity<Default>;
 template <typename V, typename Default, typename K>
-constexpr static auto reverse_lookup(type_pair<K, V>) -> K;
+constexpr static auto reverse_lookup(type_pair<K, V>) -> type_identity<K>;
 } // namespace detail
 
 template <typename M, typename K, typename Default = void>
-using type_lookup_t = decltype(detail::lookup<K, Default>(expand<M>()));
+using type_lookup_t =
+    typename decltype(detail::lookup<K, Default>(expand<M>()))::type;
 
 template <typename M, typename V, typename Default = void>
 using reverse_type_lookup_t =
-    decltype(detail::reverse_lookup<V, Default>(expand<M>()));
+    typename decltype(detail::reverse_lookup<V, Default>(expand<M>()))::type;
 
 template <typename M, auto K, typename Default = void>
 using value_lookup_t =
-    decltype(detail::lookup<detail::value_t<K>, Default>(expand<M>()));
+    typename decltype(detail::lookup<detail::value_t<K>, Default>(
+        expand<M>()))::type;
 
 template <typename M, auto V, typename Default = void>
 using reverse_value_lookup_t =
-    decltype(detail::reverse_lookup<detail::value_t<V>, Default>(expand<M>()));
+    typename decltype(detail::reverse_lookup<detail::value_t<V>, Default>(
+        expand<M>()))::type;
 
 namespace detail {
 template <typename T>
@@ -79,27 +82,22 @@ using is_not_void = std::bool_constant<not std::is_void_v<T>>;
 
 template <typename M, typename K, auto Default = 0>
 constexpr static auto type_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::lookup<K, void>(expand<M>())),
+    type_or_t<detail::is_not_void, type_lookup_t<M, K>,
               detail::value_t<Default>>::value;
 
 template <typename M, typename V, auto Default = 0>
 constexpr static auto reverse_type_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::reverse_lookup<V, void>(expand<M>())),
+    type_or_t<detail::is_not_void, reverse_type_lookup_t<M, V>,
               detail::value_t<Default>>::value;
 
 template <typename M, auto K, auto Default = 0>
 constexpr static auto value_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::lookup<detail::value_t<K>, void>(expand<M>())),
+    type_or_t<detail::is_not_void, value_lookup_t<M, K>,
               detail::value_t<Default>>::value;
 
 template <typename M, auto V, auto Default = 0>
 constexpr static auto reverse_value_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::reverse_lookup<detail::value_t<V>, void>(
-                  expand<M>())),
+    type_or_t<detail::is_not_void, reverse_value_lookup_t<M, V>,
               detail::value_t<Default>>::value;
 
 template <typename T, typename U>
-- 
2.43.0


From 065e9609f35bf443d9f098868a124415049b410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:13:35 +0000
Subject: [PATCH 30/53] fix: size conversion between sizes that are not
 multiples

Converting to a smaller size that does not divide the larger one counted
one too many, and zero things needed one.
---
 include/stdx/utility.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 49fc746..57ed333 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -139,10 +139,9 @@ template <typename T, typename U>
 [[nodiscard]] constexpr auto size_conversion(std::size_t sz) -> std::size_t {
     if constexpr (sizeof(T) == sizeof(U)) {
         return sz;
-    } else if constexpr (sizeof(T) > sizeof(U)) {
-        return (sz * sizeof(T) / sizeof(U)) + (sizeof(T) % sizeof(U) > 0);
     } else {
-        return ((sz * sizeof(T)) + sizeof(U) - 1) / sizeof(U);
+        auto const bytes = sz * sizeof(T);
+        return (bytes / sizeof(U)) + (bytes % sizeof(U) > 0);
     }
 }
 } // namespace detail
-- 
2.43.0


From 5e3ea319db67b843c41a18812fb7537c68fa354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:14:55 +0000
Subject: [PATCH 31/53] fix: ct_capacity_v of a const array type

The specializations for arrays and for const types were ambiguous.
---
 include/stdx/iterator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdx/iterator.hpp b/include/stdx/iterator.hpp
index 90f7acc..0460128 100644
--- a/include/stdx/iterator.hpp
+++ b/include/stdx/iterator.hpp
@@ -27,6 +27,10 @@ constexpr auto ct_capacity_v<std::array<T, N>> = N;
 // NOLINTNEXTLINE(*-avoid-c-arrays)
 template <typename T, std::size_t N> constexpr auto ct_capacity_v<T[N]> = N;
 
+template <typename T, std::size_t N>
+// NOLINTNEXTLINE(*-avoid-c-arrays)
+constexpr auto ct_capacity_v<T const[N]> = N;
+
 template <typename T> constexpr auto ct_capacity_v<T const> = ct_capacity_v<T>;
 
 template <typename T>
-- 
2.43.0


From a42b63623f30542b44872fa11d5a675b82867fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:24:45 +0000
Subject: [PATCH 32/53] fix: atomic operations on an enum with an overridden
 storage type

exchange and the fetch operations returned the storage type, which does
not convert to an enum.
---
 include/stdx/atomic.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/stdx/atomic.hpp b/include/stdx/atomic.hpp
index c1a6d9f..da79484 100644
--- a/include/stdx/atomic.hpp
+++ b/include/stdx/atomic.hpp
@@ -68,16 +68,19 @@ template <typename T> class atomic {
 
     [[nodiscard]] auto
     exchange(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
-        return ::atomic::exchange(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::exchange(value, static_cast<elem_t>(t), mo));
     }
 
     auto fetch_add(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
         static_assert(requires { t + t; }, "T must support operator+(x, y)");
-        return ::atomic::fetch_add(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::fetch_add(value, static_cast<elem_t>(t), mo));
     }
     auto fetch_sub(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
         static_assert(requires { t - t; }, "T must support operator-(x, y)");
-        return ::atomic::fetch_sub(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::fetch_sub(value, static_cast<elem_t>(t), mo));
     }
 
     auto operator+=(T t) -> T { return fetch_add(t) + t; }
@@ -102,15 +105,18 @@ template <typename T> class atomic {
 
     auto fetch_and(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
         static_assert(requires { t & t; }, "T must support operator&(x, y)");
-        return ::atomic::fetch_and(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::fetch_and(value, static_cast<elem_t>(t), mo));
     }
     auto fetch_or(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
         static_assert(requires { t | t; }, "T must support operator|(x, y)");
-        return ::atomic::fetch_or(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::fetch_or(value, static_cast<elem_t>(t), mo));
     }
     auto fetch_xor(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
         static_assert(requires { t ^ t; }, "T must support operator^(x, y)");
-        return ::atomic::fetch_xor(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::fetch_xor(value, static_cast<elem_t>(t), mo));
     }
 
     auto operator&=(T t) -> T { return fetch_and(t) & t; }
-- 
2.43.0


From 909324d0265bd861516d94bf62940d861db0651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:26:22 +0000
Subject: [PATCH 33/53] fix: signed overflow in the atomic arithmetic operators

The returned value was computed with signed arithmetic, which is undefined
where the atomic itself wraps.
---
 include/stdx/atomic.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/stdx/atomic.hpp b/include/stdx/atomic.hpp
index da79484..436ac9a 100644
--- a/include/stdx/atomic.hpp
+++ b/include/stdx/atomic.hpp
@@ -39,6 +39,23 @@ template <typename T> class atomic {
 
     alignas(alignment) elem_t value;
 
+    constexpr static auto plus(T x, T y) -> T {
+        if constexpr (std::is_integral_v<T> and not std::is_same_v<T, bool>) {
+            using U = std::make_unsigned_t<T>;
+            return static_cast<T>(static_cast<U>(x) + static_cast<U>(y));
+        } else {
+            return x + y;
+        }
+    }
+    constexpr static auto minus(T x, T y) -> T {
+        if constexpr (std::is_integral_v<T> and not std::is_same_v<T, bool>) {
+            using U = std::make_unsigned_t<T>;
+            return static_cast<T>(static_cast<U>(x) - static_cast<U>(y));
+        } else {
+            return x - y;
+        }
+    }
+
   public:
     using value_type = T;
 
@@ -83,12 +100,12 @@ template <typename T> class atomic {
             ::atomic::fetch_sub(value, static_cast<elem_t>(t), mo));
     }
 
-    auto operator+=(T t) -> T { return fetch_add(t) + t; }
-    auto operator-=(T t) -> T { return fetch_sub(t) - t; }
+    auto operator+=(T t) -> T { return plus(fetch_add(t), t); }
+    auto operator-=(T t) -> T { return minus(fetch_sub(t), t); }
 
     auto operator++() -> T {
         static_assert(requires(T t) { ++t; }, "T must support operator++()");
-        return ::atomic::fetch_add(value, 1) + 1;
+        return plus(static_cast<T>(::atomic::fetch_add(value, 1)), T{1});
     }
     [[nodiscard]] auto operator++(int) -> T {
         static_assert(requires(T t) { t++; }, "T must support operator++(int)");
@@ -96,7 +113,7 @@ template <typename T> class atomic {
     }
     auto operator--() -> T {
         static_assert(requires(T t) { --t; }, "T must support operator--()");
-        return ::atomic::fetch_sub(value, 1) - 1;
+        return minus(static_cast<T>(::atomic::fetch_sub(value, 1)), T{1});
     }
     [[nodiscard]] auto operator--(int) -> T {
         static_assert(requires(T t) { t--; }, "T must support operator--(int)");
-- 
2.43.0


From bcea001c065e97af06e391dd75990447e172b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:34:59 +0000
Subject: [PATCH 34/53] fix: optional reset and emplace in constant expressions

Both are constexpr but used placement new, which is not allowed during
constant evaluation.
---
 include/stdx/optional.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index ab2ea64..477933b 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -188,14 +188,18 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
 
     template <typename... Args>
     constexpr auto emplace(Args &&...args) LIFETIMEBOUND -> value_type & {
-        val.~value_type();
-        new (std::addressof(val)) value_type(std::forward<Args>(args)...);
+        std::destroy_at(std::addressof(val));
+        std::construct_at(std::addressof(val), std::forward<Args>(args)...);
         return value();
     }
 
     constexpr auto reset() {
-        val.~value_type();
-        new (std::addressof(val)) value_type(traits());
+        std::destroy_at(std::addressof(val));
+        if constexpr (std::is_move_constructible_v<value_type>) {
+            std::construct_at(std::addressof(val), traits());
+        } else {
+            new (std::addressof(val)) value_type(traits());
+        }
     }
 
     template <typename F> constexpr auto transform(F &&f) & {
-- 
2.43.0


From 78f3d9e1281c29d6304e987cf140984d088dd013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:09:46 +0000
Subject: [PATCH 35/53] fix: reject spans longer than an array or span they are
 made from

A qualification conversion of the element type, or a span of known
extent as the source, bypassed the check that the storage suffices.
---
 include/stdx/span.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/stdx/span.hpp b/include/stdx/span.hpp
index 4f6f1e7..eb05c43 100644
--- a/include/stdx/span.hpp
+++ b/include/stdx/span.hpp
@@ -57,7 +57,20 @@ template <typename T> class span_base<T, dynamic_extent> {
 };
 } // namespace detail
 
-template <typename T, std::size_t Extent = dynamic_extent>
+template <typename T, std::size_t Extent = dynamic_extent> class span;
+
+namespace detail {
+template <typename> constexpr auto storage_bound_v = dynamic_extent;
+template <typename T, std::size_t N>
+// NOLINTNEXTLINE(*-avoid-c-arrays)
+constexpr auto storage_bound_v<T[N]> = N;
+template <typename T, std::size_t N>
+constexpr auto storage_bound_v<std::array<T, N>> = N;
+template <typename T, std::size_t N>
+constexpr auto storage_bound_v<span<T, N>> = N;
+} // namespace detail
+
+template <typename T, std::size_t Extent>
 class span : public detail::span_base<T, Extent> {
     template <typename> constexpr static inline auto dependent_extent = Extent;
     using base_t = detail::span_base<T, Extent>;
@@ -120,7 +133,10 @@ class span : public detail::span_base<T, Extent> {
     template <typename R>
         requires(dependent_extent<R> != dynamic_extent)
     explicit constexpr span(R &&r)
-        : ptr{std::to_address(std::begin(std::forward<R>(r)))} {}
+        : ptr{std::to_address(std::begin(std::forward<R>(r)))} {
+        static_assert(Extent <= detail::storage_bound_v<std::remove_cvref_t<R>>,
+                      "Span extends beyond available storage");
+    }
 
     template <typename R>
         requires(dependent_extent<R> == dynamic_extent)
@@ -135,7 +151,10 @@ class span : public detail::span_base<T, Extent> {
     template <class U, std::size_t N>
         requires(dependent_extent<U> == dynamic_extent or N != dynamic_extent)
     constexpr explicit(false) span(span<U, N> const &s) noexcept
-        : base_t{s.data(), s.size()}, ptr{s.data()} {}
+        : base_t{s.data(), s.size()}, ptr{s.data()} {
+        static_assert(Extent == dynamic_extent or Extent <= N,
+                      "Span extends beyond available storage");
+    }
 
     [[nodiscard]] constexpr auto data() const noexcept -> pointer {
         return ptr;
-- 
2.43.0


From 55cbac9b0e5d9e4f4d8f2266d888e537b5b0abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:09:46 +0000
Subject: [PATCH 36/53] fix: reject comparison of a one-element tuple with a
 longer tuple

Both have the same base class for their first element, so the comparison
of that base class was used and the other elements were ignored.
---
 include/stdx/tuple.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index 7d50fdb..759c053 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -438,16 +438,25 @@ template <std::size_t I, tuplelike T> struct tuple_element<I, T> {
     using type = typename T::template element_t<I>;
 };
 
+namespace detail {
+// A one-element tuple and a longer one may share the base class of their first
+// element: comparing them must not fall back on comparing only those.
+template <typename U, std::size_t N>
+concept same_first_element_only = N == 1 and tuple_size_v<U> > 1;
+} // namespace detail
+
 template <typename... Ts>
 class tuple : public detail::tuple_impl<std::index_sequence_for<Ts...>,
                                         detail::index_function_list<>, Ts...> {
     template <typename U>
-        requires(not tuple_comparable<U>)
+        requires(not tuple_comparable<U>) or
+                (detail::same_first_element_only<U, sizeof...(Ts)>)
     [[nodiscard]] friend constexpr auto operator==(tuple const &, U const &)
         -> bool = delete;
 
     template <typename U>
-        requires(not tuple_comparable<U>)
+        requires(not tuple_comparable<U>) or
+                (detail::same_first_element_only<U, sizeof...(Ts)>)
     [[nodiscard]] friend constexpr auto operator<=>(tuple const &,
                                                     U const &) = delete;
 };
@@ -457,12 +466,14 @@ template <typename IndexList, typename... Ts>
 class indexed_tuple : public detail::tuple_impl<std::index_sequence_for<Ts...>,
                                                 IndexList, Ts...> {
     template <typename U>
-        requires(not tuple_comparable<U>)
+        requires(not tuple_comparable<U>) or
+                (detail::same_first_element_only<U, sizeof...(Ts)>)
     [[nodiscard]] friend constexpr auto operator==(indexed_tuple const &,
                                                    U const &) -> bool = delete;
 
     template <typename U>
-        requires(not tuple_comparable<U>)
+        requires(not tuple_comparable<U>) or
+                (detail::same_first_element_only<U, sizeof...(Ts)>)
     [[nodiscard]] friend constexpr auto operator<=>(indexed_tuple const &,
                                                     U const &) = delete;
 };
-- 
2.43.0


From 726b3164d68676ad02a7d230714c5412e4a8992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:52:54 +0000
Subject: [PATCH 37/53] fix: name types whose template arguments contain an
 equals sign

---
 include/stdx/ct_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/ct_conversions.hpp b/include/stdx/ct_conversions.hpp
index 0cd9005..392b19e 100644
--- a/include/stdx/ct_conversions.hpp
+++ b/include/stdx/ct_conversions.hpp
@@ -21,7 +21,7 @@ consteval static auto type_as_string() -> std::string_view {
                   "Unknown compiler, can't build type name.");
 #endif
 
-    constexpr auto lhs = function_name.rfind('=', rhs) + 2;
+    constexpr auto lhs = function_name.find('=') + 2;
     return function_name.substr(lhs, rhs - lhs + 1);
 }
 
-- 
2.43.0


From 3a3322f3ed7069d45d7ee17a458b91afb5d5b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:53:03 +0000
Subject: [PATCH 38/53] fix: keep equal types together when sorting a tuple by
 type name

---
 include/stdx/tuple_algorithms.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index 7dceda5..36bc4b3 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -329,9 +329,15 @@ template <tuplelike T, template <typename> typename Proj = std::type_identity_t>
 [[nodiscard]] constexpr auto sorted_indices() {
     return []<std::size_t... Is>(std::index_sequence<Is...>)
         ->std::array<std::size_t, sizeof...(Is)> {
-        using P = std::pair<std::string_view, std::size_t>;
+        // different types may have the same name, so after the name, order by
+        // where the type first occurs
+        using L = type_list<Proj<tuple_element_t<Is, T>>...>;
+        using K = std::pair<std::string_view, std::size_t>;
+        using P = std::pair<K, std::size_t>;
         auto a = std::array<P, sizeof...(Is)>{
-            P{stdx::type_as_string<Proj<tuple_element_t<Is, T>>>(), Is}...};
+            P{K{stdx::type_as_string<Proj<tuple_element_t<Is, T>>>(),
+                boost::mp11::mp_find<L, Proj<tuple_element_t<Is, T>>>::value},
+              Is}...};
         std::sort(a.begin(), a.end(), [](auto const &p1, auto const &p2) {
             return p1.first < p2.first;
         });
-- 
2.43.0


From 7df4d984fe1a7d25e1c2875f352e4b828c441721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:09:18 +0000
Subject: [PATCH 39/53] fix: name enumerators of templates with a parenthesis
 in their arguments

---
 include/stdx/ct_conversions.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/stdx/ct_conversions.hpp b/include/stdx/ct_conversions.hpp
index 392b19e..73ba9f5 100644
--- a/include/stdx/ct_conversions.hpp
+++ b/include/stdx/ct_conversions.hpp
@@ -53,19 +53,19 @@ consteval static auto enum_as_string() -> std::basic_string_view<char> {
     }();
 
     constexpr auto cast_str = [&]() -> std::string_view {
-        if (auto const close_paren_pos = qual_str.find_last_of(')');
-            close_paren_pos != std::string_view::npos) {
-            if (qual_str[close_paren_pos + 1] != ':') {
-                return qual_str;
-            }
+        auto const colon_pos = qual_str.find_last_of(':');
+        if (colon_pos == std::string_view::npos) {
+            return qual_str;
         }
 
-        if (auto const colon_pos = qual_str.find_last_of(':');
-            colon_pos != std::string_view::npos) {
-            return qual_str.substr(colon_pos + 1);
+        // a value that is not an enumerator is a cast: (E)42
+        if (auto const close_paren_pos = qual_str.find_last_of(')');
+            close_paren_pos != std::string_view::npos and
+            close_paren_pos > colon_pos) {
+            return qual_str;
         }
 
-        return qual_str;
+        return qual_str.substr(colon_pos + 1);
     }();
 
     return cast_str;
-- 
2.43.0


From 51ee03eb1927efdba72e204e775c72929ed3281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:09:18 +0000
Subject: [PATCH 40/53] fix: print values of enumerations whose template
 arguments contain an equals sign

---
 include/stdx/ct_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/ct_conversions.hpp b/include/stdx/ct_conversions.hpp
index 73ba9f5..9a4a75d 100644
--- a/include/stdx/ct_conversions.hpp
+++ b/include/stdx/ct_conversions.hpp
@@ -44,7 +44,7 @@ consteval static auto enum_as_string() -> std::basic_string_view<char> {
 #endif
     constexpr auto qual_str = [&]() -> std::string_view {
         constexpr auto rhs = value_string.size() - 2;
-        if (auto const eq_pos = value_string.find_last_of('=');
+        if (auto const eq_pos = value_string.find('=');
             eq_pos != std::string_view::npos) {
             auto const lhs = eq_pos + 2;
             return value_string.substr(lhs, rhs - lhs + 1);
-- 
2.43.0


From 22e024ebdd9df59fe0f4dcbac4a6dfae35ee877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:16:46 +0000
Subject: [PATCH 41/53] fix: iterate the elements of
 stdx::make_integer_sequence

---
 include/stdx/utility.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 57ed333..a21cc03 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -277,6 +277,15 @@ using make_index_sequence = make_integer_sequence<std::size_t, N>;
 template <typename... Ts>
 using index_sequence_for = make_index_sequence<sizeof...(Ts)>;
 
+namespace detail {
+template <typename T, T N>
+struct for_each_t<make_integer_sequence<T, N>>
+    : for_each_t<std::make_integer_sequence<T, N>> {};
+template <typename T, T N>
+struct apply_sequence_t<make_integer_sequence<T, N>>
+    : apply_sequence_t<std::make_integer_sequence<T, N>> {};
+} // namespace detail
+
 template <std::size_t I, typename T, T N>
 constexpr auto get(make_integer_sequence<T, N>) {
     return std::integral_constant<T, I>{};
-- 
2.43.0


From 5acfa6c84ee088a2c472725aa11b889d126dd6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:20:17 +0000
Subject: [PATCH 42/53] fix: forward_like turns an lvalue into an rvalue

---
 include/stdx/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index a21cc03..a9978ed 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -114,7 +114,7 @@ template <typename T, typename U>
         if constexpr (t_is_const) {
             return std::move(std::as_const(u));
         } else {
-            return static_cast<U &&>(u);
+            return std::move(u);
         }
     }
 }
-- 
2.43.0


From 3d7c2f1ae4dcb5c3add74810f3ccd7fff4429e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:31:21 +0000
Subject: [PATCH 43/53] fix: pass local variables as arguments of STDX_PANIC

---
 include/stdx/panic.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdx/panic.hpp b/include/stdx/panic.hpp
index e7db393..ec9c8d4 100644
--- a/include/stdx/panic.hpp
+++ b/include/stdx/panic.hpp
@@ -30,9 +30,10 @@ auto panic(Args &&...args) -> void {
 // NOLINTBEGIN(cppcoreguidelines-macro-usage)
 
 #define STDX_PANIC(MSG, ...)                                                   \
-    []() -> void {                                                             \
+    [](auto &&...stdx_args) -> void {                                          \
         using stdx::ct_string_literals::operator""_cts;                        \
-        stdx::panic<MSG##_cts>(__VA_ARGS__);                                   \
-    }()
+        stdx::panic<MSG##_cts>(                                                \
+            std::forward<decltype(stdx_args)>(stdx_args)...);                  \
+    }(__VA_ARGS__)
 
 // NOLINTEND(cppcoreguidelines-macro-usage)
-- 
2.43.0


From 70d4a84a991faa3deeba4c134f184733b18ae9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:31 +0000
Subject: [PATCH 44/53] fix: set(false) of a type_bitset sets every type

---
 include/stdx/bitset.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 1ced843..c5d75e3 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -625,7 +625,11 @@ template <typename... Ts> class type_bitset {
         static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
-            bs.set();
+            if (value) {
+                bs.set();
+            } else {
+                bs.reset();
+            }
         } else {
             (bs.set(detail::index_of<Us, list_t>, value), ...);
         }
-- 
2.43.0


From eb6ab19622180bac943f35c077999f9979e60556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:40 +0000
Subject: [PATCH 45/53] fix: cx_vector grows when storing the pushed value
 throws

push_back counted the new element before it was stored. When the
assignment threw, the vector held one element more, with a stale value.
---
 include/stdx/cx_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index 0d8814e..f942be2 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -129,10 +129,12 @@ template <typename T, std::size_t N> class cx_vector {
 
     constexpr auto push_back(value_type const &value) LIFETIMEBOUND
         -> reference {
-        return storage[current_size++] = value;
+        storage[current_size] = value;
+        return storage[current_size++];
     }
     constexpr auto push_back(value_type &&value) LIFETIMEBOUND -> reference {
-        return storage[current_size++] = std::move(value);
+        storage[current_size] = std::move(value);
+        return storage[current_size++];
     }
 
     [[nodiscard]] constexpr auto pop_back() -> value_type {
-- 
2.43.0


From a61a924f24c473cf2a9ee93b7d6784419866b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:40 +0000
Subject: [PATCH 46/53] fix: cx_queue is corrupt after storing or moving an
 element throws

push counted the new element before it was stored, and pop advanced its
index before the element was moved out. An exception in between left the
queue with a stale element, or reading past its storage.
---
 include/stdx/cx_queue.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/stdx/cx_queue.hpp b/include/stdx/cx_queue.hpp
index 3401836..32f62eb 100644
--- a/include/stdx/cx_queue.hpp
+++ b/include/stdx/cx_queue.hpp
@@ -83,25 +83,25 @@ class cx_queue {
 
     constexpr auto push(value_type const &value) LIFETIMEBOUND -> reference {
         OverflowPolicy::check_push(current_size, N);
-        if (++push_index == N) {
-            push_index = 0;
-        }
+        auto const index = push_index + 1 == N ? size_type{} : push_index + 1;
+        storage[index] = value;
+        push_index = index;
         ++current_size;
-        return storage[push_index] = value;
+        return storage[push_index];
     }
     constexpr auto push(value_type &&value) LIFETIMEBOUND -> reference {
         OverflowPolicy::check_push(current_size, N);
-        if (++push_index == N) {
-            push_index = 0;
-        }
+        auto const index = push_index + 1 == N ? size_type{} : push_index + 1;
+        storage[index] = std::move(value);
+        push_index = index;
         ++current_size;
-        return storage[push_index] = std::move(value);
+        return storage[push_index];
     }
 
     [[nodiscard]] constexpr auto pop() -> value_type {
         OverflowPolicy::check_pop(current_size);
-        auto entry = std::move(storage[pop_index++]);
-        if (pop_index == N) {
+        auto entry = std::move(storage[pop_index]);
+        if (++pop_index == N) {
             pop_index = 0;
         }
         --current_size;
-- 
2.43.0


From 53044fe96bb5a9f58f1dff687fc0d5f6edf4946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:40 +0000
Subject: [PATCH 47/53] fix: cx_set loses or gains a key when storing one
 throws

insert and erase changed the size before the assignment that can throw.
---
 include/stdx/cx_set.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stdx/cx_set.hpp b/include/stdx/cx_set.hpp
index 579b108..0703325 100644
--- a/include/stdx/cx_set.hpp
+++ b/include/stdx/cx_set.hpp
@@ -68,21 +68,24 @@ template <typename Key, std::size_t N> class cx_set {
         if (contains(key)) {
             return false;
         }
-        storage[current_size++] = key;
+        storage[current_size] = key;
+        ++current_size;
         return true;
     }
     constexpr auto insert(key_type &&key) -> bool {
         if (contains(key)) {
             return false;
         }
-        storage[current_size++] = std::move(key);
+        storage[current_size] = std::move(key);
+        ++current_size;
         return true;
     }
 
     constexpr auto erase(key_type const &key) -> size_type {
         for (auto &k : *this) {
             if (k == key) {
-                k = storage[--current_size];
+                k = storage[current_size - 1];
+                --current_size;
                 return 1u;
             }
         }
-- 
2.43.0


From 321fe4b4ba24553611593f60783135535e3ac9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:40 +0000
Subject: [PATCH 48/53] fix: cx_map grows when storing the inserted entry
 throws

insert_or_assign counted the new entry before it was stored.
---
 include/stdx/cx_map.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/cx_map.hpp b/include/stdx/cx_map.hpp
index 2ffbbf4..dec209c 100644
--- a/include/stdx/cx_map.hpp
+++ b/include/stdx/cx_map.hpp
@@ -117,7 +117,8 @@ template <typename Key, typename Value, std::size_t N> class cx_map {
                 return false;
             }
         }
-        storage[current_size++] = {key, value};
+        storage[current_size] = {key, value};
+        ++current_size;
         return true;
     }
     constexpr auto put(key_type const &key, mapped_type const &value) -> bool {
-- 
2.43.0


From 36682508ff46896a6598a2eb864ac39b9f9f96e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:40 +0000
Subject: [PATCH 49/53] fix: optional destroys its value twice when emplace
 throws

emplace destroyed the old value before the constructor of the new one,
which may throw. The optional then held no object at all, and its
destructor destroyed the old value again. It is now left empty.
---
 include/stdx/optional.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index 477933b..d12ef34 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -189,17 +189,22 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     template <typename... Args>
     constexpr auto emplace(Args &&...args) LIFETIMEBOUND -> value_type & {
         std::destroy_at(std::addressof(val));
+        struct rollback_t {
+            optional *opt;
+            constexpr ~rollback_t() {
+                if (opt != nullptr) {
+                    opt->construct_tombstone();
+                }
+            }
+        } rollback{this};
         std::construct_at(std::addressof(val), std::forward<Args>(args)...);
+        rollback.opt = nullptr;
         return value();
     }
 
     constexpr auto reset() {
         std::destroy_at(std::addressof(val));
-        if constexpr (std::is_move_constructible_v<value_type>) {
-            std::construct_at(std::addressof(val), traits());
-        } else {
-            new (std::addressof(val)) value_type(traits());
-        }
+        construct_tombstone();
     }
 
     template <typename F> constexpr auto transform(F &&f) & {
@@ -266,6 +271,14 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     }
 
   private:
+    constexpr auto construct_tombstone() -> void {
+        if constexpr (std::is_move_constructible_v<value_type>) {
+            std::construct_at(std::addressof(val), traits());
+        } else {
+            new (std::addressof(val)) value_type(traits());
+        }
+    }
+
     [[nodiscard]] friend constexpr auto operator==(optional const &lhs,
                                                    optional const &rhs)
         -> bool {
-- 
2.43.0


From b47e07b8cb7639fcf2b84e69d3b767252b900fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:57 +0000
Subject: [PATCH 50/53] fix: type_bitset with repeated types accepts the lookup
 of a type it does not have

The list of types is deduplicated, so the number of positions is N and not the
number of types written.
---
 include/stdx/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index c5d75e3..371034d 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -616,7 +616,7 @@ template <typename... Ts> class type_bitset {
     [[nodiscard]] constexpr auto operator[](TI) const -> decltype(auto) {
         using T = typename TI::type;
         constexpr auto idx = detail::index_of<T, list_t>;
-        static_assert(idx < sizeof...(Ts), "Type not found in bitset");
+        static_assert(idx < N, "Type not found in bitset");
         return bs[idx];
     }
 
-- 
2.43.0


From dfa1cc6fc2154ffdf0e4aa986602f1dac1870c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:59 +0000
Subject: [PATCH 51/53] fix: atomic_bitset operations on an empty range shift
 by too much

A range of length zero at bit zero made the most significant bit wrap around to
the largest number.
---
 include/stdx/atomic_bitset.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/stdx/atomic_bitset.hpp b/include/stdx/atomic_bitset.hpp
index 0958d8a..1f6863a 100644
--- a/include/stdx/atomic_bitset.hpp
+++ b/include/stdx/atomic_bitset.hpp
@@ -148,6 +148,9 @@ class atomic_bitset {
              std::memory_order order = std::memory_order_seq_cst) -> bitset_t {
         auto const l = to_underlying(lsb);
         auto const length = to_underlying(len);
+        if (length == 0) {
+            return bitset_t{::atomic::fetch_or(storage, elem_t{}, order)};
+        }
         return set(lsb, static_cast<msb_t>(l + length - 1), value, order);
     }
 
@@ -179,6 +182,9 @@ class atomic_bitset {
         -> bitset_t {
         auto const l = to_underlying(lsb);
         auto const length = to_underlying(len);
+        if (length == 0) {
+            return bitset_t{::atomic::fetch_or(storage, elem_t{}, order)};
+        }
         return reset(lsb, static_cast<msb_t>(l + length - 1), order);
     }
 
@@ -209,6 +215,9 @@ class atomic_bitset {
               std::memory_order order = std::memory_order_seq_cst) -> bitset_t {
         auto const l = to_underlying(lsb);
         auto const length = to_underlying(len);
+        if (length == 0) {
+            return bitset_t{::atomic::fetch_or(storage, elem_t{}, order)};
+        }
         return flip(lsb, static_cast<msb_t>(l + length - 1), order);
     }
 
-- 
2.43.0


From 30a2422a3dbe0c8b25ba530405b9b24cb341d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:15 +0000
Subject: [PATCH 52/53] fix: appending environments keeps the order of entries
 within each

append_env_t reversed the entries of every environment along with the
environments. Where two entries could answer a query, for instance because
one query type derives from the other, appending an unrelated environment
changed the answer.
---
 include/stdx/env.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdx/env.hpp b/include/stdx/env.hpp
index f8b3a1f..7263ecb 100644
--- a/include/stdx/env.hpp
+++ b/include/stdx/env.hpp
@@ -84,7 +84,9 @@ using extend_env_t =
 
 template <envlike... Envs>
 using append_env_t = boost::mp11::mp_unique_if<
-    boost::mp11::mp_reverse<boost::mp11::mp_append<Envs...>>,
+    boost::mp11::mp_apply<
+        boost::mp11::mp_append,
+        boost::mp11::mp_reverse<boost::mp11::mp_list<Envs...>>>,
     _env::queries_equal>;
 
 template <_env::autowrap... Args>
-- 
2.43.0


From 8d3409759c1289a12a38fbfaad99749190235fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:19 +0000
Subject: [PATCH 53/53] fix: for_each_butlastn with a count beyond the range
 visits nothing

With random-access iterators the count was converted to the signed
difference type first. An unsigned count of half its range or more became
negative, and elements past the end were visited.
---
 include/stdx/algorithm.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/stdx/algorithm.hpp b/include/stdx/algorithm.hpp
index 926783a..078c445 100644
--- a/include/stdx/algorithm.hpp
+++ b/include/stdx/algorithm.hpp
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iterator>
+#include <type_traits>
 
 namespace stdx {
 inline namespace v1 {
@@ -93,8 +94,12 @@ constexpr auto for_each_butlastn(std::random_access_iterator_tag, RandIt first,
                                  RandIt last, N n, Operation op,
                                  RandItN... first_n) {
     auto const sz = std::distance(first, last);
-    return stdx::for_each_n(first, sz - static_cast<decltype(sz)>(n), op,
-                            first_n...);
+    using D = std::remove_const_t<decltype(sz)>;
+    using C = std::common_type_t<N, D>;
+    auto const count = static_cast<C>(n) < static_cast<C>(sz)
+                           ? static_cast<D>(sz - static_cast<D>(n))
+                           : D{};
+    return stdx::for_each_n(first, count, op, first_n...);
 }
 } // namespace detail
 
-- 
2.43.0

