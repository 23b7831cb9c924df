From 7fe08fda90dfdba43250453be6c2ee0f46cd0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:30 +0000
Subject: [PATCH 01/14] fix: avoid the signed overflow when serializing the
 lowest value in two's complement

Negating the lowest value of a type as wide as int (or wider) is undefined.
---
 include/upd/detail/signed_representation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/signed_representation.hpp b/include/upd/detail/signed_representation.hpp
index d34ad05..ca274f7 100644
--- a/include/upd/detail/signed_representation.hpp
+++ b/include/upd/detail/signed_representation.hpp
@@ -24,7 +24,7 @@ T from_signed_mode_impl(unsigned long long value) {
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 T from_signed_mode_impl(unsigned long long value) {
   constexpr auto sign_mask = 0b10000000ull << 8 * (sizeof(T) - 1);
-  return value & sign_mask ? T(-T(~value + 1)) : T(value);
+  return value & sign_mask ? T(-T(~value) - 1) : T(value);
 }
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 T from_signed_mode_impl(unsigned long long value) {
@@ -56,7 +56,7 @@ unsigned long long to_signed_mode_impl(T value) {
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(~(-value - 1));
+  return value >= 0 ? static_cast<unsigned long long>(value) : ~static_cast<unsigned long long>(-(value + 1));
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-- 
2.43.0


From adf07fddeb92f0f17c9ff655f670c5fa1fcaebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:30 +0000
Subject: [PATCH 02/14] fix: size the output buffer after the responses instead
 of the requests

A response longer than the longest request overflowed the buffer.
---
 include/upd/buffered_dispatcher.hpp          |  4 ++--
 include/upd/detail/type_traits/signature.hpp | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 081f0b0..8cc87f8 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -33,7 +33,7 @@ using needed_input_buffer_size =
 
 //! \brief How many bytes that would be needed to represent any action response of `Keyring`
 template<typename Keyring>
-using needed_output_buffer_size = detail::max<detail::map_parameters_size<typename Keyring::signatures_t::type>>;
+using needed_output_buffer_size = detail::max<detail::map_return_type_size<typename Keyring::signatures_t::type>>;
 
 } // namespace detail
 
@@ -377,7 +377,7 @@ public:
   double_buffered_dispatcher() = default;
 
 private:
-  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size];
+  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size > 0 ? output_buffer_size : 1];
 };
 
 #if __cplusplus >= 201703L
diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 661b5f0..eebe840 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -127,6 +127,17 @@ struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
+//! \name
+//! \brief Map `return_type_size` over a typelist of invocable type
+//! @{
+
+template<typename>
+struct map_return_type_size;
+template<typename... Fs>
+struct map_return_type_size<tlist_t<Fs...>> : tlist_t<return_type_size<Fs>...> {};
+
+//! @}
+
 UPD_DETAIL_MAKE_DETECTOR(
     has_signature_impl,
     UPD_PACK(typename F, typename R, typename... Args),
-- 
2.43.0


From 7b7decf74815b18c7359689e52a4f8a9b017b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 03/14] fix: announce the serialized size of user-extended
 types instead of their size in memory

The payload length of keys, the sizes of actions without storage and the buffers of dispatchers were computed with
sizeof, so packets were never resolved or the buffers overflowed.
---
 include/upd/detail/type_traits/signature.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index eebe840..162d97a 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -6,6 +6,7 @@
 #include <type_traits>
 
 #include "detector.hpp"
+#include "remove_cv_ref.hpp"
 #include "typelist.hpp"
 
 #include "../../upd.hpp"
@@ -97,14 +98,18 @@ UPD_DETAIL_MAKE_DETECTOR(
 template<typename F>
 struct is_invocable : decltype(is_invocable_impl<F>(0)) {};
 
+template<typename>
+struct serialization_size; // IWYU pragma: keep
+
 //! \name
-//! \brief Sums the sizes of the parameters of `F`
+//! \brief Sums the sizes of the serialized parameters of `F`
 //! @{
 
 template<typename F>
 struct parameters_size : parameters_size<signature_t<F>> {};
 template<typename R, typename... Args>
-struct parameters_size<R(Args...)> : sum<detail::tlist_t<std::integral_constant<std::size_t, sizeof(Args)>...>> {};
+struct parameters_size<R(Args...)>
+    : sum<detail::tlist_t<std::integral_constant<std::size_t, serialization_size<remove_cv_ref_t<Args>>::value>...>> {};
 
 //! @}
 
@@ -119,11 +124,12 @@ struct map_parameters_size<tlist_t<Fs...>> : tlist_t<parameters_size<Fs>...> {};
 
 //! @}
 
-//! \brief Gets the size of the return type of `F`
+//! \brief Gets the size of the serialized return type of `F`
 template<typename F>
 struct return_type_size : return_type_size<detail::signature_t<F>> {};
 template<typename R, typename... Args>
-struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof(R)> {};
+struct return_type_size<R(Args...)>
+    : std::integral_constant<std::size_t, serialization_size<remove_cv_ref_t<R>>::value> {};
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
-- 
2.43.0


From c93c2d8919fdda6cb37b2b6082eb6e8d86e9f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 04/14] fix: lay arrays and iterated sequences of user-extended
 types by their serialized size

The elements of arrays were spaced by, and the bytes exchanged through iterators were as many as, their size in memory.
---
 include/upd/detail/serialization.hpp | 11 ++++++-----
 include/upd/tuple.hpp                |  4 ++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index 37130b0..deb88e1 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -11,6 +11,7 @@
 #include "endianess.hpp"
 #include "signed_representation.hpp"
 #include "type_traits/detector.hpp"
+#include "type_traits/remove_cv_ref.hpp"
 #include "type_traits/require.hpp"
 #include "type_traits/signature.hpp"
 
@@ -74,7 +75,7 @@ detail::array_t<T> read_as(const byte_t *sequence) {
   constexpr auto size = retval.size();
 
   for (std::size_t i = 0; i < size; i++)
-    retval[i] = read_as<element_t, Endianess, Signed_Mode>(sequence + i * sizeof(element_t));
+    retval[i] = read_as<element_t, Endianess, Signed_Mode>(sequence + i * serialization_size<element_t>::value);
 
   return retval;
 }
@@ -86,7 +87,7 @@ T read_as(const byte_t *sequence) {
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, typename It, detail::require_not_pointer<It> = 0>
 decltype(read_as<T, Endianess, Signed_Mode>(std::declval<byte_t *>())) read_as(It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
   for (byte_t &byte : buf)
     byte = *it++;
   return read_as<T, Endianess, Signed_Mode>(buf);
@@ -136,10 +137,10 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_array<T> = 0>
 void write_as(const T &array, byte_t *sequence) {
-  using element_t = decltype(array[0]);
+  using element_t = remove_cv_ref_t<decltype(array[0])>;
   constexpr auto array_size = sizeof(array) / sizeof(array[0]);
   for (std::size_t i = 0; i < array_size; i++)
-    write_as<Endianess, Signed_Mode>(array[i], sequence + i * sizeof(element_t));
+    write_as<Endianess, Signed_Mode>(array[i], sequence + i * serialization_size<element_t>::value);
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T> = 0>
 void write_as(const T &x, byte_t *sequence) {
@@ -149,7 +150,7 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, typename It, detail::require_not_pointer<It> = 0>
 void write_as(const T &value, It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
 
   write_as<Endianess, Signed_Mode>(value, buf);
   for (const byte_t &byte : buf)
diff --git a/include/upd/tuple.hpp b/include/upd/tuple.hpp
index 18ed54f..df182be 100644
--- a/include/upd/tuple.hpp
+++ b/include/upd/tuple.hpp
@@ -59,6 +59,10 @@ constexpr std::size_t serialization_size_impl(int) {
   return decltype(make_view_for<endianess::LITTLE, signed_mode::TWOS_COMPLEMENT>(
       (byte_t *)nullptr, examine_invocable<decltype(upd_extension<T>::unserialize)>{}))::size;
 }
+template<typename T, detail::require_array<T> = 0>
+constexpr std::size_t serialization_size_impl(int) {
+  return std::tuple_size<array_t<T>>::value * serialization_size<typename array_t<T>::value_type>::value;
+}
 
 //! \brief Return the size in bytes occupied by the serialization of instances of the provided type (if serializable)
 template<typename T>
-- 
2.43.0


From 8d293cd54115ff7ac8f7905770f6c9393f7d29a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 05/14] fix: get ready for the next request before invoking the
 action so that a throwing action does not corrupt the dispatcher

---
 include/upd/buffered_dispatcher.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 8cc87f8..1401652 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -261,14 +261,15 @@ private:
     m_obuf_bottom = 0;
     m_obuf_next = 0;
 
+    // The input buffer is reset beforehand so the next request is still received properly if the action throws
+    m_is_index_loaded = false;
+    m_load_count = sizeof(index_t);
+    m_ibuf_next = 0;
+
     auto *ibuf_ptr = derived().ibuf_begin();
     auto index = get_index([&]() { return *ibuf_ptr++; });
     m_dispatcher[index]([&]() { return *ibuf_ptr++; },
                         [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
-
-    m_is_index_loaded = false;
-    m_load_count = sizeof(index_t);
-    m_ibuf_next = 0;
   }
 
   //! \copydoc dispatcher::get_index
-- 
2.43.0


From 511bed98707c8a6787ca22ff05f131907bf9cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 06/14] fix: do not send uninitialized bytes when the reply is
 shorter than the requested buffer

---
 include/upd/buffered_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 1401652..c500180 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -239,7 +239,7 @@ public:
 
     using buf_t = typename Key::tuple_t::template arg_t<0>;
 
-    buf_t buf;
+    buf_t buf{};
     write_to(std::begin(buf));
     k(buf).write_to(UPD_FWD(output));
 
-- 
2.43.0


From e63d5b716cd4a915bb832e9e5ca438a9452710ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 07/14] fix: raise NotImplementedError from the abstract
 Client.new_request()

---
 py/unpadded/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/unpadded/client.py b/py/unpadded/client.py
index fdc6a9f..b4e7990 100644
--- a/py/unpadded/client.py
+++ b/py/unpadded/client.py
@@ -1,6 +1,6 @@
 class Client:
     def new_request(self, payload):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     async def call(self, key, *args):
         response = await self.new_request(key.encode(*args))
-- 
2.43.0


From a25f77898a99c908170c17867e007c49d7b9fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 08/14] fix: serialize signed integers properly when the
 platform is declared big-endian

---
 include/upd/detail/serialization.hpp         | 4 ++--
 include/upd/detail/signed_representation.hpp | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index deb88e1..8dbbf13 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -63,7 +63,7 @@ T read_as(const byte_t *sequence) {
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_signed_integer<T> = 0>
 T read_as(const byte_t *sequence) {
-  auto tmp = detail::from_endianess<unsigned long long, Endianess>(sequence, sizeof(T));
+  auto tmp = detail::from_endianess<typename std::make_unsigned<T>::type, Endianess>(sequence, sizeof(T));
 
   return detail::from_signed_mode<T, Signed_Mode>(tmp);
 }
@@ -131,7 +131,7 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_signed_integer<T> = 0>
 void write_as(const T &x, byte_t *sequence) {
-  auto tmp = detail::to_signed_mode<Signed_Mode>(x);
+  auto tmp = static_cast<typename std::make_unsigned<T>::type>(detail::to_signed_mode<Signed_Mode>(x));
 
   detail::to_endianess<Endianess>(sequence, tmp, sizeof(x));
 }
diff --git a/include/upd/detail/signed_representation.hpp b/include/upd/detail/signed_representation.hpp
index ca274f7..ef80b00 100644
--- a/include/upd/detail/signed_representation.hpp
+++ b/include/upd/detail/signed_representation.hpp
@@ -2,6 +2,9 @@
 
 #pragma once
 
+#include <cstring>
+#include <type_traits>
+
 #include "../format.hpp"
 #include "../upd.hpp"
 #include "type_traits/require.hpp"
@@ -35,8 +38,9 @@ T from_signed_mode_impl(unsigned long long value) {
 //! \brief Interpret a sequence of bytes as an integer using the provided signed number representation
 template<typename T, signed_mode Signed_Mode, UPD_REQUIRE(platform_info.signed_mode == Signed_Mode)>
 T from_signed_mode(unsigned long long value) {
+  auto representation = static_cast<typename std::make_unsigned<T>::type>(value);
   T retval;
-  memcpy(&retval, &value, sizeof(retval));
+  memcpy(&retval, &representation, sizeof(retval));
   return retval;
 }
 template<typename T, signed_mode Signed_Mode, UPD_REQUIRE(platform_info.signed_mode != Signed_Mode)>
@@ -67,7 +71,7 @@ unsigned long long to_signed_mode_impl(T value) {
 //! \brief Serialize an integer using the provided signed number representation
 template<signed_mode Signed_Mode, typename T, UPD_REQUIRE(platform_info.signed_mode == Signed_Mode)>
 unsigned long long to_signed_mode(T value) {
-  unsigned long long retval;
+  typename std::make_unsigned<T>::type retval;
   memcpy(&retval, &value, sizeof value);
 
   return retval;
-- 
2.43.0


From 4461ecd84889d5bfea71f91ca5764b523b0d9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 09/14] fix: reject floating-point types, which were serialized
 as if they were integers

---
 include/upd/detail/type_traits/require.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/type_traits/require.hpp b/include/upd/detail/type_traits/require.hpp
index c1dcdd0..f6af181 100644
--- a/include/upd/detail/type_traits/require.hpp
+++ b/include/upd/detail/type_traits/require.hpp
@@ -96,11 +96,11 @@ using require_invocable = require<is_invocable<T>::value>;
 
 //! \brief Require the provided type to be an unsigned integer type
 template<typename T, typename U = int>
-using require_unsigned_integer = require<std::is_unsigned<T>::value, U>;
+using require_unsigned_integer = require<std::is_integral<T>::value && std::is_unsigned<T>::value, U>;
 
 //! \brief Require the provided type to be a signed integer type
 template<typename T, typename U = int>
-using require_signed_integer = require<std::is_signed<T>::value, U>;
+using require_signed_integer = require<std::is_integral<T>::value && std::is_signed<T>::value, U>;
 
 //! \brief Require the provided type to be an bounded array type
 template<typename T, typename U = int>
-- 
2.43.0


From 6e6d500d7100fefd8c9b241718dee1ccf193dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:16 +0000
Subject: [PATCH 10/14] fix: decode any byte to a valid bool when the native
 byte order is declared

---
 include/upd/detail/endianess.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/endianess.hpp b/include/upd/detail/endianess.hpp
index 14561ef..742089c 100644
--- a/include/upd/detail/endianess.hpp
+++ b/include/upd/detail/endianess.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <cstring>
+#include <type_traits>
 
 #include "../format.hpp"
 #include "../type.hpp"
@@ -37,14 +38,18 @@ T from_endianess_impl(const byte_t *raw_data, std::size_t n) {
 }
 
 //! \brief Interpret a sequence of byte as an integer according to the provided endianess
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess == Endianess)>
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess == Endianess && !std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   auto retval = T(0);
   memcpy(&retval, raw_data, n);
 
   return retval;
 }
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess != Endianess)>
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess != Endianess || std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   return from_endianess_impl<T, Endianess>(raw_data, n);
 }
-- 
2.43.0


From c98bbadc6e90dbc84303257a33c9942c479b87e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:31 +0000
Subject: [PATCH 11/14] fix: let arrays of user-extended types be serialized

---
 include/upd/detail/serialization.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index 8dbbf13..2ebf532 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -67,6 +67,12 @@ T read_as(const byte_t *sequence) {
 
   return detail::from_signed_mode<T, Signed_Mode>(tmp);
 }
+template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T> = 0>
+T read_as(const byte_t *sequence) {
+  auto view = detail::make_view_for<Endianess, Signed_Mode>(
+      sequence, detail::examine_invocable<decltype(upd_extension<T>::unserialize)>{});
+  return view.invoke(upd_extension<T>::unserialize);
+}
 template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_array<T> = 0>
 detail::array_t<T> read_as(const byte_t *sequence) {
   detail::array_t<T> retval;
@@ -79,12 +85,6 @@ detail::array_t<T> read_as(const byte_t *sequence) {
 
   return retval;
 }
-template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T> = 0>
-T read_as(const byte_t *sequence) {
-  auto view = detail::make_view_for<Endianess, Signed_Mode>(
-      sequence, detail::examine_invocable<decltype(upd_extension<T>::unserialize)>{});
-  return view.invoke(upd_extension<T>::unserialize);
-}
 template<typename T, endianess Endianess, signed_mode Signed_Mode, typename It, detail::require_not_pointer<It> = 0>
 decltype(read_as<T, Endianess, Signed_Mode>(std::declval<byte_t *>())) read_as(It it) {
   byte_t buf[serialization_size<T>::value];
@@ -135,6 +135,12 @@ void write_as(const T &x, byte_t *sequence) {
 
   detail::to_endianess<Endianess>(sequence, tmp, sizeof(x));
 }
+template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T> = 0>
+void write_as(const T &x, byte_t *sequence) {
+  auto view = detail::make_view_for<Endianess, Signed_Mode>(
+      sequence, detail::examine_invocable<decltype(upd_extension<T>::unserialize)>{});
+  upd_extension<T>::serialize(x, view);
+}
 template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_array<T> = 0>
 void write_as(const T &array, byte_t *sequence) {
   using element_t = remove_cv_ref_t<decltype(array[0])>;
@@ -142,12 +148,6 @@ void write_as(const T &array, byte_t *sequence) {
   for (std::size_t i = 0; i < array_size; i++)
     write_as<Endianess, Signed_Mode>(array[i], sequence + i * serialization_size<element_t>::value);
 }
-template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T> = 0>
-void write_as(const T &x, byte_t *sequence) {
-  auto view = detail::make_view_for<Endianess, Signed_Mode>(
-      sequence, detail::examine_invocable<decltype(upd_extension<T>::unserialize)>{});
-  upd_extension<T>::serialize(x, view);
-}
 template<endianess Endianess, signed_mode Signed_Mode, typename T, typename It, detail::require_not_pointer<It> = 0>
 void write_as(const T &value, It it) {
   byte_t buf[serialization_size<T>::value];
-- 
2.43.0


From d2096baa27d5e66099cb029fd9f825dc7dc5a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 12/14] fix: let actions return standard arrays (qualify
 make_tuple)

---
 include/upd/action.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 611a33b..0ab8a43 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -35,7 +35,7 @@ template<endianess Endianess, signed_mode Signed_Mode, typename T, UPD_REQUIREME
 void insert(dest_t &dest, const T &value) {
   using namespace upd;
 
-  auto output = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
+  auto output = upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
   for (byte_t byte : output)
     dest(byte);
 }
@@ -135,7 +135,7 @@ void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
   input_tuple<Endianess, Signed_Mode, F> parameters_tuple;
   for (auto &byte : parameters_tuple)
     byte = src();
-  auto return_tuple = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
+  auto return_tuple = upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
   for (auto byte : return_tuple)
     dest(byte);
 }
-- 
2.43.0


From c688ead98e1a18bfef57f87c38a42acc4ff2998f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:34:42 +0000
Subject: [PATCH 13/14] fix: expose keys of the same type to Python more than
 once

A key type depends on the index and the signature of its function only, and a type can be exposed once: importing a
second module, or unpacking a second keyring, failed when two functions of the same signature were at the same index.
---
 include/upd/python.hpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index 1c5beb9..14448f9 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -68,12 +68,28 @@ const char *demangled_fname(const T &x) {
   return static_name.c_str();
 }
 
-//! \brief Expose a \ref<key> key template instance to Python
-template<typename Keyring, typename Index_T, Index_T I, typename R, typename... Args, endianess E, signed_mode S>
-void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Index_T, I, R(Args...), E, S> k) {
-  using key_t = decltype(k);
+//! \brief Key exposed to Python
+//!
+//! Keys from several keyrings may share the same type whereas a type can only be exposed once ; here, there is one type
+//! for each callback.
+template<typename F, typename Key>
+struct pykey : Key {
+  explicit pykey(const Key &k) : Key{k} {}
+};
 
-  pybind11::class_<key_t>{pymodule, name}
+//! \brief Expose a \ref<key> key template instance to Python
+template<typename Keyring,
+         typename F,
+         typename Index_T,
+         Index_T I,
+         typename R,
+         typename... Args,
+         endianess E,
+         signed_mode S>
+void define_pykey(pybind11::module &pymodule, const char *name, Keyring, F, key<Index_T, I, R(Args...), E, S> k) {
+  using key_t = pykey<F, decltype(k)>;
+
+  pybind11::class_<key_t>{pymodule, name, pybind11::module_local()}
       .def("encode",
            [](key_t k, const Args &...args) {
              byte_t buf[key_t::payload_length];
@@ -102,7 +118,7 @@ void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Ind
                       signed_mode_h<S>{}};
       });
 
-  pymodule.attr(name + 2) = k;
+  pymodule.attr(name + 2) = key_t{k};
 }
 
 //! \brief Expose the \ref<key> key template instances of a \ref<keyring> keyring template instance to Python
@@ -115,6 +131,7 @@ void define_pykeys(pybind11::module &pymodule, Keyring keyring, std::index_seque
           (define_pykey(pymodule,
                         demangled_fname(upd::detail::at<flist_t, Is>{}),
                         keyring,
+                        upd::detail::at<flist_t, Is>{},
                         keyring.get(upd::detail::at<flist_t, Is>{})),
            0)...};
 }
-- 
2.43.0


From 4d033bddcfe1b5946586712554fd7124c5c7e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:50 +0000
Subject: [PATCH 14/14] fix: actions keep a copy of callbacks given by name

The class of the stored callback was deduced from the forwarding reference: a named (lvalue) callback was held by
reference, whereas the documentation says that a copy is wrapped. The reference dangled once the callback was gone.
---
 include/upd/action.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 0ab8a43..c12e897 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 
 #include "format.hpp"
 #include "tuple.hpp"
@@ -157,7 +158,8 @@ public:
   //! \param ftor Callback to be wrapped
   template<endianess Endianess, signed_mode Signed_Mode, typename F, UPD_REQUIREMENT(invocable, F)>
   explicit action(F &&ftor, endianess_h<Endianess>, signed_mode_h<Signed_Mode>)
-      : m_concept_uptr{new detail::action_model<F, Endianess, Signed_Mode>{UPD_FWD(ftor)}} {}
+      : m_concept_uptr{new detail::action_model<typename std::decay<F>::type, Endianess, Signed_Mode>{
+            typename std::decay<F>::type(UPD_FWD(ftor))}} {}
 
   UPD_SFINAE_FAILURE_CTOR(action, UPD_ERROR_NOT_INVOCABLE(ftor))
 
-- 
2.43.0

