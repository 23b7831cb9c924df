// Encoding and decoding of one integer, through every interface.
#pragma once
#include "iters.hpp"
#include "spec.hpp"
#include <upd/tuple.hpp>

namespace suite {
using namespace upd;

template<typename T, endianess E, signed_mode S>
void encode() {
  T x = spec::any_in<T>(S);
  constexpr unsigned N = sizeof(T);

  tuple<E, S, T> t{x};
  va_eq(t.end() - t.begin(), N, "serialized size");
  spec::check(x, t.begin(), E, S, "tuple construction");

  auto m = make_tuple(endianess_h<E>{}, signed_mode_h<S>{}, x);
  spec::check(x, m.begin(), E, S, "make_tuple");

  tuple<E, S, T> t2;
  t2.template set<0>(x);
  spec::check(x, t2.begin(), E, S, "set()");

  tuple<E, S, T> t3;
  upd::set<0>(t3, x);
  spec::check(x, t3.begin(), E, S, "free set()");

  tuple<E, S, T> t4;
  t4 = t;
  spec::check(x, t4.begin(), E, S, "tuple assignment");

  io::any_bytes<N + 2> buf;
  io::any_bytes<N + 2> old(buf);
  auto v = make_view<T>(endianess_h<E>{}, signed_mode_h<S>{}, &buf[1]);
  v.template set<0>(x);
  va_eq(buf[0], old[0], "writing through a view keeps the previous byte");
  spec::check(x, &buf[1], E, S, "view set()");
  va_eq(buf[N + 1], old[N + 1], "writing through a view keeps the next byte");
  va_reach("end");
}

// Through an iterator which is not a pointer
template<typename T, endianess E, signed_mode S, typename It>
void encode_it(const char *id, const char *gap) {
  T x = spec::any_in<T>(S);
  constexpr unsigned N = sizeof(T);
  byte_t buf[3 * (N + 2)];
  for (byte_t &b : buf)
    b = 0x5a;
  byte_t expected[N];
  spec::put(x, expected, E, S);
  auto v = make_view<T>(endianess_h<E>{}, signed_mode_h<S>{}, It(buf + 3));
  v.template set<0>(x);
  for (unsigned i = 0; i < 3 * (N + 2); i++)
    if (i % 3 == 0 && i / 3 >= 1 && i / 3 <= N)
      va_eq(buf[i], expected[i / 3 - 1], id);
    else
      va_eq(buf[i], 0x5a, gap);
}

template<typename T, endianess E, signed_mode S>
void encode_iterators() {
  encode_it<T, E, S, io::forward_it<byte_t>>("view over a forward iterator", "forward iterator: other bytes kept");
  encode_it<T, E, S, io::bidi_it<byte_t>>("view over a bidirectional iterator", "bidirectional iterator: other bytes kept");
  encode_it<T, E, S, io::random_it<byte_t>>("view over a random access iterator", "random access iterator: other bytes kept");
  // backwards
  T x = spec::any_in<T>(S);
  constexpr unsigned N = sizeof(T);
  byte_t buf[N + 2];
  buf[0] = buf[N + 1] = 0x5a;
  byte_t expected[N];
  spec::put(x, expected, E, S);
  auto v = make_view<T>(endianess_h<E>{}, signed_mode_h<S>{}, std::reverse_iterator<byte_t *>(buf + N + 1));
  v.template set<0>(x);
  for (unsigned k = 0; k < N; k++)
    va_eq(buf[N - k], expected[k], "view over a reverse iterator");
  va_eq(buf[0], 0x5a, "reverse iterator: next byte kept");
  va_eq(buf[N + 1], 0x5a, "reverse iterator: previous byte kept");
  va_reach("end");
}

// Any bytes at all: as one unsigned number `r` cut into bytes.
template<typename T>
std::uint64_t any_wire() {
  typedef typename std::conditional<
      sizeof(T) == 1, std::uint8_t,
      typename std::conditional<sizeof(T) == 2, std::uint16_t,
                                typename std::conditional<sizeof(T) == 4, std::uint32_t, std::uint64_t>::type>::type>::type U;
  U r = va::any<U>();
  return r;
}

//! Two's complement pattern of the value which the number `r` on the wire denotes (any non-zero byte is `true`)
template<typename T>
std::uint64_t denoted(std::uint64_t r, signed_mode s) {
  return std::is_same<T, bool>::value ? r != 0 : spec::unwire(r, sizeof(T), std::is_signed<T>::value, s);
}

template<typename T, endianess E, signed_mode S>
void decode() {
  constexpr unsigned N = sizeof(T);
  std::uint64_t r = any_wire<T>();
  std::uint64_t expected = denoted<T>(r, S);
  byte_t buf[N + 2];
  buf[0] = va_u8();
  for (unsigned k = 0; k < N; k++)
    buf[1 + k] = spec::byte_at(r, N, k, E);
  buf[N + 1] = va_u8();

  auto v = make_view<T>(endianess_h<E>{}, signed_mode_h<S>{}, &buf[1]);
  va_eq(va::pattern<T>(v.template get<0>()), expected, "view get()");
  auto cv = make_view<T>(endianess_h<E>{}, signed_mode_h<S>{}, const_cast<const byte_t *>(&buf[1]));
  va_eq(va::pattern<T>(cv.template get<0>()), expected, "constant view get()");
  va_eq(va::pattern<T>(upd::get<0>(v)), expected, "free get()");

  tuple<E, S, T> t;
  for (unsigned k = 0; k < N; k++)
    t[k] = buf[1 + k];
  const tuple<E, S, T> &ct = t;
  va_eq(va::pattern<T>(ct.template get<0>()), expected, "tuple get()");
  T seen = T();
  unsigned calls = 0;
  t.invoke([&](T x) {
    seen = x;
    calls++;
  });
  va_eq(calls, 1, "invoke() calls once");
  va_eq(va::pattern<T>(seen), expected, "invoke()");
  for (unsigned k = 0; k < N; k++)
    va_eq(t[k], spec::byte_at(r, N, k, E), "reading keeps the bytes");

  // round trip
  tuple<E, S, T> u;
  T x = spec::any_in<T>(S);
  u.template set<0>(x);
  spec::same<T>(u.template get<0>(), x, "round trip");
  va_reach("end");
}

template<typename T, endianess E, signed_mode S, typename It>
void decode_it(const char *id) {
  constexpr unsigned N = sizeof(T);
  std::uint64_t r = any_wire<T>();
  std::uint64_t expected = denoted<T>(r, S);
  byte_t buf[3 * N];
  va_uninit(buf, sizeof buf); // only the bytes of the sequence may be used
  for (unsigned k = 0; k < N; k++)
    buf[3 * k] = spec::byte_at(r, N, k, E);
  auto v = make_view<T>(endianess_h<E>{}, signed_mode_h<S>{}, It(buf));
  va_eq(va::pattern<T>(v.template get<0>()), expected, id);
}

template<typename T, endianess E, signed_mode S>
void decode_iterators() {
  decode_it<T, E, S, io::forward_it<byte_t>>("view over a forward iterator");
  decode_it<T, E, S, io::forward_it<const byte_t>>("view over a constant forward iterator");
  decode_it<T, E, S, io::bidi_it<byte_t>>("view over a bidirectional iterator");
  decode_it<T, E, S, io::random_it<byte_t>>("view over a random access iterator");
  constexpr unsigned N = sizeof(T);
  std::uint64_t r = any_wire<T>();
  std::uint64_t expected = denoted<T>(r, S);
  byte_t buf[N];
  for (unsigned k = 0; k < N; k++)
    buf[N - 1 - k] = spec::byte_at(r, N, k, E);
  auto v = make_view<T>(endianess_h<E>{}, signed_mode_h<S>{}, std::reverse_iterator<const byte_t *>(buf + N));
  va_eq(va::pattern<T>(v.template get<0>()), expected, "view over a reverse iterator");
  va_reach("end");
}

// Serialization primitives
template<typename T, endianess E, signed_mode S>
void primitive_encode() {
  T x = spec::any_in<T>(S);
  constexpr unsigned N = sizeof(T);
  byte_t buf[N];
  detail::write_as<E, S>(x, buf);
  spec::check(x, buf, E, S, "write (pointer)");

  io::any_bytes<N + 3> b2;
  io::any_bytes<N + 3> old(b2);
  detail::write_as<E, S>(x, &b2[0], 2);
  spec::check(x, &b2[2], E, S, "write (pointer, offset)");
  va_eq(b2[0], old[0], "write (offset) keeps the bytes before");
  va_eq(b2[1], old[1], "write (offset) keeps the bytes before");
  va_eq(b2[N + 2], old[N + 2], "write (offset) keeps the byte after");

  byte_t b3[3 * (N + 2)];
  for (byte_t &b : b3)
    b = 0x5a;
  detail::write_as<E, S>(x, io::forward_it<byte_t>(b3), 1);
  byte_t expected[N];
  spec::put(x, expected, E, S);
  for (unsigned i = 0; i < 3 * (N + 2); i++)
    if (i % 3 == 0 && i / 3 >= 1 && i / 3 <= N)
      va_eq(b3[i], expected[i / 3 - 1], "write (iterator, offset)");
    else
      va_eq(b3[i], 0x5a, "write (iterator, offset) keeps the other bytes");
  va_reach("end");
}

template<typename T, endianess E, signed_mode S>
void primitive_decode() {
  constexpr unsigned N = sizeof(T);
  std::uint64_t r = any_wire<T>();
  std::uint64_t expected = denoted<T>(r, S);
  byte_t buf[N + 2];
  va_uninit(buf, sizeof buf);
  for (unsigned k = 0; k < N; k++)
    buf[2 + k] = spec::byte_at(r, N, k, E);
  va_eq(va::pattern<T>(detail::read_as<T, E, S>(buf + 2)), expected, "read (pointer)");
  va_eq(va::pattern<T>(detail::read_as<T, E, S>(const_cast<const byte_t *>(buf), 2)), expected, "read (pointer, offset)");
  byte_t b3[3 * (N + 1)];
  va_uninit(b3, sizeof b3);
  for (unsigned k = 0; k < N; k++)
    b3[3 + 3 * k] = buf[2 + k];
  va_eq(va::pattern<T>(detail::read_as<T, E, S>(io::forward_it<byte_t>(b3), 1)), expected, "read (iterator, offset)");
  va_reach("end");
}

} // namespace suite
