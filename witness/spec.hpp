// Independent statement of the wire format (nothing here comes from the library but the enumerators).
#pragma once
#include "va.hpp"
#include <type_traits>
#include <upd/format.hpp>
#include <upd/type.hpp>

namespace spec {

using upd::endianess;
using upd::signed_mode;

constexpr auto LE = upd::endianess::LITTLE;
constexpr auto BE = upd::endianess::BIG;
constexpr auto SM = upd::signed_mode::SIGNED_MAGNITUDE;
constexpr auto OC = upd::signed_mode::ONES_COMPLEMENT;
constexpr auto TC = upd::signed_mode::TWOS_COMPLEMENT;
constexpr auto OB = upd::signed_mode::OFFSET_BINARY;

constexpr std::uint64_t mask(unsigned n) { return n >= 8 ? ~0ull : ((1ull << (8 * (n & 7))) - 1); }
constexpr std::uint64_t sign(unsigned n) { return 1ull << (8 * n - 1); }

//! Number on the wire (as an unsigned n-byte number) of the integer whose two's complement pattern is `u`
inline std::uint64_t wire(std::uint64_t u, unsigned n, bool is_signed, signed_mode s) {
  if (!is_signed)
    return u;
  bool neg = (u & sign(n)) != 0;
  switch (s) {
  case signed_mode::SIGNED_MAGNITUDE: return neg ? ((0 - u) & mask(n)) | sign(n) : u;
  case signed_mode::ONES_COMPLEMENT: return neg ? (u - 1) & mask(n) : u;
  case signed_mode::TWOS_COMPLEMENT: return u;
  default: return (u + sign(n)) & mask(n);
  }
}

//! Two's complement pattern of the integer represented by the number `r` on the wire
inline std::uint64_t unwire(std::uint64_t r, unsigned n, bool is_signed, signed_mode s) {
  if (!is_signed)
    return r;
  bool neg = (r & sign(n)) != 0;
  switch (s) {
  case signed_mode::SIGNED_MAGNITUDE: return neg ? (0 - (r & ~sign(n))) & mask(n) : r;
  case signed_mode::ONES_COMPLEMENT: return neg ? (r + 1) & mask(n) : r;
  case signed_mode::TWOS_COMPLEMENT: return r;
  default: return (r - sign(n)) & mask(n);
  }
}

//! k-th byte in transmission order of the n-byte number `r`
inline upd::byte_t byte_at(std::uint64_t r, unsigned n, unsigned k, endianess e) {
  return static_cast<upd::byte_t>(r >> (8 * (e == endianess::LITTLE ? k : n - 1 - k)));
}

//! Can the integer be represented in that mode? (sign-magnitude and one's complement miss the lowest value)
template<typename T>
bool representable(T x, signed_mode s) {
  if (!std::is_signed<T>::value || s == signed_mode::TWOS_COMPLEMENT || s == signed_mode::OFFSET_BINARY)
    return true;
  return va::pattern(x) != sign(sizeof(T));
}

//! Any value of T which can be represented in that mode
template<typename T>
T any_in(signed_mode s) {
  T x = va::any<T>();
  va_assume(representable(x, s));
  return x;
}

template<typename T>
std::uint64_t wire_of(T x, signed_mode s) {
  return wire(va::pattern(x), sizeof(T), std::is_signed<T>::value, s);
}

//! Write the specified encoding of `x`; returns the number of bytes
template<typename T>
unsigned put(T x, upd::byte_t *p, endianess e, signed_mode s) {
  std::uint64_t r = wire_of(x, s);
  for (unsigned k = 0; k < sizeof(T); k++)
    p[k] = byte_at(r, sizeof(T), k, e);
  return sizeof(T);
}

//! The bytes at p are the specified encoding of `x`
template<typename T>
unsigned check(T x, const upd::byte_t *p, endianess e, signed_mode s, const char *id) {
  std::uint64_t r = wire_of(x, s);
  for (unsigned k = 0; k < sizeof(T); k++)
    va_eq(p[k], byte_at(r, sizeof(T), k, e), id);
  return sizeof(T);
}

template<typename T>
void same(T got, T expected, const char *id) {
  va_eq(va::pattern(got), va::pattern(expected), id);
}

} // namespace spec

// Instantiate a template entry ENTRY<T, E, S>() for the whole matrix of integer types and serialization parameters.
#define VA_E2(P, ENTRY, T, N, S)                                                                                       \
  VA_PROP(P##__##N##_LE_##S) { ENTRY<T, spec::LE, spec::S>(); }                                                        \
  VA_PROP(P##__##N##_BE_##S) { ENTRY<T, spec::BE, spec::S>(); }
#define VA_S4(P, ENTRY, T, N)                                                                                          \
  VA_E2(P, ENTRY, T, N, SM) VA_E2(P, ENTRY, T, N, OC) VA_E2(P, ENTRY, T, N, TC) VA_E2(P, ENTRY, T, N, OB)
#define VA_UNSIGNED(P, ENTRY)                                                                                          \
  VA_S4(P, ENTRY, std::uint8_t, u8)                                                                                    \
  VA_S4(P, ENTRY, std::uint16_t, u16)                                                                                  \
  VA_S4(P, ENTRY, std::uint32_t, u32)                                                                                  \
  VA_S4(P, ENTRY, std::uint64_t, u64)
#define VA_SIGNED(P, ENTRY)                                                                                            \
  VA_S4(P, ENTRY, std::int8_t, i8)                                                                                     \
  VA_S4(P, ENTRY, std::int16_t, i16)                                                                                   \
  VA_S4(P, ENTRY, std::int32_t, i32)                                                                                   \
  VA_S4(P, ENTRY, std::int64_t, i64)
#define VA_OTHERS(P, ENTRY)                                                                                            \
  VA_E2(P, ENTRY, bool, bool, TC)                                                                                      \
  VA_E2(P, ENTRY, bool, bool, OB)                                                                                      \
  VA_S4(P, ENTRY, char, char)                                                                                          \
  VA_S4(P, ENTRY, wchar_t, wchar)                                                                                      \
  VA_E2(P, ENTRY, char16_t, char16, TC)                                                                                \
  VA_E2(P, ENTRY, char32_t, char32, SM)                                                                                \
  VA_S4(P, ENTRY, long, long)                                                                                          \
  VA_S4(P, ENTRY, long long, llong)                                                                                    \
  VA_E2(P, ENTRY, unsigned long long, ullong, TC)
#define VA_MATRIX(P, ENTRY) VA_UNSIGNED(P, ENTRY) VA_SIGNED(P, ENTRY)
