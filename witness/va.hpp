// Vocabulary of the analysis (see engine/va.cpp). These functions have no definition: the analyser gives them meaning.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
std::uint8_t va_u8() noexcept;   // any value
std::uint16_t va_u16() noexcept; //
std::uint32_t va_u32() noexcept; //
std::uint64_t va_u64() noexcept; //
bool va_any() noexcept;          // any outcome
bool va_more() noexcept;         // any outcome; head of a loop over arbitrary histories
void va_assume(bool) noexcept;   // restrict the inputs
void va_check(bool, const char *) noexcept;                            // obligation
void va_eq(std::uint64_t, std::uint64_t, const char *) noexcept;       // obligation: got, expected
void va_reach(const char *) noexcept;                                  // this point is reached (anti-vacuity)
void va_unreachable(const char *) noexcept;                            // obligation: this point is never reached
unsigned va_allocs() noexcept;                                         // number of dynamic allocations so far
unsigned va_live() noexcept;                                           // number of live dynamic allocations
void va_uninit(void *, std::size_t) noexcept;                          // as if never written
void va_havoc(void *, std::size_t) noexcept;                           // any content, forgotten
void va_blur(void *, std::size_t) noexcept;                             // generalisation: the byte arrays within hold any bytes
unsigned va_undef(const void *, std::size_t) noexcept;                 // number of bits never written
void va_readonly(void *, bool) noexcept;                               // writes to the object are violations
void va_context(unsigned) noexcept;                                    // 1 and 2: activity of two contexts; 0: neither; 3: forget it
void va_disjoint(const char *) noexcept;                               // obligation: neither context writes what the other accesses
void va_budget(unsigned long, unsigned long) noexcept;                 // obligation: at most so many instructions, bytes of stack
void va_budget_end(const char *) noexcept;                             // up to this point
}

#define VA_PROP(NAME) extern "C" void prop_##NAME()

namespace va {

template<typename T, std::size_t N = sizeof(T)>
struct any_impl;
template<typename T>
struct any_impl<T, 1> {
  static T get() { return static_cast<T>(va_u8()); }
};
template<typename T>
struct any_impl<T, 2> {
  static T get() { return static_cast<T>(va_u16()); }
};
template<typename T>
struct any_impl<T, 4> {
  static T get() { return static_cast<T>(va_u32()); }
};
template<typename T>
struct any_impl<T, 8> {
  static T get() { return static_cast<T>(va_u64()); }
};
template<>
struct any_impl<bool, 1> {
  static bool get() { return va_u8() & 1; }
};

//! Any value of an integer type
template<typename T>
T any() {
  return any_impl<T>::get();
}

//! Bit pattern of an integer of the host as an unsigned 64-bit value, truncated to the size of the type
template<typename T>
std::uint64_t pattern(T x) {
  return static_cast<std::uint64_t>(x) & (sizeof(T) >= 8 ? ~0ull : ((1ull << (8 * (sizeof(T) & 7))) - 1));
}

} // namespace va
