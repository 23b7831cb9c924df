// Keyrings of various shapes: requests longer than responses, responses longer than requests, nothing at all...
#pragma once
#include "spec.hpp"
#include <array>
#include <upd/buffered_dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
#include <upd/tuple.hpp>

//! 1 byte in memory, 16 on the wire
struct spread_t {
  std::uint8_t v;
};
template<>
struct upd_extension<spread_t> {
  template<typename View>
  static void serialize(const spread_t &x, View &view) {
    upd::set<0>(view, x.v);
    upd::set<1>(view, 1);
  }
  static spread_t unserialize(std::uint64_t v, std::uint64_t) { return {static_cast<std::uint8_t>(v)}; }
};
//! 1 byte in memory, 4 on the wire
struct slim_t {
  std::uint8_t v;
};
template<>
struct upd_extension<slim_t> {
  template<typename View>
  static void serialize(const slim_t &x, View &view) {
    view.template set<0>(x.v);
  }
  static slim_t unserialize(std::uint32_t v) { return {static_cast<std::uint8_t>(v)}; }
};

namespace shapes {
using namespace upd;

extern std::uint64_t value;
std::uint64_t value;
template<typename R, typename... Args>
R f(Args...) {
  return static_cast<R>(value);
}
template<>
void f<void>() {}
template<typename R, typename... Args>
using h = unevaluated<R (*)(Args...), &f<R, Args...>>;
using a16 = std::array<std::uint8_t, 16>;
inline void v0() {}
inline void v1() {}
inline void v8(std::uint64_t) {}
inline void v3(std::uint8_t, std::uint16_t) {}
inline a16 r16() { return a16{}; }
inline void sink4(std::array<byte_t, 4>) {}
inline void sink16(a16) {}

inline slim_t small(slim_t, slim_t) { return {static_cast<std::uint8_t>(value)}; }
inline void smaller(slim_t) {}
inline spread_t spread(std::uint8_t) { return {static_cast<std::uint8_t>(value)}; }
inline spread_t respread(spread_t) { return {static_cast<std::uint8_t>(value)}; }

template<typename... Hs>
struct ring {
  template<endianess E>
  using type = keyring<E, spec::TC, Hs...>;
};
#define SHAPES_H(F) unevaluated<decltype(F) *, &F>
struct longer_requests : ring<h<std::uint8_t, std::uint64_t>, h<std::uint16_t, std::uint8_t, std::uint32_t>, SHAPES_H(v8)> {
  static constexpr unsigned n = 3, longest = 9;
  static unsigned in(unsigned i) { return i == 0 ? 8 : i == 1 ? 5 : 8; }
  static unsigned out(unsigned i) { return i == 0 ? 1 : i == 1 ? 2 : 0; }
};
struct longer_responses : ring<h<std::uint64_t>, h<std::uint32_t, std::uint8_t>, SHAPES_H(v0), h<std::uint64_t, std::uint16_t>> {
  static constexpr unsigned n = 4, longest = 10;
  static unsigned in(unsigned i) { return i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 0 : 2; }
  static unsigned out(unsigned i) { return i == 0 ? 8 : i == 1 ? 4 : i == 2 ? 0 : 8; }
};
struct nothing : ring<SHAPES_H(v0), SHAPES_H(v1)> {
  static constexpr unsigned n = 2, longest = 0;
  static unsigned in(unsigned) { return 0; }
  static unsigned out(unsigned) { return 0; }
};
struct requests_only : ring<SHAPES_H(v3), SHAPES_H(v8)> {
  static constexpr unsigned n = 2, longest = 8;
  static unsigned in(unsigned i) { return i == 0 ? 3 : 8; }
  static unsigned out(unsigned) { return 0; }
};
struct responses_only : ring<h<std::uint8_t>, h<std::uint32_t>> {
  static constexpr unsigned n = 2, longest = 4;
  static unsigned in(unsigned) { return 0; }
  static unsigned out(unsigned i) { return i == 0 ? 1 : 4; }
};
struct arrays : ring<SHAPES_H(r16), SHAPES_H(v3), SHAPES_H(sink4)> {
  static constexpr unsigned n = 3, longest = 16;
  static unsigned in(unsigned i) { return i == 0 ? 0 : i == 1 ? 3 : 4; }
  static unsigned out(unsigned i) { return i == 0 ? 16 : 0; }
};
struct last_is_longest : ring<h<std::uint8_t>, h<std::uint8_t, std::uint8_t>, h<std::uint16_t, std::uint16_t>, h<std::uint64_t, std::uint64_t>> {
  static constexpr unsigned n = 4, longest = 16;
  static unsigned in(unsigned i) { return i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 2 : 8; }
  static unsigned out(unsigned i) { return i == 0 ? 1 : i == 1 ? 1 : i == 2 ? 2 : 8; }
};
struct extended_requests : ring<SHAPES_H(smaller), SHAPES_H(small)> {
  static constexpr unsigned n = 2, longest = 8;
  static unsigned in(unsigned i) { return i == 0 ? 4 : 8; }
  static unsigned out(unsigned i) { return i == 0 ? 0 : 4; }
};
struct extended_responses : ring<SHAPES_H(v3), SHAPES_H(spread), SHAPES_H(respread)> {
  static constexpr unsigned n = 3, longest = 16;
  static unsigned in(unsigned i) { return i == 0 ? 3 : i == 1 ? 1 : 16; }
  static unsigned out(unsigned i) { return i == 0 ? 0 : 16; }
};

} // namespace shapes
