// User-extended types: larger, smaller, padded, virtual, nested.
#pragma once
#include "elems.hpp"
#include <upd/tuple.hpp>

//! 12 bytes in memory, 7 on the wire
struct padded_t {
  std::uint8_t a;
  std::int32_t b;
  std::uint16_t c;
};
template<>
struct upd_extension<padded_t> {
  template<typename View>
  static void serialize(const padded_t &x, View &view) {
    upd::set<0>(view, x.a);
    upd::set<1>(view, x.b);
    upd::set<2>(view, x.c);
  }
  static padded_t unserialize(std::uint8_t a, std::int32_t b, std::uint16_t c) { return {a, b, c}; }
};
//! 1 byte in memory, 4 on the wire
struct small_t {
  std::uint8_t v;
};
template<>
struct upd_extension<small_t> {
  template<typename View>
  static void serialize(const small_t &x, View &view) {
    view.template set<0>(static_cast<std::uint32_t>(x.v) + 1000u);
  }
  static small_t unserialize(std::uint32_t v) { return {static_cast<std::uint8_t>(v - 1000u)}; }
};
//! 2 bytes in memory, 2 on the wire, laid through a tuple of another format
struct same_t {
  std::int16_t v;
};
template<>
struct upd_extension<same_t> {
  template<typename View>
  static void serialize(const same_t &x, View &view) {
    view = upd::make_tuple(upd::little_endian, upd::twos_complement, x.v);
  }
  static same_t unserialize(std::int16_t v) { return {v}; }
};
//! Extension built from another one: 9 bytes on the wire
struct nested_t {
  same_t first;
  padded_t second;
};
template<>
struct upd_extension<nested_t> {
  template<typename View>
  static void serialize(const nested_t &x, View &view) {
    view.template set<0>(x.first);
    view.template set<1>(x.second);
  }
  static nested_t unserialize(same_t a, padded_t b) { return {a, b}; }
};

namespace el {
template<>
struct elem<padded_t> {
  static constexpr unsigned size = 7;
  static void any(padded_t &x, signed_mode s, sign_t g = FREE) {
    elem<std::uint8_t>::any(x.a, s, g);
    elem<std::int32_t>::any(x.b, s, g);
    elem<std::uint16_t>::any(x.c, s, g);
  }
  static void put(const padded_t &x, byte_t *p, endianess e, signed_mode s) {
    spec::put(x.a, p, e, s);
    spec::put(x.b, p + 1, e, s);
    spec::put(x.c, p + 5, e, s);
  }
  static void same(const padded_t &x, const padded_t &y, const char *id) {
    spec::same(x.a, y.a, id);
    spec::same(x.b, y.b, id);
    spec::same(x.c, y.c, id);
  }
};
template<>
struct elem<small_t> {
  static constexpr unsigned size = 4;
  static void any(small_t &x, signed_mode s, sign_t g = FREE) { elem<std::uint8_t>::any(x.v, s, g); }
  static void put(const small_t &x, byte_t *p, endianess e, signed_mode s) {
    spec::put(static_cast<std::uint32_t>(x.v) + 1000u, p, e, s);
  }
  static void same(const small_t &x, const small_t &y, const char *id) { spec::same(x.v, y.v, id); }
};
template<>
struct elem<same_t> {
  static constexpr unsigned size = 2;
  static void any(same_t &x, signed_mode s, sign_t g = FREE) { elem<std::int16_t>::any(x.v, s, g); }
  static void put(const same_t &x, byte_t *p, endianess e, signed_mode s) { spec::put(x.v, p, e, s); }
  static void same(const same_t &x, const same_t &y, const char *id) { spec::same(x.v, y.v, id); }
};
template<>
struct elem<nested_t> {
  static constexpr unsigned size = 9;
  static void any(nested_t &x, signed_mode s, sign_t g = FREE) {
    elem<same_t>::any(x.first, s, g == FREE ? POS : g);
    elem<padded_t>::any(x.second, s, g);
  }
  static void put(const nested_t &x, byte_t *p, endianess e, signed_mode s) {
    elem<same_t>::put(x.first, p, e, s);
    elem<padded_t>::put(x.second, p + 2, e, s);
  }
  static void same(const nested_t &x, const nested_t &y, const char *id) {
    elem<same_t>::same(x.first, y.first, id);
    elem<padded_t>::same(x.second, y.second, id);
  }
};
} // namespace el
