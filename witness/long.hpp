// Functions whose requests and responses take hundreds of bytes.
#pragma once
#include "elems.hpp"
#include <array>
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>

namespace lengthy {
using namespace upd;
constexpr unsigned N = 300, M = 129;
using bytes_t = std::array<std::uint8_t, N>;
using words_t = std::array<std::uint16_t, M>;

extern unsigned calls, which;
unsigned calls, which;
extern bytes_t received, sent;
bytes_t received, sent;
extern words_t words;
words_t words;

inline bytes_t echo(bytes_t x) { // 301 bytes in, 300 bytes out
  calls++;
  which = 0;
  received = x;
  return sent;
}
inline std::uint8_t in(bytes_t x) { // 301 bytes in, 1 byte out
  calls++;
  which = 1;
  received = x;
  return sent[0];
}
inline bytes_t out(std::uint8_t x) { // 2 bytes in, 300 bytes out
  calls++;
  which = 2;
  received[0] = x;
  return sent;
}
inline std::array<std::uint8_t, 256> page() { // 1 byte in, 256 bytes out
  calls++;
  which = 3;
  std::array<std::uint8_t, 256> x;
  for (unsigned i = 0; i < 256; i++)
    x[i] = sent[i];
  return x;
}
inline void take(const words_t &x) { // 259 bytes in, nothing out
  calls++;
  which = 4;
  words = x;
}
#define LENGTHY(F) unevaluated<decltype(&F), &F>
template<endianess E, signed_mode S>
using ring = keyring<E, S, LENGTHY(echo), LENGTHY(in), LENGTHY(out), LENGTHY(page), LENGTHY(take)>;
inline unsigned in_size(unsigned i) { return i < 2 ? N : i == 2 ? 1 : i == 3 ? 0 : 2 * M; }
inline unsigned out_size(unsigned i) { return i == 1 ? 1 : i == 3 ? 256 : i == 4 ? 0 : N; }
} // namespace lengthy
