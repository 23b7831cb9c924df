// Byte sources and sinks of every kind.
#pragma once
#include "va.hpp"
#include <iterator>
#include <upd/type.hpp>

namespace io {

using upd::byte_t;

//! Positions of a sequence whose bytes are not contiguous in memory (every third byte of an array)
template<typename Byte, typename Category>
struct strided {
  using iterator_category = Category;
  using value_type = byte_t;
  using difference_type = std::ptrdiff_t;
  using pointer = Byte *;
  using reference = Byte &;
  Byte *p;
  strided() : p(nullptr) {}
  explicit strided(Byte *p) : p(p) {}
  Byte &operator*() const { return *p; }
  Byte *operator->() const { return p; }
  Byte &operator[](std::ptrdiff_t n) const { return p[3 * n]; }
  strided &operator++() { p += 3; return *this; }
  strided operator++(int) { strided t = *this; p += 3; return t; }
  strided &operator--() { p -= 3; return *this; }
  strided operator--(int) { strided t = *this; p -= 3; return t; }
  strided &operator+=(std::ptrdiff_t n) { p += 3 * n; return *this; }
  strided &operator-=(std::ptrdiff_t n) { p -= 3 * n; return *this; }
  friend strided operator+(strided a, std::ptrdiff_t n) { return strided(a.p + 3 * n); }
  friend strided operator+(std::ptrdiff_t n, strided a) { return strided(a.p + 3 * n); }
  friend strided operator-(strided a, std::ptrdiff_t n) { return strided(a.p - 3 * n); }
  friend std::ptrdiff_t operator-(strided a, strided b) { return (a.p - b.p) / 3; }
  friend bool operator==(strided a, strided b) { return a.p == b.p; }
  friend bool operator!=(strided a, strided b) { return a.p != b.p; }
  friend bool operator<(strided a, strided b) { return a.p < b.p; }
};

template<typename Byte>
using forward_it = strided<Byte, std::forward_iterator_tag>;
template<typename Byte>
using bidi_it = strided<Byte, std::bidirectional_iterator_tag>;
template<typename Byte>
using random_it = strided<Byte, std::random_access_iterator_tag>;

//! Single-pass source: counts what it yields
struct source {
  const byte_t *p;
  unsigned n;
  explicit source(const byte_t *p) : p(p), n(0) {}
  byte_t operator()() { return p[n++]; }
};

//! Single-pass sink
struct sink {
  byte_t *p;
  unsigned n;
  explicit sink(byte_t *p) : p(p), n(0) {}
  void operator()(byte_t b) { p[n++] = b; }
};

//! Input iterator over a single-pass stream
struct input_it {
  using iterator_category = std::input_iterator_tag;
  using value_type = byte_t;
  using difference_type = std::ptrdiff_t;
  using pointer = const byte_t *;
  using reference = byte_t;
  source *s;
  struct proxy {
    byte_t b;
    byte_t operator*() const { return b; }
  };
  byte_t operator*() const { return s->p[s->n]; }
  input_it &operator++() { s->n++; return *this; }
  proxy operator++(int) { proxy r{s->p[s->n]}; s->n++; return r; }
  friend bool operator==(input_it a, input_it b) { return a.s->n == b.s->n; }
  friend bool operator!=(input_it a, input_it b) { return a.s->n != b.s->n; }
};

//! Output iterator over a single-pass stream
struct output_it {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = void;
  using pointer = void;
  using reference = void;
  sink *s;
  output_it &operator*() { return *this; }
  output_it &operator++() { return *this; }
  output_it &operator++(int) { return *this; }
  output_it &operator=(byte_t b) { (*s)(b); return *this; }
};

//! Bytes with any content
template<unsigned N>
struct any_bytes {
  byte_t b[N];
  any_bytes() {
    for (unsigned i = 0; i < N; i++)
      b[i] = va_u8();
  }
  byte_t &operator[](unsigned i) { return b[i]; }
  const byte_t &operator[](unsigned i) const { return b[i]; }
};

} // namespace io
