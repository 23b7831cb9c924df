// C05: views alias exactly their byte range.
#include "elems.hpp"
#include <upd/tuple.hpp>
using namespace upd;
using namespace el;

// Layouts of bytes: how to make an iterator over `buf` designating position k, and where position k is
struct by_pointer {
  using it = byte_t *;
  using cit = const byte_t *;
  static constexpr unsigned stride = 1;
  static it at(byte_t *b) { return b; }
  static cit cat(const byte_t *b) { return b; }
};
template<template<typename> class It>
struct by_strided {
  using it = It<byte_t>;
  using cit = It<const byte_t>;
  static constexpr unsigned stride = 3;
  static it at(byte_t *b) { return it(b); }
  static cit cat(const byte_t *b) { return cit(b); }
};

template<typename L, endianess E, signed_mode S, typename... Ts>
struct views {
  static constexpr unsigned N = values<Ts...>::size;
  static constexpr unsigned M = 2; // bytes around

  template<unsigned I>
  static void write() {
    using X = typename nth<I, Ts...>::type;
    constexpr unsigned off = nth<I, Ts...>::offset, n = elem<X>::size, st = L::stride;
    struct {
      X v;
    } x;
    elem<X>::any(x.v, S);
    byte_t e[n];
    elem<X>::put(x.v, e, E, S);
    constexpr unsigned total = st * (N + 2 * M);
    byte_t buf[total], old[total];
    for (unsigned i = 0; i < total; i++)
      old[i] = buf[i] = va_u8();
    auto v = upd::make_view<Ts...>(endianess_h<E>{}, signed_mode_h<S>{}, L::at(buf + st * M));
    v.template set<I>(x.v);
    for (unsigned i = 0; i < total; i++) {
      unsigned k = i / st;
      if (i % st == 0 && k >= M + off && k < M + off + n)
        va_eq(buf[i], e[k - M - off], "writing through a view encodes in place");
      else
        va_eq(buf[i], old[i], "writing through a view touches nothing else");
    }
    // a copy of the view is bound to the same bytes
    auto w = v;
    struct {
      X v;
    } y;
    elem<X>::any(y.v, S, POS);
    upd::set<I>(w, y.v);
    elem<X>::same(v.template get<I>(), y.v, "a copy of a view aliases the same bytes");
    va_reach("write");
  }

  template<unsigned I>
  static void read() {
    using X = typename nth<I, Ts...>::type;
    constexpr unsigned off = nth<I, Ts...>::offset, n = elem<X>::size, st = L::stride;
    struct {
      X v;
    } x;
    elem<X>::any(x.v, S);
    byte_t e[n];
    elem<X>::put(x.v, e, E, S);
    constexpr unsigned total = st * (N + 2 * M);
    byte_t buf[total];
    va_uninit(buf, total);
    auto v = upd::make_view<Ts...>(endianess_h<E>{}, signed_mode_h<S>{}, L::at(buf + st * M));
    auto c = upd::make_view<Ts...>(endianess_h<E>{}, signed_mode_h<S>{}, L::cat(buf + st * M));
    // the bytes are written after the view is bound
    for (unsigned k = 0; k < n; k++)
      buf[st * (M + off + k)] = e[k];
    va_readonly(buf, true);
    elem<X>::same(v.template get<I>(), x.v, "reading through a view sees the current bytes of that range only");
    elem<X>::same(c.template get<I>(), x.v, "reading through a constant view sees the current bytes of that range only");
    elem<X>::same(upd::get<I>(c), x.v, "free get() on a view");
    va_readonly(buf, false);
    va_check(v.begin() == L::at(buf + st * M), "begin() of a view");
    va_check(v.end() == L::at(buf + st * (M + N)), "end() of a view");
    va_check(c.begin() == L::cat(buf + st * M), "begin() of a constant view");
    va_check(c.end() == L::cat(buf + st * (M + N)), "end() of a constant view");
    va_eq(decltype(v)::size, N, "size of a view");
    va_reach("read");
  }

  static void each(seq<>) { va_assume(false); }
  template<unsigned I, unsigned... Is>
  static void each(seq<I, Is...>) {
    if (va_any())
      write<I>();
    else if (va_any())
      read<I>();
    else
      each(seq<Is...>{});
  }

  static void run() { each(make<sizeof...(Ts)>{}); }
};

template<endianess E, signed_mode S, typename... Ts>
struct ptr : views<by_pointer, E, S, Ts...> {};
template<endianess E, signed_mode S, typename... Ts>
struct rnd : views<by_strided<io::random_it>, E, S, Ts...> {};
template<endianess E, signed_mode S, typename... Ts>
struct bid : views<by_strided<io::bidi_it>, E, S, Ts...> {};

#define LISTS(X, P)                                                                                                    \
  X(P##__mixed, std::uint8_t, std::int16_t, std::uint32_t, std::int64_t)                                               \
  X(P##__arrays, std::int8_t, std::uint16_t[3], std::array<std::int16_t, 2>, std::uint8_t)
#define X(N, ...) EL_FORMATS(ptr, N, __VA_ARGS__)
LISTS(X, pointer)
#undef X
#define X(N, ...) EL_FORMATS(rnd, N, __VA_ARGS__)
LISTS(X, random)
#undef X
#define X(N, ...) EL_FORMATS(bid, N, __VA_ARGS__)
LISTS(X, bidi)
#undef X

// reverse iterators: the sequence is laid backwards
template<endianess E, signed_mode S>
void reversed() {
  std::int32_t x = spec::any_in<std::int32_t>(S);
  std::uint16_t y = va_u16();
  byte_t e[6], buf[8], old[8];
  spec::put(y, e, E, S);
  spec::put(x, e + 2, E, S);
  for (unsigned i = 0; i < 8; i++)
    old[i] = buf[i] = va_u8();
  auto v = upd::make_view<std::uint16_t, std::int32_t>(endianess_h<E>{}, signed_mode_h<S>{}, std::reverse_iterator<byte_t *>(buf + 7));
  v.template set<1>(x);
  v.template set<0>(y);
  for (unsigned k = 0; k < 6; k++)
    va_eq(buf[6 - k], e[k], "writing backwards");
  va_eq(buf[0], old[0], "writing backwards keeps the byte after");
  va_eq(buf[7], old[7], "writing backwards keeps the byte before");
  spec::same<std::int32_t>(v.template get<1>(), x, "reading backwards");
  spec::same<std::uint16_t>(v.template get<0>(), y, "reading backwards");
  va_reach("end");
}

// slices of a tuple
template<endianess E, signed_mode S>
struct slices {
  using A = std::uint16_t[2];
  using T = tuple<E, S, std::uint8_t, std::int32_t, A, std::int16_t>;
  static constexpr unsigned N = 11;
  template<unsigned I>
  static constexpr unsigned off() {
    return nth<I, std::uint8_t, std::int32_t, A, std::int16_t, char>::offset;
  }

  template<unsigned I, unsigned L>
  static void one() {
    T t;
    byte_t old[N];
    for (unsigned i = 0; i < N; i++)
      old[i] = t[i] = va_u8();
    const T &ct = t;
    auto v = t.template view<I, L>();
    auto c = ct.template view<I, L>();
    auto f = upd::make_view<I, L>(t);
    auto g = upd::make_view<I, L>(ct);
    constexpr unsigned from = off<I>(), to = off<I + L>();
    va_check(v.begin() == t.begin() + from && f.begin() == t.begin() + from, "a slice starts at its first element");
    va_check(c.begin() == ct.begin() + from && g.begin() == ct.begin() + from, "a constant slice starts at its first element");
    va_check(v.end() == t.begin() + to && f.end() == t.begin() + to, "a slice ends after its last element");
    va_check(c.end() == ct.begin() + to && g.end() == ct.begin() + to, "a constant slice ends after its last element");
    va_eq(decltype(v)::size, to - from, "size of a slice");
    va_eq(std::tuple_size<decltype(v)>::value, L, "number of elements of a slice");
    inner<I, L>(v, c, f, g, t, old);
    va_reach("slice");
  }
  // first and last element of the slice
  template<unsigned I, unsigned L, typename V, typename C, typename F, typename G>
  static void inner(V &v, C &c, F &f, G &g, T &t, const byte_t *old) {
    access<I, 0>(v, c, f, g, t, old);
    if (L > 1) {
      for (unsigned i = 0; i < N; i++)
        t[i] = old[i];
      access<I, L - 1>(v, c, f, g, t, old);
    }
  }
  template<unsigned I, unsigned K, typename V, typename C, typename F, typename G>
  static void access(V &v, C &c, F &f, G &g, T &t, const byte_t *old) {
    using X = typename nth<I + K, std::uint8_t, std::int32_t, A, std::int16_t>::type;
    constexpr unsigned o = off<I + K>(), n = elem<X>::size;
    struct {
      X v;
    } x, y;
    elem<X>::any(x.v, S);
    elem<X>::any(y.v, S, POS);
    byte_t e[n];
    elem<X>::put(x.v, e, E, S);
    v.template set<K>(x.v);
    keep(t.begin(), old, 0, o, "a slice keeps the elements before");
    keep(t.begin() + o, e, 0, n, "a slice writes its own element");
    keep(t.begin(), old, o + n, N, "a slice keeps the elements after");
    elem<X>::same(t.template get<I + K>(), x.v, "the tuple sees what was written through its slice");
    t.template set<I + K>(y.v);
    elem<X>::same(v.template get<K>(), y.v, "a slice sees what the tuple holds");
    elem<X>::same(c.template get<K>(), y.v, "a constant slice sees what the tuple holds");
    elem<X>::same(f.template get<K>(), y.v, "a slice (free function) sees what the tuple holds");
    elem<X>::same(g.template get<K>(), y.v, "a constant slice (free function) sees what the tuple holds");
  }
  static void run() {
    if (va_any())
      one<0, 1>();
    else if (va_any())
      one<0, 2>();
    else if (va_any())
      one<0, 4>();
    else if (va_any())
      one<1, 1>();
    else if (va_any())
      one<1, 3>();
    else if (va_any())
      one<2, 1>();
    else if (va_any())
      one<2, 2>();
    else
      one<3, 1>();
  }
};

// assigning through a view
template<endianess E, signed_mode S>
void assign() {
  byte_t buf[11], old[11], e[7];
  for (unsigned i = 0; i < 11; i++)
    old[i] = buf[i] = va_u8();
  std::int32_t x = spec::any_in<std::int32_t>(S);
  std::uint16_t y = va_u16();
  std::int8_t z;
  elem<std::int8_t>::any(z, S, POS);
  spec::put(x, e, E, S);
  spec::put(y, e + 4, E, S);
  spec::put(z, e + 6, E, S);
  tuple<E, S, std::int32_t, std::uint16_t, std::int8_t> t{x, y, z};
  auto v = upd::make_view<std::int32_t, std::uint16_t, std::int8_t>(endianess_h<E>{}, signed_mode_h<S>{}, buf + 2);
  v = static_cast<decltype(t) &&>(t);
  keep(buf, old, 0, 2, "assigning to a view keeps the bytes before");
  keep(buf + 2, e, 0, 7, "assigning to a view writes the range");
  keep(buf, old, 9, 11, "assigning to a view keeps the bytes after");
  va_reach("end");
}

// Views of more than 255 bytes
template<typename L, endianess E, signed_mode S>
struct large {
  using A = std::uint8_t[200];
  using B = std::uint8_t[100];
  static constexpr unsigned N = 307, st = L::stride;
  //! The last element, and the bytes which an 8 bit offset would designate instead
  template<typename V>
  static void last(V &v, byte_t *buf) {
    std::uint32_t x = va_u32();
    byte_t e[4], u[4];
    spec::put(x, e, E, S);
    for (unsigned i = 0; i < 4; i++)
      buf[st * (303 - 256 + i)] = u[i] = va_u8();
    v.template set<3>(x);
    for (unsigned i = 0; i < 4; i++) {
      va_eq(buf[st * (303 + i)], e[i], "writing far in a view");
      va_eq(buf[st * (303 - 256 + i)], u[i], "writing far in a view touches nothing else");
    }
    spec::same<std::uint32_t>(v.template get<3>(), x, "reading far in a view");
  }
  template<typename V>
  static void middle(V &v, byte_t *buf) {
    std::int16_t x = spec::any_in<std::int16_t>(S);
    byte_t e[2];
    spec::put(x, e, E, S);
    v.template set<1>(x);
    for (unsigned i = 0; i < 2; i++)
      va_eq(buf[st * (200 + i)], e[i], "writing far in a view");
    spec::same<std::int16_t>(v.template get<1>(), x, "reading far in a view");
  }
  static void run() {
    byte_t buf[st * (N + 1)];
    va_uninit(buf, st * (N + 1));
    auto v = upd::make_view<A, std::int16_t, bool[101], std::uint32_t>(endianess_h<E>{}, signed_mode_h<S>{}, L::at(buf));
    auto c = upd::make_view<A, std::int16_t, bool[101], std::uint32_t>(endianess_h<E>{}, signed_mode_h<S>{}, L::cat(buf));
    va_eq(static_cast<std::uint64_t>(decltype(v)::size), N, "size of a view");
    va_check(v.begin() == L::at(buf), "begin() of a view");
    va_check(c.begin() == L::cat(buf), "begin() of a constant view");
    auto e = L::at(buf);
    auto f = L::cat(buf);
    for (unsigned i = 0; i < N; i++) {
      ++e;
      ++f;
    }
    va_check(v.end() == e, "end() of a view");
    va_check(c.end() == f, "end() of a constant view");
    if (va_any())
      last(v, buf);
    else if (va_any())
      middle(v, buf);
    else if (va_any()) {
      unsigned k = va_any() ? 0 : va_any() ? 99 : 100;
      bool x[101];
      for (unsigned i = 0; i < 101; i++)
        x[i] = i == k;
      v.template set<2>(x);
      for (unsigned i = 0; i < 101; i++)
        va_eq(buf[st * (202 + i)], i == k, "writing far in a view");
    } else {
      tuple<E, S, std::uint8_t, A, std::int16_t, B, std::uint32_t> t;
      auto w = t.template view<2, 3>();
      const auto &ct = t;
      auto d = ct.template view<2, 3>();
      va_check(w.begin() == t.begin() + 201 && w.end() == t.begin() + 307, "bounds of a slice");
      va_check(d.begin() == ct.begin() + 201 && d.end() == ct.begin() + 307, "bounds of a constant slice");
      auto all = t.template view<0, 5>();
      va_check(all.begin() == t.begin() && all.end() == t.begin() + 307, "bounds of a slice");
      std::uint32_t x = va_u32();
      byte_t b[4];
      spec::put(x, b, E, S);
      w.template set<2>(x);
      keep(t.begin() + 303, b, 0, 4, "writing far in a slice");
      spec::same<std::uint32_t>(d.template get<2>(), x, "reading far in a slice");
    }
    va_reach("end");
  }
};

#define VIEW_MORE(E, S)                                                                                                \
  VA_PROP(slices__##E##_##S) { slices<spec::E, spec::S>::run(); }                                                      \
  VA_PROP(reversed__##E##_##S) { reversed<spec::E, spec::S>(); }                                                       \
  VA_PROP(assign__##E##_##S) { assign<spec::E, spec::S>(); }
VIEW_MORE(LE, SM) VIEW_MORE(BE, SM) VIEW_MORE(LE, OC) VIEW_MORE(BE, OC)
VIEW_MORE(LE, TC) VIEW_MORE(BE, TC) VIEW_MORE(LE, OB) VIEW_MORE(BE, OB)
VA_PROP(large_pointer__LE) { large<by_pointer, spec::LE, spec::TC>::run(); }
VA_PROP(large_pointer__BE) { large<by_pointer, spec::BE, spec::SM>::run(); }
VA_PROP(large_strided__LE) { large<by_strided<io::random_it>, spec::LE, spec::OC>::run(); }
VA_PROP(large_strided__BE) { large<by_strided<io::bidi_it>, spec::BE, spec::TC>::run(); }
