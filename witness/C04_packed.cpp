// C04: tuples are packed and their elements independent.
#include "elems.hpp"
#include <upd/tuple.hpp>
using namespace upd;
using namespace el;

template<endianess E, signed_mode S, typename... Ts>
struct packed {
  using T = tuple<E, S, Ts...>;
  static constexpr unsigned N = values<Ts...>::size;

  template<unsigned... Is>
  static void build(seq<Is...>, sign_t g, unsigned free) {
    values<Ts...> v;
    v.any(S, g, free);
    byte_t expected[N];
    v.put(expected, E, S);
    T t{nth<Is, Ts...>::get(v)...};
    va_eq(T::size, N, "size is the sum of the sizes");
    va_eq(t.end() - t.begin(), N, "extent of the storage");
    va_eq(sizeof(t), N, "no padding in the object");
    for (unsigned i = 0; i < N; i++) {
      va_eq(t[i], expected[i], "storage is the concatenation of the encodings");
      va_eq(t.begin()[i], expected[i], "bytes from begin()");
    }
    const T &ct = t;
    for (unsigned i = 0; i < N; i++)
      va_eq(ct[i], expected[i], "bytes of a constant tuple");
    auto m = upd::make_tuple(endianess_h<E>{}, signed_mode_h<S>{}, nth<Is, Ts...>::get(v)...);
    unsigned i = 0;
    for (byte_t b : m)
      va_eq(b, expected[i++], "iteration over the bytes");
    va_eq(i, N, "number of bytes iterated");
    EL_EACH(elem<Ts>::same(ct.template get<Is>(), nth<Is, Ts...>::get(v), "elements read back after construction"));

    // last stored, in any order of storing
    values<Ts...> w;
    w.any(S, g == POS ? NEG : POS);
    EL_EACH(t.template set<sizeof...(Ts) - 1 - Is>(nth<sizeof...(Ts) - 1 - Is, Ts...>::get(w)));
    EL_EACH(elem<Ts>::same(t.template get<Is>(), nth<Is, Ts...>::get(w), "elements read back after set()"));
    byte_t again[N];
    w.put(again, E, S);
    keep(t.begin(), again, 0, N, "storage after every element was set");
    va_reach("built");
  }

  template<unsigned I>
  static void one() {
    using X = typename nth<I, Ts...>::type;
    constexpr unsigned off = nth<I, Ts...>::offset, n = elem<X>::size;
    struct {
      X v;
    } x;
    elem<X>::any(x.v, S);
    byte_t e[n];
    elem<X>::put(x.v, e, E, S);

    // writing touches these bytes only
    T t;
    byte_t old[N];
    for (unsigned i = 0; i < N; i++)
      old[i] = t[i] = va_u8();
    t.template set<I>(x.v);
    keep(t.begin(), old, 0, off, "set() keeps the elements before");
    keep(t.begin() + off, e, 0, n, "set() encodes in place");
    keep(t.begin(), old, off + n, N, "set() keeps the elements after");

    // reading depends on these bytes only, and changes nothing
    va_uninit(t.begin(), N);
    for (unsigned i = 0; i < n; i++)
      t[off + i] = e[i];
    const T &ct = t;
    elem<X>::same(ct.template get<I>(), x.v, "get() depends on the element's bytes only");
    keep(t.begin() + off, e, 0, n, "get() changes nothing");
    for (unsigned i = 0; i < N; i++)
      if (i < off || i >= off + n)
        t[i] = old[i];
    elem<X>::same(ct.template get<I>(), x.v, "get() ignores the other elements");
    keep(t.begin(), old, 0, off, "get() changes nothing");
    keep(t.begin() + off, e, 0, n, "get() changes nothing");
    keep(t.begin(), old, off + n, N, "get() changes nothing");
  }

  // one of the elements, chosen arbitrarily
  static void each(seq<>) { va_assume(false); }
  template<unsigned I, unsigned... Is>
  static void each(seq<I, Is...>) {
    if (va_any()) {
      one<I>();
      va_reach("one");
    } else
      each(seq<Is...>{});
  }

  static void run() {
    // which one is free, the sign of the others: chosen arbitrarily
    for (unsigned i = 0; i <= sizeof...(Ts); i++)
      if (va_any())
        return build(make<sizeof...(Ts)>{}, va_any() ? POS : NEG, i);
  }
  static void run_each() {
    each(make<sizeof...(Ts)>{});
    va_reach("end");
  }
};

#define X(N, ...) EL_FORMATS(packed, N, __VA_ARGS__)
EL_LISTS(X, packed)
#undef X

template<endianess E, signed_mode S, typename... Ts>
struct alone : packed<E, S, Ts...> {
  static void run() { packed<E, S, Ts...>::run_each(); }
};
#define X(N, ...) EL_FORMATS(alone, N, __VA_ARGS__)
EL_LISTS(X, alone)
#undef X

// the tuple of nothing
template<endianess E, signed_mode S>
struct empty {
  static void run() {
    tuple<E, S> t;
    va_eq(t.size, 0, "empty tuple has no bytes");
    va_check(t.begin() == t.end(), "empty tuple has no bytes");
    unsigned n = 0;
    for (byte_t b : t)
      n += 1 + b;
    va_eq(n, 0, "empty tuple has no bytes");
    unsigned calls = 0;
    auto f = [&]() { calls++; };
    t.invoke(f);
    va_eq(calls, 1, "invoked once");
    auto m = upd::make_tuple(endianess_h<E>{}, signed_mode_h<S>{});
    va_eq(decltype(m)::size, 0, "empty tuple has no bytes");
    va_reach("end");
  }
};
VA_PROP(empty_LE_TC) { empty<spec::LE, spec::TC>::run(); }
VA_PROP(empty_BE_OB) { empty<spec::BE, spec::OB>::run(); }

// more than 255 bytes
template<endianess E, signed_mode S>
struct large {
  using T = tuple<E, S, std::uint8_t[200], std::uint16_t, std::uint8_t[100], std::uint32_t>;
  static constexpr unsigned N = 306;
  static void run() {
    va_eq(T::size, N, "size is the sum of the sizes");
    va_eq(sizeof(T), N, "no padding in the object");
    T t;
    va_eq(t.end() - t.begin(), N, "extent of the storage");
    byte_t old[N];
    for (unsigned i = 0; i < N; i++)
      old[i] = t.begin()[i] = va_u8();
    byte_t e[4];
    if (va_any()) {
      std::uint16_t x = va_u16();
      spec::put(x, e, E, S);
      t.template set<1>(x);
      keep(t.begin(), old, 0, 200, "set() keeps the elements before");
      keep(t.begin() + 200, e, 0, 2, "set() encodes in place");
      keep(t.begin(), old, 202, N, "set() keeps the elements after");
      va_eq(t.template get<1>(), x, "elements read back after set()");
    } else if (va_any()) {
      std::uint32_t x = va_u32();
      spec::put(x, e, E, S);
      t.template set<3>(x);
      keep(t.begin(), old, 0, 302, "set() keeps the elements before");
      keep(t.begin() + 302, e, 0, 4, "set() encodes in place");
      va_eq(t.template get<3>(), x, "elements read back after set()");
    } else {
      std::uint8_t x[100];
      for (unsigned i = 0; i < 100; i++)
        x[i] = static_cast<std::uint8_t>(7 * i);
      t.template set<2>(x);
      keep(t.begin(), old, 0, 202, "set() keeps the elements before");
      keep(t.begin() + 202, x, 0, 100, "set() encodes in place");
      keep(t.begin(), old, 302, N, "set() keeps the elements after");
      auto y = t.template get<2>();
      keep(&y[0], x, 0, 100, "elements read back after set()");
    }
    auto v = t.template view<1, 2>();
    va_eq(v.begin() - t.begin(), 200, "place of a slice");
    va_eq(v.end() - t.begin(), 302, "place of a slice");
    va_reach("end");
  }
};
VA_PROP(large_LE_TC) { large<spec::LE, spec::TC>::run(); }
VA_PROP(large_BE_SM) { large<spec::BE, spec::SM>::run(); }
