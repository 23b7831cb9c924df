// C33: tuples and views follow the standard tuple protocol.
#include "ext.hpp"
#include <tuple>
#include <utility>
using namespace upd;
using namespace el;

//! Type which accessing an element yields
template<typename T>
struct accessed {
  using type = T;
};
template<typename T, std::size_t N>
struct accessed<T[N]> {
  using type = std::array<T, N>;
};
template<endianess E, signed_mode S, typename... Ts>
struct protocol {
  using T = tuple<E, S, Ts...>;
  using V = tuple_view<byte_t *, E, S, Ts...>;
  using C = tuple_view<const byte_t *, E, S, Ts...>;
  using I = tuple_view<io::random_it<byte_t>, E, S, Ts...>;
  static constexpr unsigned N = sizeof...(Ts);

  template<typename X, unsigned... Is>
  static void traits(seq<Is...>) {
    va_eq(std::tuple_size<X>::value, N, "std::tuple_size is the number of elements");
    va_eq(std::tuple_size<const X>::value, N, "std::tuple_size is the number of elements");
    EL_EACH(va_check(std::is_same<typename std::tuple_element<Is, X>::type, typename accessed<Ts>::type>::value,
                     "std::tuple_element is the type of the element"));
    EL_EACH(va_check(std::is_same<decltype(std::declval<const X &>().template get<Is>()), typename accessed<Ts>::type>::value,
                     "access returns the type of the element"));
    EL_EACH(va_check(std::is_same<decltype(upd::get<Is>(std::declval<const X &>())), typename accessed<Ts>::type>::value,
                     "access returns the type of the element"));
  }
  template<typename X, unsigned... Is>
  static void reading(const X &x, values<Ts...> &v, seq<Is...>) {
    EL_EACH(elem<Ts>::same(x.template get<Is>(), nth<Is, Ts...>::get(v), "member access"));
    EL_EACH(elem<Ts>::same(upd::get<Is>(x), nth<Is, Ts...>::get(v), "free access"));
  }
  template<typename X, unsigned... Is>
  static void writing(X &x, byte_t *bytes, values<Ts...> &v, seq<Is...>) {
    byte_t expected[T::size];
    EL_EACH(x.template set<Is>(nth<Is, Ts...>::get(v)));
    for (unsigned i = 0; i < T::size; i++) {
      expected[i] = bytes[i];
      bytes[i] = 0x5a;
    }
    EL_EACH(upd::set<Is>(x, nth<Is, Ts...>::get(v)));
    keep(bytes, expected, 0, T::size, "free writing equals member writing");
    for (unsigned i = 0; i < T::size; i++)
      bytes[i] = 0x5a;
    EL_EACH(upd::set<Is>(x, copy(nth<Is, Ts...>::get(v))));
    keep(bytes, expected, 0, T::size, "free writing of a temporary");
  }
  template<typename X>
  static X copy(const X &x) { return x; }
  template<typename X, std::size_t M>
  static const X (&copy(const X (&x)[M]))[M] { return x; }

  template<unsigned... Is>
  static void all(seq<Is...> s) {
    traits<T>(s);
    traits<V>(s);
    traits<C>(s);
    traits<I>(s);
    values<Ts...> v;
    v.any(S, va_any() ? POS : NEG);
    T t;
    writing(t, t.begin(), v, s);
    EL_EACH(t.template set<Is>(nth<Is, Ts...>::get(v)));
    reading(t, v, s);
    byte_t raw[T::size];
    V w{raw};
    writing(w, raw, v, s);
    EL_EACH(w.template set<Is>(nth<Is, Ts...>::get(v)));
    reading(w, v, s);
    reading(C{raw}, v, s);
    byte_t spread[3 * T::size];
    for (unsigned i = 0; i < T::size; i++)
      spread[3 * i] = raw[i];
    reading(I{io::random_it<byte_t>(spread)}, v, s);
#if __cplusplus >= 201703L
    bound(t, v);
    bound(w, v);
    bound(C{raw}, v);
#endif
    va_reach("end");
  }
#if __cplusplus >= 201703L
  template<unsigned J, typename X>
  static void one(const X &x, values<Ts...> &v) {
    va_check(std::is_same<X, typename accessed<typename nth<J, Ts...>::type>::type>::value, "structured bindings have the type of the element");
    elem<typename nth<J, Ts...>::type>::same(x, nth<J, Ts...>::get(v), "structured bindings");
  }
  template<typename X>
  static void bound(const X &x, values<Ts...> &v) {
    if constexpr (N == 1) {
      auto [a] = x;
      one<0>(a, v);
    } else if constexpr (N == 2) {
      auto [a, b] = x;
      one<0>(a, v), one<1>(b, v);
    } else if constexpr (N == 3) {
      const auto &[a, b, c] = x;
      one<0>(a, v), one<1>(b, v), one<2>(c, v);
    } else if constexpr (N == 4) {
      auto &&[a, b, c, d] = x;
      one<0>(a, v), one<1>(b, v), one<2>(c, v), one<3>(d, v);
    } else if constexpr (N == 5) {
      auto [a, b, c, d, e] = x;
      one<0>(a, v), one<1>(b, v), one<2>(c, v), one<3>(d, v), one<4>(e, v);
    } else {
      auto [a, b, c, d, e, f, g, h] = x;
      one<0>(a, v), one<1>(b, v), one<2>(c, v), one<3>(d, v), one<4>(e, v), one<5>(f, v), one<6>(g, v), one<7>(h, v);
    }
  }
#endif
  static void run() { all(make<N>{}); }
};
#define X(N, ...) EL_FORMATS(protocol, N, __VA_ARGS__)
EL_LISTS(X, protocol)
X(protocol__extended, std::uint8_t, padded_t)
X(protocol__two_arrays, std::uint8_t[2], std::array<std::int32_t, 2>)
#undef X
VA_PROP(empty) {
  va_eq(std::tuple_size<tuple<spec::LE, spec::TC>>::value, 0, "std::tuple_size is the number of elements");
  va_eq((std::tuple_size<tuple_view<byte_t *, spec::BE, spec::TC>>::value), 0, "std::tuple_size is the number of elements");
  va_reach("end");
}
