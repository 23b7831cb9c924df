// Elements of tuples, arguments and results: integers, arrays of integers, standard arrays of integers.
#pragma once
#include "iters.hpp"
#include "spec.hpp"
#include <array>
#include <cstddef>

namespace el {
using namespace upd;

//! Sign of the signed values: restricting it keeps the number of cells of the partition low
enum sign_t { POS, NEG, FREE };

template<typename T>
struct elem {
  static constexpr unsigned size = sizeof(T);
  static void any(T &x, signed_mode s, sign_t g = FREE) {
    x = va::any<T>();
    if (std::is_signed<T>::value && g != FREE)
      va_assume((x < T(0)) == (g == NEG));
    va_assume(spec::representable(x, s));
  }
  static void put(const T &x, byte_t *p, endianess e, signed_mode s) { spec::put(x, p, e, s); }
  static void same(const T &a, const T &b, const char *id) { spec::same<T>(a, b, id); }
  static void zero(const T &a, const char *id) { va_eq(va::pattern<T>(a), 0, id); }
  static bool in(const T &x, signed_mode s) { return spec::representable(x, s); }
  static bool all(const T &x, signed_mode s) { return in(x, s); }
};
template<typename A, typename T, unsigned N>
struct elem_array {
  static constexpr unsigned size = N * elem<T>::size;
  static void any(A &x, signed_mode s, sign_t g = FREE) {
    for (unsigned i = 0; i < N; i++)
      elem<T>::any(x[i], s, g);
  }
  static void put(const A &x, byte_t *p, endianess e, signed_mode s) {
    for (unsigned i = 0; i < N; i++)
      elem<T>::put(x[i], p + i * elem<T>::size, e, s);
  }
  template<typename B>
  static void same(const B &a, const A &b, const char *id) {
    for (unsigned i = 0; i < N; i++)
      elem<T>::same(a[i], b[i], id);
  }
  template<typename B>
  static void zero(const B &a, const char *id) {
    for (unsigned i = 0; i < N; i++)
      elem<T>::zero(a[i], id);
  }
  static bool all(const A &x, signed_mode s) {
    for (unsigned i = 0; i < N; i++)
      if (!elem<T>::all(x[i], s))
        return false;
    return true;
  }
};
template<typename T, std::size_t N>
struct elem<T[N]> : elem_array<T[N], T, N> {};
template<typename T, std::size_t N>
struct elem<std::array<T, N>> : elem_array<std::array<T, N>, T, N> {};

//! Values of the given types, any of them
template<typename... Ts>
struct values;
template<>
struct values<> {
  static constexpr unsigned size = 0;
  void any(signed_mode, sign_t = FREE, unsigned = ~0u, unsigned = 0) {}
  bool all(signed_mode) const { return true; }
  void put(byte_t *, endianess, signed_mode) const {}
};
template<typename T, typename... Ts>
struct values<T, Ts...> {
  static constexpr unsigned size = elem<T>::size + values<Ts...>::size;
  T head;
  values<Ts...> tail;
  //! Any values of that sign; of any sign for the `free`-th one
  void any(signed_mode s, sign_t g = FREE, unsigned free = ~0u, unsigned i = 0) {
    elem<T>::any(head, s, i == free ? FREE : g);
    tail.any(s, g, free, i + 1);
  }
  bool all(signed_mode s) const { return elem<T>::all(head, s) && tail.all(s); }
  void put(byte_t *p, endianess e, signed_mode s) const {
    elem<T>::put(head, p, e, s);
    tail.put(p + elem<T>::size, e, s);
  }
};

template<unsigned I, typename... Ts>
struct nth;
template<typename T, typename... Ts>
struct nth<0, T, Ts...> {
  using type = T;
  static constexpr unsigned offset = 0;
  static T &get(values<T, Ts...> &v) { return v.head; }
};
template<unsigned I, typename T, typename... Ts>
struct nth<I, T, Ts...> {
  using type = typename nth<I - 1, Ts...>::type;
  static constexpr unsigned offset = elem<T>::size + nth<I - 1, Ts...>::offset;
  static type &get(values<T, Ts...> &v) { return nth<I - 1, Ts...>::get(v.tail); }
};

template<unsigned... Is>
struct seq {};
template<unsigned N, unsigned... Is>
struct mk : mk<N - 1, N - 1, Is...> {};
template<unsigned... Is>
struct mk<0, Is...> {
  using type = seq<Is...>;
};
template<unsigned N>
using make = typename mk<N>::type;

#define EL_EACH(...) (void)(int[]){0, ((void)(__VA_ARGS__), 0)...}

inline void keep(const byte_t *got, const byte_t *old, unsigned from, unsigned to, const char *id) {
  for (unsigned i = from; i < to; i++)
    va_eq(got[i], old[i], id);
}

} // namespace el

// Lists of element types
#define EL_LISTS(X, P)                                                                                                 \
  X(P##__mixed, std::uint8_t, std::int16_t, std::uint32_t, std::int64_t, bool)                                         \
  X(P##__signed, std::int32_t, std::int8_t, std::int64_t, std::int16_t)                                                \
  X(P##__arrays, std::uint16_t[3], std::int8_t, std::int32_t[2])                                                       \
  X(P##__stdarrays, std::int8_t, std::array<std::int16_t, 2>, std::array<std::uint8_t, 3>)                             \
  X(P##__single, std::uint64_t)                                                                                        \
  X(P##__same, std::int16_t, std::int16_t, std::int16_t)                                                               \
  X(P##__eight, std::uint8_t, std::uint16_t, std::uint8_t, std::uint32_t, std::int8_t, std::uint16_t, std::int16_t, std::uint8_t)
#define EL_ALL(ENTRY, E, S, N, ...)                                                                                    \
  VA_PROP(N##_##E##_##S) { ENTRY<spec::E, spec::S, __VA_ARGS__>::run(); }
#define EL_FORMATS(ENTRY, N, ...)                                                                                      \
  EL_ALL(ENTRY, LE, SM, N, __VA_ARGS__) EL_ALL(ENTRY, BE, SM, N, __VA_ARGS__)                                          \
  EL_ALL(ENTRY, LE, OC, N, __VA_ARGS__) EL_ALL(ENTRY, BE, OC, N, __VA_ARGS__)                                          \
  EL_ALL(ENTRY, LE, TC, N, __VA_ARGS__) EL_ALL(ENTRY, BE, TC, N, __VA_ARGS__)                                          \
  EL_ALL(ENTRY, LE, OB, N, __VA_ARGS__) EL_ALL(ENTRY, BE, OB, N, __VA_ARGS__)
