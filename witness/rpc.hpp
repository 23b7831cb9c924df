// A keyring of functions of every kind, with independently specified requests and responses.
// WIDE: among many others, so that indexes take two bytes. EXT: some take and return user-extended types.
#pragma once
#include "elems.hpp"
#ifdef EXT
#include "ext.hpp"
#endif
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>

namespace el {
template<>
struct elem<void> {
  static constexpr unsigned size = 0;
};
} // namespace el

namespace rpc {
using namespace upd;
using namespace el;

template<typename T>
using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;

//! What the callee functions have seen
struct log_t {
  unsigned n;       // calls
  unsigned which;   // last function called
  byte_t raw[16];   // its arguments
  unsigned tag;     // number of the callback (replacements)
  unsigned in, out; // bytes fetched and emitted when it was called
};
//! Bytes fetched and emitted so far
extern unsigned fetched, emitted;
unsigned fetched, emitted;
extern log_t log_;
log_t log_;

inline void rec_args(byte_t *) {}
template<typename T, typename... Ts>
void rec_args(byte_t *p, const T &x, const Ts &...xs) {
  elem<T>::put(x, p, spec::LE, spec::TC);
  rec_args(p + elem<T>::size, xs...);
}
template<typename... Ts>
void rec(unsigned which, const Ts &...xs) {
  log_.n++;
  log_.which = which;
  log_.in = fetched;
  log_.out = emitted;
  rec_args(log_.raw, xs...);
}

template<typename R>
struct hold {
  R v;
};
template<>
struct hold<void> {};
template<unsigned I, typename R>
struct result_of {
  static hold<R> r;
};
template<unsigned I, typename R>
hold<R> result_of<I, R>::r;

template<unsigned I>
struct fn;
template<typename Sig>
struct sig_t;
template<typename R, typename... Args>
struct sig_t<R(Args...)> {
  using ret = bare<R>;
  using args = values<bare<Args>...>;
  using indexes = make<sizeof...(Args)>;
  static constexpr unsigned in = values<bare<Args>...>::size;
  static constexpr unsigned out = elem<bare<R>>::size;
  template<unsigned... Is, typename Key>
  static auto call(const Key &k, values<bare<Args>...> &v, seq<Is...>) -> decltype(k(nth<Is, bare<Args>...>::get(v)...)) {
    return k(nth<Is, bare<Args>...>::get(v)...);
  }
};

#define RPC_FN(I, R, NAME, PARAMS, ...)                                                                                \
  R NAME PARAMS;                                                                                                       \
  template<>                                                                                                           \
  struct fn<I> : sig_t<R PARAMS> {                                                                                     \
    using type = R PARAMS;                                                                                             \
    using h = unevaluated<R(*) PARAMS, &NAME>;                                                                         \
    using res = result_of<I, R>;                                                                                       \
  };                                                                                                                   \
  R NAME PARAMS {                                                                                                      \
    rec(__VA_ARGS__);                                                                                                  \
    return give(result_of<I, R>::r);                                                                                   \
  }
template<typename R>
R give(hold<R> &h) {
  return h.v;
}
inline void give(hold<void> &) {}

RPC_FN(0, std::uint32_t, f0, (std::uint8_t a, std::int16_t b), 0, a, b)
RPC_FN(1, void, f1, (), 1)
RPC_FN(2, std::uint16_t, f2, (), 2)
#ifdef EXT
RPC_FN(3, void, f3, (padded_t a), 3, a)
#else
RPC_FN(3, void, f3, (std::uint32_t a), 3, a)
#endif
RPC_FN(4, std::int64_t, f4, (std::int8_t a), 4, a)
using two = std::array<std::int16_t, 2>;
using three = std::array<std::uint8_t, 3>;
#ifdef EXT
RPC_FN(5, small_t, f5, (const small_t &a, same_t b, bool c), 5, a, b, c)
RPC_FN(6, nested_t, f6, (std::uint16_t a), 6, a)
#else
RPC_FN(5, std::int16_t, f5, (const std::uint8_t (&a)[3], const two &b, bool c), 5, a, b, c)
RPC_FN(6, three, f6, (std::uint16_t a), 6, a)
#endif
constexpr unsigned COUNT = 7;

//! Other functions
template<unsigned I>
std::uint8_t pad(std::uint8_t x) {
  rec(100 + I, x);
  return x;
}
#ifdef WIDE
// Among many other functions: the indexes take two bytes
constexpr unsigned FIRST = 258, TOTAL = FIRST + COUNT, IS = 2;
template<endianess E, signed_mode S, typename>
struct wide_ring;
template<endianess E, signed_mode S, unsigned... Is>
struct wide_ring<E, S, seq<Is...>> {
  using type = keyring<E, S, unevaluated<std::uint8_t (*)(std::uint8_t), &pad<Is>>..., fn<0>::h, fn<1>::h, fn<2>::h, fn<3>::h, fn<4>::h, fn<5>::h, fn<6>::h>;
};
template<endianess E, signed_mode S>
using ring = typename wide_ring<E, S, make<FIRST>>::type;
template<endianess E, signed_mode S>
ring<E, S> make_ring() {
  return make_keyring(typename ring<E, S>::flist_t{}, endianess_h<E>{}, signed_mode_h<S>{});
}
#else
constexpr unsigned FIRST = 0, TOTAL = COUNT, IS = 1;
template<endianess E, signed_mode S>
using ring = keyring<E, S, fn<0>::h, fn<1>::h, fn<2>::h, fn<3>::h, fn<4>::h, fn<5>::h, fn<6>::h>;
template<endianess E, signed_mode S>
ring<E, S> make_ring() {
  return make_keyring(make_flist(fn<0>::h{}, fn<1>::h{}, fn<2>::h{}, fn<3>::h{}, fn<4>::h{}, fn<5>::h{}, fn<6>::h{}), endianess_h<E>{},
                      signed_mode_h<S>{});
}
#endif
//! Index of function I
constexpr unsigned at(unsigned I) { return FIRST + I; }
inline void put_index(byte_t *p, unsigned I, endianess e) {
  for (unsigned i = 0; i < IS; i++)
    p[i] = spec::byte_at(at(I), IS, i, e);
}
//! Any index which designates no function
inline void unknown_index(byte_t *p, endianess e) {
#ifdef WIDE
  // the cases are told apart by the high order byte
  unsigned high = e == spec::LE ? 1 : 0, low = 1 - high;
  p[low] = va_u8();
  if (va_any()) {
    p[high] = va_u8();
    va_assume(p[high] > TOTAL / 256);
  } else {
    p[high] = TOTAL / 256;
    va_assume(p[low] >= TOTAL % 256);
  }
#else
  (void)e;
  *p = va_u8();
  va_assume(*p >= TOTAL);
#endif
}

template<typename R>
void any_result(hold<R> &h, signed_mode s, sign_t g) {
  elem<R>::any(h.v, s, g);
}
inline void any_result(hold<void> &, signed_mode, sign_t) {}
template<typename R>
void put_result(const hold<R> &h, byte_t *p, endianess e, signed_mode s) {
  elem<R>::put(h.v, p, e, s);
}
inline void put_result(const hold<void> &, byte_t *, endianess, signed_mode) {}

//! Streams which count
struct counting_source {
  const byte_t *p;
  byte_t operator()() { return p[fetched++]; }
};
struct counting_sink {
  byte_t *p;
  void operator()(byte_t b) { p[emitted++] = b; }
};
struct counting_input_it {
  using iterator_category = std::input_iterator_tag;
  using value_type = byte_t;
  using difference_type = std::ptrdiff_t;
  using pointer = const byte_t *;
  using reference = byte_t;
  const byte_t *p;
  struct proxy {
    byte_t b;
    byte_t operator*() const { return b; }
  };
  byte_t operator*() const { return p[fetched]; }
  counting_input_it &operator++() { fetched++; return *this; }
  proxy operator++(int) { return proxy{p[fetched++]}; }
};
struct counting_output_it {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = void;
  using pointer = void;
  using reference = void;
  byte_t *p;
  counting_output_it &operator*() { return *this; }
  counting_output_it &operator++() { return *this; }
  counting_output_it &operator++(int) { return *this; }
  counting_output_it &operator=(byte_t b) { p[emitted++] = b; return *this; }
};

//! A request for function I, the response it deserves
template<unsigned I, endianess E, signed_mode S>
struct request {
  using F = fn<I>;
  using Key = typename ring<E, S>::template key_t<typename F::h>;
  static constexpr unsigned in = F::in, out = F::out;
  typename F::args args;
  byte_t bytes[in + 1];    // of the arguments, on the wire
  byte_t raw[in + 1];      // of the arguments, as recorded by the callee
  byte_t response[out + 1];

  //! Any arguments and any result (the sign of all signed values but one group is fixed, arbitrarily)
  void any(bool few = false) {
    log_ = log_t();
    fetched = emitted = 0;
    sign_t a = FREE, r = POS;
    if (few)
      a = POS;
    else if (va_any()) {
      a = va_any() ? POS : NEG;
      r = FREE;
    }
    args.any(S, a);
    any_result(F::res::r, S, r);
    refresh();
  }
  void refresh() {
    args.put(bytes, E, S);
    args.put(raw, spec::LE, spec::TC);
    put_result(F::res::r, response, E, S);
  }
  //! Length and content of the packet
  static constexpr unsigned length = IS + in;
  byte_t wire(unsigned i) const { return i < IS ? spec::byte_at(at(I), IS, i, E) : bytes[i - IS]; }
  void packet(byte_t *p) const {
    put_index(p, I, E);
    for (unsigned i = 0; i < in; i++)
      p[IS + i] = bytes[i];
  }
  auto message(const Key &k) -> decltype(F::call(k, args, typename F::indexes{})) { return F::call(k, args, typename F::indexes{}); }

  //! The function has been called once, with these arguments
  void called(unsigned n = 1) const {
    va_eq(log_.n, n, "the designated function is called exactly once");
    va_eq(log_.which, I, "no other function is called");
    for (unsigned i = 0; i < in; i++)
      va_eq(log_.raw[i], raw[i], "arguments received by the function");
  }
};

//! Call `f.run<I>()` for one arbitrary I
template<typename F, unsigned I>
struct pick_one {
  static void run() {
    if (I == 0 || va_any())
      F::template run<I>();
    else
      pick_one<F, I == 0 ? 0 : I - 1>::run();
  }
};
template<typename F>
void pick() {
  pick_one<F, COUNT - 1>::run();
}

#define RPC_FORMATS(X, ...)                                                                                            \
  X(LE, SM, __VA_ARGS__) X(BE, SM, __VA_ARGS__) X(LE, OC, __VA_ARGS__) X(BE, OC, __VA_ARGS__)                          \
  X(LE, TC, __VA_ARGS__) X(BE, TC, __VA_ARGS__) X(LE, OB, __VA_ARGS__) X(BE, OB, __VA_ARGS__)
#define RPC_PROP(E, S, N, ...)                                                                                         \
  VA_PROP(N##__##E##_##S) { __VA_ARGS__<spec::E, spec::S>::run(); }

} // namespace rpc
