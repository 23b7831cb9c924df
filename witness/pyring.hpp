// Keyrings exposed to Python (through the model of pybind11 in pystub/).
#pragma once
#include "rpc.hpp"
#include <upd/python.hpp>

template class std::basic_string<char>; // so that its functions are analysed

namespace pb = pybind11;

// The functions live in the global namespace, as in the documentation
#define PY_FN(I, R, NAME, PARAMS, ...)                                                                                 \
  R NAME PARAMS;                                                                                                       \
  namespace pyr {                                                                                                      \
  template<>                                                                                                           \
  struct fn<I> : rpc::sig_t<R PARAMS> {                                                                                \
    using type = R PARAMS;                                                                                             \
    using res = rpc::result_of<100 + I, R>;                                                                            \
    static const char *name() { return #NAME; }                                                                        \
  };                                                                                                                   \
  }                                                                                                                    \
  R NAME PARAMS {                                                                                                      \
    rpc::rec(__VA_ARGS__);                                                                                             \
    return rpc::give(rpc::result_of<100 + I, R>::r);                                                                   \
  }

namespace pyr {
using namespace upd;
using namespace el;
template<unsigned I>
struct fn;
} // namespace pyr

PY_FN(0, std::uint32_t, f, (std::uint8_t a, std::int16_t b), 0, a, b)
PY_FN(1, void, f1, (), 1)
PY_FN(2, std::uint8_t, read_value, (), 2)
PY_FN(3, void, _set2, (std::uint32_t a, bool b), 3, a, b)
PY_FN(4, std::int64_t, F11, (std::int8_t a, std::uint64_t b, std::int32_t c), 4, a, b, c)
using pyr_three = std::array<std::uint8_t, 3>;
using pyr_two = std::array<std::int16_t, 2>;
PY_FN(5, pyr_three, f_arrays, (pyr_two a, std::array<std::uint16_t, 2> b), 5, a, b)
PY_FN(6, bool, is, (std::uint16_t a), 6, a)

struct {
  std::int16_t operator()(std::int16_t x) { rpc::rec(7, x); return rpc::give(rpc::result_of<107, std::int16_t>::r); }
} functor;
auto lambda_1 = [](std::uint8_t x) { rpc::rec(8, x); };
namespace pyr {
template<>
struct fn<7> : rpc::sig_t<std::int16_t(std::int16_t)> {
  using type = std::int16_t(std::int16_t);
  using res = rpc::result_of<107, std::int16_t>;
  static const char *name() { return "functor"; }
};
template<>
struct fn<8> : rpc::sig_t<void(std::uint8_t)> {
  using type = void(std::uint8_t);
  using res = rpc::result_of<108, void>;
  static const char *name() { return "lambda_1"; }
};
constexpr unsigned FUNCTIONS = 7, KEYS = 9;

//! Python object made from a value
template<typename T>
pb::object to_python(const T &x) {
  return pb::object(pb::caster<T>::make(x));
}
//! The Python object is that value
template<typename T>
struct python_is {
  static void check(const T &x, pb::handle h, const char *id) {
    auto *o = h.ptr();
    if (std::is_same<T, bool>::value)
      va_eq(o->k, pb::model::BOOL, id);
    else {
      va_eq(o->k, pb::model::INT, id);
      va_eq(o->is_signed ? 0 : o->i >> 63, 0, "results fit");
    }
    va_eq(o->i, static_cast<std::uint64_t>(x), id);
  }
};
template<typename T, std::size_t N>
struct python_is<std::array<T, N>> {
  static void check(const std::array<T, N> &x, pb::handle h, const char *id) {
    va_eq(h.ptr()->k, pb::model::LIST, id);
    va_eq(h.ptr()->n, N, id);
    for (std::size_t i = 0; i < N; i++)
      python_is<T>::check(x[i], pb::handle(h.ptr()->items[i]), id);
  }
};

template<unsigned I, endianess E, signed_mode S>
struct request {
  using F = fn<I>;
  static constexpr unsigned in = F::in, out = F::out;
  typename F::args args;
  byte_t bytes[in + 1], raw[in + 1], response[out + 1];
  void any(bool few = false) {
    rpc::log_ = rpc::log_t();
    rpc::fetched = rpc::emitted = 0;
    sign_t a = FREE, r = POS;
    if (few)
      a = va_any() ? POS : NEG;
    else if (va_any()) {
      a = va_any() ? POS : NEG;
      r = FREE;
    }
    args.any(S, a);
    rpc::any_result(F::res::r, S, r);
    args.put(bytes, E, S);
    args.put(raw, spec::LE, spec::TC);
    rpc::put_result(F::res::r, response, E, S);
  }
  void called(unsigned which) const {
    va_eq(rpc::log_.n, 1, "the designated function is called exactly once");
    va_eq(rpc::log_.which, which, "no other function is called");
    for (unsigned i = 0; i < in; i++)
      va_eq(rpc::log_.raw[i], raw[i], "arguments received by the function");
  }
};

//! Call a Python method with the arguments of a request
template<typename Sig>
struct with_args;
template<typename R, typename... A>
struct with_args<R(A...)> {
  template<unsigned I>
  using at = nth<I, rpc::bare<A>...>;
  template<typename V, unsigned... Is>
  static pb::object call(pb::object f, V &v, seq<Is...>) {
    return f(to_python<typename at<Is>::type>(at<Is>::get(v))...);
  }
};
template<unsigned I, typename Rq>
pb::object call_with(pb::object f, Rq &r) {
  return with_args<typename fn<I>::type>::call(f, r.args, typename fn<I>::indexes{});
}

//! Python callable made from a C++ one
template<typename F>
pb::object callable(F f) {
  return pb::cpp_function(f);
}
//! Number of names of a module which are not private to it
inline unsigned public_names(pb::handle m) {
  unsigned n = 0;
  for (std::size_t i = 0; i < m.ptr()->nattr; i++) {
    const char *s = m.ptr()->attr[i].name;
    n += !(s[0] == '_' && s[1] == '_');
  }
  return n;
}
} // namespace pyr

#define _details_name _details
#include PY_DETAILS
