// Keyrings of many functions.
#pragma once
#include "elems.hpp"
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>

namespace many {
using namespace upd;

extern unsigned calls, which;
unsigned calls, which;
template<unsigned I>
std::uint8_t f(std::uint8_t x) {
  calls++;
  which = I;
  return static_cast<std::uint8_t>(x + I);
}
template<unsigned I>
using h = unevaluated<std::uint8_t (*)(std::uint8_t), &f<I>>;

//! Concatenation by halves, to keep the instantiation depth low
template<typename, typename>
struct cat;
template<unsigned... Is, unsigned... Js>
struct cat<el::seq<Is...>, el::seq<Js...>> {
  using type = el::seq<Is..., (sizeof...(Is) + Js)...>;
};
template<unsigned N>
struct up {
  using type = typename cat<typename up<N / 2>::type, typename up<N - N / 2>::type>::type;
};
template<>
struct up<0> {
  using type = el::seq<>;
};
template<>
struct up<1> {
  using type = el::seq<0>;
};

template<endianess E, signed_mode S, typename>
struct ring_impl;
template<endianess E, signed_mode S, unsigned... Is>
struct ring_impl<E, S, el::seq<Is...>> {
  using type = keyring<E, S, h<Is>...>;
};
template<endianess E, signed_mode S, unsigned N>
using ring = typename ring_impl<E, S, typename up<N>::type>::type;

} // namespace many
