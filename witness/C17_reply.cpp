// C17: replying forwards the pending response as one request packet.
#include "machine.hpp"
using namespace rpc;

using b2 = std::array<byte_t, 2>;
using b4 = std::array<byte_t, 4>;
using b8 = std::array<byte_t, 8>;
using b11 = std::array<byte_t, 11>;
void keep2(b2) {}
void keep4(const b4 &) {}
byte_t keep8(b8) { return 0; }
void keep11(b11) {}
void keep_c(const byte_t (&)[5]) {}
void before(std::uint32_t) {}

template<endianess E, signed_mode S, typename>
struct answers;
template<endianess E, signed_mode S, unsigned... Is>
struct answers<E, S, seq<Is...>> {
  using type = keyring<E, S, unevaluated<std::uint8_t (*)(std::uint8_t), &pad<Is>>..., unevaluated<decltype(before) *, &before>, unevaluated<decltype(keep2) *, &keep2>, unevaluated<decltype(keep4) *, &keep4>, unevaluated<decltype(keep8) *, &keep8>, unevaluated<decltype(keep11) *, &keep11>, unevaluated<decltype(keep_c) *, &keep_c>>;
};
template<endianess E, signed_mode S, typename H>
auto answer_key(H h) -> decltype(typename answers<E, S, make<FIRST>>::type{}.get(h)) {
  return typename answers<E, S, make<FIRST>>::type{}.get(h);
}

//! Reply with a key whose action takes a buffer of N bytes
template<typename M, typename Key>
void reply(M &m, Key k, unsigned index, unsigned N, bool touched) {
  byte_t out[12 + IS];
  for (byte_t &b : out)
    b = 0x3c;
  emitted = 0;
  counting_sink sk{out};
  unsigned n = m.to - m.from;
  bool ok;
  if (va_any())
    ok = m.d.reply([&](byte_t b) { sk(b); }, k);
  else
    ok = m.d.reply(counting_output_it{out}, k);
  bool fits = !touched && n <= N;
  va_eq(ok, fits, "the reply is sent when the whole response fits");
  va_eq(emitted, fits ? IS + N : 0, "bytes sent");
  va_eq(va_undef(out, 12 + IS), 0, "no unwritten memory is sent");
  if (fits) {
    byte_t expected[IS];
    put_index(expected, index, M::E_);
    keep(out, expected, 0, IS, "the packet starts with the index of the key");
    for (unsigned i = 0; i < N; i++)
      va_eq(out[IS + i], i < n ? m.pending[i] : 0, "the buffer carries the response, and nothing else");
    m.from = m.to;
    m.rest();
    if (n > 0)
      va_check(!m.d.reply([](byte_t) { va_unreachable("nothing is replied twice"); }, k), "a response is replied once");
    va_reach("sent");
  } else
    va_reach("refused");
  m.rest();
  while (m.from != m.to)
    m.fetch();
}
template<typename M>
void reply_any(M &m, bool touched) {
  constexpr auto E = M::E_;
  constexpr auto S = M::S_;
  if (va_any())
    reply(m, answer_key<E, S>(UPD_CTREF(keep2)), 1, 2, touched);
  else if (va_any())
    reply(m, answer_key<E, S>(UPD_CTREF(keep4)), 2, 4, touched);
  else if (va_any())
    reply(m, answer_key<E, S>(UPD_CTREF(keep8)), 3, 8, touched);
  else if (va_any())
    reply(m, answer_key<E, S>(UPD_CTREF(keep_c)), 5, 5, touched);
  else
    reply(m, answer_key<E, S>(UPD_CTREF(keep11)), 4, 11, touched);
}
template<bool Double, endianess E, signed_mode S, action_features A>
struct replying : machine<Double, E, S, A> {
  static constexpr auto E_ = E;
  static constexpr auto S_ = S;
};

//! After any history
template<bool Double, endianess E, signed_mode S, action_features A>
void history() {
  replying<Double, E, S, A> m;
  while (va_more()) {
    m.template request_one<COUNT - 1>(true);
    bool touched = m.from != m.to && va_any();
    if (touched)
      m.fetch();
    reply_any(m, touched);
    m.blur();
    if (va_any()) {
      m.drop();
      m.blur();
    }
  }
  va_reach("end");
}
VA_PROP(single__any) { history<false, spec::FE, spec::FS, action_features::ANY>(); }
VA_PROP(double__any) { history<true, spec::FE, spec::FS, action_features::ANY>(); }
VA_PROP(single__weak) { history<false, spec::FE, spec::FS, action_features::WEAK_REFERENCE>(); }
VA_PROP(double__weak) { history<true, spec::FE, spec::FS, action_features::WEAK_REFERENCE>(); }

//! After a request on a new dispatcher
template<bool Double>
void first() {
  replying<Double, spec::FE, spec::FS, action_features::ANY> m;
  m.template request_one<COUNT - 1>(false);
  reply(m, answer_key<spec::FE, spec::FS>(UPD_CTREF(keep8)), 3, 8, false);
  va_reach("end");
}
VA_PROP(single__first) { first<false>(); }
VA_PROP(double__first) { first<true>(); }
