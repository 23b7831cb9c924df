// C21: no byte which reaches the user comes from memory which was not written.
#include "ext.hpp"
#include "machine.hpp"
using namespace rpc;

template<typename T>
void defined(const T *p, unsigned n, const char *id) {
  va_eq(va_undef(p, n * sizeof(T)), 0, id);
}
//! A byte which is handed to the user
inline void handed(byte_t b) { va_eq(va_undef(&b, 1), 0, "no unwritten memory is handed to the user"); }

template<endianess E, signed_mode S, typename... Ts>
struct stored {
  using T = tuple<E, S, Ts...>;
  template<unsigned... Is>
  static void build(seq<Is...>) {
    values<Ts...> v;
    v.any(S, va_any() ? POS : NEG);
    if (va_any()) {
      T t;
      defined(t.begin(), T::size, "a default-constructed tuple is written");
      T u(t);
      defined(u.begin(), T::size, "a copy is written");
    } else if (va_any()) {
      auto t = upd::make_tuple<Ts...>(endianess_h<E>{}, signed_mode_h<S>{});
      defined(t.begin(), T::size, "a default-constructed tuple is written");
    } else if (va_any()) {
      T t{nth<Is, Ts...>::get(v)...};
      defined(t.begin(), T::size, "a tuple is written");
      using O = tuple<E == spec::LE ? spec::BE : spec::LE, S, Ts...>;
      O o;
      EL_EACH(o.template set<Is>(nth<Is, Ts...>::get(v)));
      defined(o.begin(), T::size, "a tuple is written");
    } else {
      byte_t raw[T::size];
      va_uninit(raw, sizeof raw);
      auto w = make_view<Ts...>(endianess_h<E>{}, signed_mode_h<S>{}, &raw[0]);
      EL_EACH(w.template set<Is>(nth<Is, Ts...>::get(v)));
      defined(raw, T::size, "every byte of a view is written");
    }
    va_reach("end");
  }
  static void run() { build(make<sizeof...(Ts)>{}); }
};
#define X(N, ...) EL_FORMATS(stored, N, __VA_ARGS__)
EL_LISTS(X, stored)
#undef X

template<endianess E, signed_mode S>
void extended() {
  padded_t p{va_u8(), static_cast<std::int32_t>(va_u32() & 0x7fffffff), va_u16()};
  if (va_any()) {
    tuple<E, S, std::uint8_t, padded_t, small_t> t{va_u8(), p, small_t{va_u8()}};
    defined(t.begin(), t.size, "a tuple of extended values is written");
  } else {
    tuple<E, S, padded_t, std::uint8_t> t;
    defined(t.begin(), t.size, "a default-constructed tuple is written");
  }
  va_reach("end");
}
VA_PROP(extended__LE_TC) { extended<spec::LE, spec::TC>(); }
VA_PROP(extended__BE_SM) { extended<spec::BE, spec::SM>(); }
VA_PROP(extended__BE_OC) { extended<spec::BE, spec::OC>(); }
VA_PROP(extended__LE_OB) { extended<spec::LE, spec::OB>(); }

//! Packets and responses of every function
template<endianess E, signed_mode S>
struct answers {
  template<unsigned I>
  static void run() {
    using F = fn<I>;
    using D = dispatcher<ring<E, S>, action_features::ANY>;
    using W = dispatcher<ring<E, S>, action_features::WEAK_REFERENCE>;
    request<I, E, S> r;
    r.any(true);
    byte_t in[F::in + 1];
    in[0] = I;
    for (unsigned i = 0; i < F::in; i++)
      in[1 + i] = r.bytes[i];
    counting_source src{in};
    if (va_any()) {
      D d;
      d(src, handed);
    } else if (va_any()) {
      W d;
      d(src, handed);
    } else if (va_any()) {
      single_buffered_dispatcher<W> d;
      handed(d.get());
      d.read_from(src);
      d.write_to(handed);
      handed(d.get());
    } else {
      double_buffered_dispatcher<D> d;
      handed(d.get());
      d.read_from(src);
      d >> handed;
      handed(d.get());
    }
    auto m = r.message(make_ring<E, S>().get(typename F::h{}));
    defined(m.content.begin(), m.content.size, "a packet is written");
    m.write_to(handed);
    va_reach("end");
  }
};
#define ONE(E, S, N, ...) VA_PROP(N##__##E##_##S) { pick<answers<spec::E, spec::S>>(); }
RPC_FORMATS(ONE, answers)
#undef ONE
