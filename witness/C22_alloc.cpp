// C22: dispatchers restricted to weak references and serialization never allocate; storing actions allocate when a
// callback is stored only, and release everything.
#include "ext.hpp"
#include "machine.hpp"
using namespace rpc;

constexpr auto LE = spec::LE;
constexpr auto BE = spec::BE;

void none() { va_eq(va_allocs(), 0, "nothing is allocated"); }

//! Whatever happens to a weak dispatcher
template<bool Double, endianess E, signed_mode S>
void weak() {
  {
    machine<Double, E, S, action_features::WEAK_REFERENCE> m;
    none();
    while (va_more()) {
      m.step();
      none();
      m.fetch_some();
      if (va_any())
        m.d.template replace<at(0)>(fn<0>::h{});
      if (va_any())
        m.d.template replace<at(6)>(fn<6>::h{});
      none();
      m.blur();
    }
    none();
  }
  none();
  va_reach("end");
}
#if PART == 0
VA_PROP(weak__single) { weak<false, LE, spec::TC>(); }
#endif
#if PART == 1
VA_PROP(weak__double) { weak<true, BE, spec::SM>(); }
#endif

template<endianess E, signed_mode S>
struct packets {
  template<unsigned I>
  static void run() {
    using F = fn<I>;
    using D = dispatcher<ring<E, S>, action_features::WEAK_REFERENCE>;
    {
      request<I, E, S> r;
      r.any(true);
      auto k = make_ring<E, S>().get(typename F::h{});
      byte_t in[IS + F::in], out[F::out + 1];
      out[0] = 0;
      if (va_any()) {
        auto m = r.message(k);
        m >> in;
      } else
        {
        unsigned n = 0;
        r.message(k).write_to([&](byte_t b) { in[n++] = b; });
      }
      none();
      D d;
      if (va_any()) {
        counting_source src{in};
        d(src, counting_sink{out});
      } else if (va_any())
        d(in, out);
      else if (va_any()) {
        counting_source src{in};
        (*d.get_action(src))(src, out);
      } else if (va_any()) {
        single_buffered_dispatcher<D> b;
        b(in, out);
      } else {
        double_buffered_dispatcher<D> b;
        b << in;
        b >> out;
      }
      none();
      if (va_any())
        (void)(k << out);
      else
        {
        fetched = 0;
        (void)k.read_from(counting_source{out});
      }
      none();
    }
    none();
    va_reach("end");
  }
};
#if PART == 4
VA_PROP(packets__LE_TC) { pick<packets<spec::LE, spec::TC>>(); }
VA_PROP(packets__BE_SM) { pick<packets<spec::BE, spec::SM>>(); }
VA_PROP(packets__BE_OB) { pick<packets<spec::BE, spec::OB>>(); }
#endif

void hooked(std::uint32_t) {}
void kept(std::array<byte_t, 8>) {}
template<endianess E, signed_mode S>
void hooks() {
  {
    auto k = make_ring<E, S>().get(fn<0>::h{});
    auto h = k.with_hook(UPD_CTREF(hooked));
    none();
    byte_t b[4] = {va_u8(), va_u8(), va_u8(), 0};
    h(b, [](byte_t) {});
    none();
    auto answer = make_keyring(make_flist(UPD_CTREF(kept)), endianess_h<E>{}, signed_mode_h<S>{}).get(UPD_CTREF(kept));
    machine<true, E, S, action_features::WEAK_REFERENCE> m;
    m.template request_any<0>(true);
    m.d.reply([](byte_t) {}, answer);
    none();
  }
  none();
  va_reach("end");
}
#if PART == 4
VA_PROP(hooks__LE_TC) { hooks<spec::LE, spec::TC>(); }
#endif
#if PART == 4
VA_PROP(hooks__BE_SM) { hooks<spec::BE, spec::SM>(); }
#endif

template<endianess E, signed_mode S, typename... Ts>
struct storage {
  using T = tuple<E, S, Ts...>;
  template<unsigned... Is>
  static void ops(seq<Is...>) {
    values<Ts...> v;
    v.any(S, POS);
    T t{nth<Is, Ts...>::get(v)...};
    T u;
    u = t;
    tuple<E == spec::LE ? spec::BE : spec::LE, S, Ts...> o;
    EL_EACH(o.template set<Is>(nth<Is, Ts...>::get(v)));
    EL_EACH((void)u.template get<Is>());
    auto w = u.template view<0, sizeof...(Ts)>();
    EL_EACH((void)w.template get<Is>());
    EL_EACH(upd::set<Is>(w, nth<Is, Ts...>::get(v)));
    auto x = make_view<Ts...>(endianess_h<E>{}, signed_mode_h<S>{}, io::random_it<byte_t>(big));
    EL_EACH(x.template set<Is>(nth<Is, Ts...>::get(v)));
    EL_EACH((void)upd::get<Is>(x));
    none();
    va_reach("end");
  }
  static byte_t big[3 * (T::size + 1)];
  static void run() { ops(make<sizeof...(Ts)>{}); }
};
template<endianess E, signed_mode S, typename... Ts>
byte_t storage<E, S, Ts...>::big[3 * (T::size + 1)];
#if PART == 4
#define X(N, ...) EL_FORMATS(storage, N, __VA_ARGS__)
EL_LISTS(X, storage)
#undef X
#endif
template<endianess E, signed_mode S>
void extended() {
  padded_t p{va_u8(), static_cast<std::int32_t>(va_u32() & 0x7fffffff), va_u16()};
  tuple<E, S, std::uint8_t, padded_t, small_t> t{va_u8(), p, small_t{va_u8()}}, u;
  (void)t.template get<1>();
  u = t;
  t.invoke([](std::uint8_t, padded_t, small_t) {});
  none();
  va_reach("end");
}
#if PART == 4
VA_PROP(extended__LE_TC) { extended<spec::LE, spec::TC>(); }
VA_PROP(extended__BE_OB) { extended<spec::BE, spec::OB>(); }
#endif

//! Storing actions: nothing is allocated by an invocation, everything is released
template<bool Double, endianess E, signed_mode S>
void storing() {
  {
    machine<Double, E, S, action_features::ANY> m;
    while (va_more()) {
      unsigned before = va_allocs();
      m.step();
      m.fetch_some();
      va_eq(va_allocs(), before, "invoking a stored action allocates nothing");
      va_eq(va_live(), TOTAL, "one allocation for each stored action");
      if (va_any())
        m.d.template replace<at(0)>(fn<0>::h{});
      if (va_any())
        m.d.template replace<at(3)>([](std::uint32_t a) { f3(a); });
      va_eq(va_live(), TOTAL, "replacing releases the previous action");
      m.blur();
    }
  }
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
#if PART == 2
VA_PROP(storing__single) { storing<false, BE, spec::OC>(); }
#endif
#if PART == 3
VA_PROP(storing__double) { storing<true, LE, spec::OB>(); }
#endif

template<typename F>
void alone(F &&f) {
  {
    action a;
    none();
    a = action{std::forward<F>(f), endianess_h<BE>{}, signed_mode_h<spec::SM>{}};
    unsigned before = va_allocs();
    byte_t in[3] = {va_u8(), va_u8(), va_u8()}, out[4];
    if (va_any())
      a(in, out);
    else
      {
      unsigned n = 0;
      a([&]() { return in[n++]; }, [](byte_t) {});
    }
    (void)a.input_size();
    action b{std::move(a)};
    b(in, out);
    va_eq(va_allocs(), before, "invoking or moving an action allocates nothing");
    va_eq(va_live(), 1, "one allocation for a stored callback");
  }
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
#if PART == 4
VA_PROP(alone__function) { alone(f0); }
VA_PROP(alone__object) {
  std::array<std::uint32_t, 8> big{};
  alone([big](std::uint8_t a, std::int16_t) { return big[3] | a; });
}
#endif
