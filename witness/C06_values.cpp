// C06: assignment between tuples and views, default construction, invocation.
#include "elems.hpp"
#include <upd/tuple.hpp>
using namespace upd;
using namespace el;

// ------------------------------------------------------------------------------------------------ assignment
template<endianess E1, signed_mode S1, endianess E2, signed_mode S2, typename... Ts>
struct assign {
  using A = tuple<E1, S1, Ts...>;
  using B = tuple<E2, S2, Ts...>;
  static constexpr unsigned N = values<Ts...>::size;

  template<unsigned... Is>
  static void run(seq<Is...>, unsigned free) {
    values<Ts...> v;
    sign_t g = va_any() ? POS : NEG;
    v.any(S1, g, free);
    va_assume(v.all(S2));
    byte_t e1[N], e2[N];
    v.put(e1, E1, S1);
    v.put(e2, E2, S2);
    B b;
    byte_t buf[N + 2];
    buf[0] = buf[N + 1] = 0x5a;
    auto w = upd::make_view<Ts...>(endianess_h<E2>{}, signed_mode_h<S2>{}, buf + 1);
    A a{nth<Is, Ts...>::get(v)...};
    if (va_any()) {
      b = static_cast<A &&>(a);
      keep(b.begin(), e2, 0, N, "assigning a tuple to a tuple converts every element");
      EL_EACH(elem<Ts>::same(b.template get<Is>(), nth<Is, Ts...>::get(v), "elements are preserved"));
    } else if (va_any()) {
      b = a.template view<0, sizeof...(Ts)>();
      keep(b.begin(), e2, 0, N, "assigning a view to a tuple converts every element");
    } else if (va_any()) {
      w = static_cast<A &&>(a);
      keep(buf + 1, e2, 0, N, "assigning a tuple to a view converts every element");
    } else {
      byte_t other[3 * N];
      for (unsigned i = 0; i < N; i++)
        other[3 * i] = e1[i];
      w = upd::make_view<Ts...>(endianess_h<E1>{}, signed_mode_h<S1>{}, io::random_it<byte_t>(other));
      keep(buf + 1, e2, 0, N, "assigning a view to a view converts every element");
    }
    va_eq(buf[0], 0x5a, "assignment touches nothing else");
    va_eq(buf[N + 1], 0x5a, "assignment touches nothing else");
    keep(a.begin(), e1, 0, N, "the source is not modified");
    va_reach("assigned");
  }
  static void run() {
    for (unsigned i = 0; i <= sizeof...(Ts); i++)
      if (va_any())
        return run(make<sizeof...(Ts)>{}, i);
  }
};
#define A1(E1, S1, E2, S2)                                                                                             \
  VA_PROP(assign_mixed__##E1##S1##_##E2##S2) {                                                                         \
    assign<spec::E1, spec::S1, spec::E2, spec::S2, std::int32_t, std::uint16_t, std::int8_t>::run();                   \
  }                                                                                                                    \
  VA_PROP(assign_more__##E1##S1##_##E2##S2) {                                                                          \
    assign<spec::E1, spec::S1, spec::E2, spec::S2, bool, std::array<std::int16_t, 2>, std::int64_t>::run();            \
  }
#define A2(S1, S2) A1(LE, S1, LE, S2) A1(LE, S1, BE, S2) A1(BE, S1, LE, S2) A1(BE, S1, BE, S2)
#define A3(S1) A2(S1, SM) A2(S1, OC) A2(S1, TC) A2(S1, OB)
A3(SM) A3(OC) A3(TC) A3(OB)

// ------------------------------------------------------------------------------------------ same type assignment
template<endianess E, signed_mode S>
void copy() {
  using T = tuple<E, S, std::uint8_t, std::int32_t, std::uint16_t[2]>;
  T a, b;
  byte_t old[9];
  for (unsigned i = 0; i < 9; i++)
    old[i] = a[i] = va_u8();
  b = a; // any bytes at all, also those which no value encodes to
  T c(a);
  const T &ca = a;
  T d(ca);
  keep(b.begin(), old, 0, 9, "copy assignment keeps every byte");
  keep(c.begin(), old, 0, 9, "copy construction keeps every byte");
  keep(d.begin(), old, 0, 9, "copy construction from a constant keeps every byte");
  a[0] = va_u8();
  keep(b.begin(), old, 0, 9, "copies are independent");
  va_reach("end");
}

// ------------------------------------------------------------------------------------------ default construction
template<endianess E, signed_mode S, typename... Ts>
struct defaults {
  template<unsigned... Is>
  static void run(seq<Is...>) {
    tuple<E, S, Ts...> t;
    EL_EACH(elem<Ts>::zero(t.template get<Is>(), "default constructed elements are zero"));
    auto m = upd::make_tuple<Ts...>(endianess_h<E>{}, signed_mode_h<S>{});
    EL_EACH(elem<Ts>::zero(m.template get<Is>(), "make_tuple() without values holds zeros"));
    va_reach("end");
  }
  static void run() { run(make<sizeof...(Ts)>{}); }
};
#define X(N, ...) EL_FORMATS(defaults, N, __VA_ARGS__)
X(default__mixed, std::uint8_t, std::int16_t, std::uint32_t, std::int64_t, bool)
X(default__signed, std::int32_t, std::int8_t, std::int64_t, std::int16_t, char, long)
X(default__stdarrays, std::int8_t, std::array<std::int16_t, 2>, std::array<std::uint8_t, 3>)
#undef X

// --------------------------------------------------------------------------------------------------- invocation
struct seen_t {
  unsigned n = 0;
  std::uint64_t a = 0, b = 0, c = 0, d = 0;
} seen;
std::uint32_t result;

std::uint32_t free_function(std::uint8_t a, std::int32_t b, std::uint16_t c) {
  seen.n++;
  seen.a = a;
  seen.b = va::pattern(b);
  seen.c = c;
  return result;
}
struct constant_functor {
  std::uint32_t operator()(std::uint8_t a, const std::int32_t &b, std::uint16_t &&c) const { return free_function(a, b, c); }
};
struct stateful {
  unsigned calls = 0;
  std::uint32_t operator()(std::uint8_t a, std::int32_t b, std::uint16_t c) {
    calls++;
    return free_function(a, b, c);
  }
};
struct only_movable {
  std::uint32_t v;
  explicit only_movable(std::uint32_t v) : v(v) {}
  only_movable(only_movable &&o) : v(o.v) { o.v = 0; }
  only_movable(const only_movable &) = delete;
};

template<endianess E, signed_mode S>
struct invoke {
  static void check(std::uint8_t a, std::int32_t b, std::uint16_t c) {
    va_eq(seen.n, 1, "called exactly once");
    va_eq(seen.a, a, "first argument");
    va_eq(seen.b, va::pattern(b), "second argument");
    va_eq(seen.c, c, "third argument");
  }
  static void run() {
    seen = seen_t();
    result = va_u32();
    std::uint8_t a = va_u8();
    std::int32_t b = spec::any_in<std::int32_t>(S);
    std::uint16_t c = va_u16();
    tuple<E, S, std::uint8_t, std::int32_t, std::uint16_t> t{a, b, c};
    byte_t e[7];
    for (unsigned i = 0; i < 7; i++)
      e[i] = t[i];
    const tuple<E, S, std::uint8_t, std::int32_t, std::uint16_t> &ct = t;
    auto v = t.template view<0, 3>();
    if (va_any())
      va_eq(t.invoke(free_function), result, "result of a function");
    else if (va_any())
      va_eq(t.invoke(&free_function), result, "result of a function pointer");
    else if (va_any())
      va_eq(ct.invoke(constant_functor{}), result, "result of a constant function object");
    else if (va_any()) {
      stateful f;
      va_eq(ct.invoke(f), result, "result of a stateful function object");
      va_eq(f.calls, 1, "a named function object is called, not a copy of it");
    } else if (va_any()) {
      va_eq(v.invoke([&](std::uint8_t x, std::int32_t y, std::uint16_t z) { return free_function(x, y, z); }), result, "result from a view");
    } else if (va_any()) {
      only_movable m = t.invoke([&](std::uint8_t x, std::int32_t y, std::uint16_t z) { return only_movable(free_function(x, y, z)); });
      va_eq(m.v, result, "only movable result");
    } else if (va_any()) {
      std::uint32_t &r = t.invoke([&](std::uint8_t x, std::int32_t y, std::uint16_t z) -> std::uint32_t & { free_function(x, y, z); return result; });
      va_check(&r == &result, "a reference is returned as is");
    } else
      t.invoke([&](std::uint8_t x, std::int32_t y, std::uint16_t z) { free_function(x, y, z); });
    check(a, b, c);
    keep(t.begin(), e, 0, 7, "invoking does not modify the tuple");
    va_reach("end");
  }
  static void arrays() {
    std::uint16_t a[2] = {va_u16(), va_u16()};
    std::array<std::int16_t, 2> b;
    elem<std::array<std::int16_t, 2>>::any(b, S);
    std::uint8_t c = va_u8();
    std::uint32_t r = va_u32();
    tuple<E, S, std::uint16_t[2], std::array<std::int16_t, 2>, std::uint8_t> t{a, b, c};
    unsigned n = 0;
    auto f = [&](const std::uint16_t (&x)[2], const std::array<std::int16_t, 2> &y, std::uint8_t z) {
      n++;
      elem<std::uint16_t[2]>::same(x, a, "array argument");
      elem<std::array<std::int16_t, 2>>::same(y, b, "standard array argument");
      va_eq(z, c, "argument after arrays");
      return r;
    };
    va_eq(t.invoke(f), r, "result");
    va_eq(n, 1, "called exactly once");
    va_reach("end");
  }
};

#define MORE(E, S)                                                                                                     \
  VA_PROP(copy__##E##_##S) { copy<spec::E, spec::S>(); }                                                               \
  VA_PROP(invoke__##E##_##S) { invoke<spec::E, spec::S>::run(); }                                                      \
  VA_PROP(invoke_arrays__##E##_##S) { invoke<spec::E, spec::S>::arrays(); }
MORE(LE, SM) MORE(BE, SM) MORE(LE, OC) MORE(BE, OC) MORE(LE, TC) MORE(BE, TC) MORE(LE, OB) MORE(BE, OB)
