// C09: keys decode responses, hooks receive the decoded values.
#include "rpc.hpp"
using namespace rpc;

template<typename R>
struct reading {
  template<typename Key, typename Src>
  static void get(Key &k, Src &&src, const hold<R> &h, unsigned how) {
    const Key &ck = k;
    if (how == 0)
      elem<R>::same(k.read_from(src), h.v, "value decoded from the response");
    else if (how == 1)
      elem<R>::same(ck.read_from(src), h.v, "value decoded from the response");
    else if (how == 2)
      elem<R>::same(k << src, h.v, "value decoded from the response");
    else
      elem<R>::same(ck << src, h.v, "value decoded from the response");
  }
};
template<>
struct reading<void> {
  template<typename Key, typename Src>
  static void get(Key &k, Src &&src, const hold<void> &, unsigned how) {
    const Key &ck = k;
    if (how == 0)
      k.read_from(src);
    else if (how == 1)
      ck.read_from(src);
    else if (how == 2)
      k << src;
    else
      ck << src;
  }
};

template<endianess E, signed_mode S>
struct responses {
  template<unsigned I>
  static void run() {
    using F = fn<I>;
    using R = typename F::ret;
    request<I, E, S> r;
    log_ = log_t();
    any_result(F::res::r, S, FREE);
    put_result(F::res::r, r.response, E, S);
    auto k = make_ring<E, S>().get(typename F::h{});
    constexpr unsigned n = F::out;
    r.response[n] = va_u8(); // what follows is not part of the response
    byte_t before[n + 1];
    for (unsigned i = 0; i <= n; i++)
      before[i] = r.response[i];
    io::source src(r.response);
    if (va_any()) {
      reading<R>::get(k, [&]() { return src(); }, F::res::r, va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : 3);
      va_eq(src.n, n, "bytes consumed");
    } else if (va_any()) {
      reading<R>::get(k, io::input_it{&src}, F::res::r, va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : 3);
      va_eq(src.n, n, "bytes consumed");
    } else if (va_any())
      reading<R>::get(k, static_cast<const byte_t *>(r.response), F::res::r, va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : 3);
    else
      reading<R>::get(k, &r.response[0], F::res::r, va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : 3);
    keep(r.response, before, 0, n + 1, "the source is not modified");
    va_eq(log_.n, 0, "the function is not called by the caller");
    va_reach("end");
  }
};
template<endianess E, signed_mode S>
struct responses_of_each {
  static void run() { pick<responses<E, S>>(); }
};
RPC_FORMATS(RPC_PROP, response, responses_of_each)

// Any bytes are a response
template<endianess E, signed_mode S, unsigned I>
struct arbitrary {
  static void run() {
    using F = fn<I>;
    using R = typename F::ret;
    constexpr unsigned n = sizeof(R);
    std::uint64_t w = va::pattern(va::any<R>());
    byte_t b[n];
    for (unsigned i = 0; i < n; i++)
      b[i] = spec::byte_at(w, n, i, E);
    auto k = make_ring<E, S>().get(typename F::h{});
    io::source src(b);
    R x = k.read_from([&]() { return src(); });
    va_eq(va::pattern(x), spec::unwire(w, n, std::is_signed<R>::value, S), "value denoted by the bytes");
    va_eq(src.n, n, "bytes consumed");
    va_reach("end");
  }
};
template<endianess E, signed_mode S>
struct arbitraries {
  static void run() {
    if (va_any())
      arbitrary<E, S, 0>::run();
    else if (va_any())
      arbitrary<E, S, 2>::run();
    else
      arbitrary<E, S, 4>::run();
  }
};
RPC_FORMATS(RPC_PROP, arbitrary, arbitraries)

// Responses which are references or qualified
const std::int32_t &by_reference() {
  static std::int32_t x;
  return x;
}
std::int16_t &by_lvalue(std::uint8_t) {
  static std::int16_t x;
  return x;
}
const std::int16_t by_const() { return 0; }
template<endianess E, signed_mode S>
struct qualified {
  template<typename T, typename H>
  static void one(H h) {
    auto k = make_keyring(make_flist(UPD_CTREF(by_reference), UPD_CTREF(by_lvalue), UPD_CTREF(by_const)), endianess_h<E>{}, signed_mode_h<S>{}).get(h);
    T x = spec::any_in<T>(S);
    byte_t b[sizeof(T)];
    spec::put(x, b, E, S);
    io::source src(b);
    auto y = k.read_from([&]() { return src(); });
    static_assert(std::is_same<decltype(y), T>::value, "");
    va_eq(src.n, sizeof(T), "bytes consumed");
    spec::same(y, x, "value decoded from the response");
  }
  static void run() {
    if (va_any())
      one<std::int32_t>(UPD_CTREF(by_reference));
    else if (va_any())
      one<std::int16_t>(UPD_CTREF(by_lvalue));
    else
      one<std::int16_t>(UPD_CTREF(by_const));
    va_reach("end");
  }
};
RPC_FORMATS(RPC_PROP, qualified, qualified)

// Hooks
extern unsigned hooked;
unsigned hooked;
template<typename T>
struct got {
  static T value;
};
template<typename T>
T got<T>::value;
template<typename T>
void hook(const T &x) {
  hooked++;
  got<T>::value = x;
}
void hook_none() { hooked++; }
template<typename T>
struct functor {
  unsigned *calls;
  T *into;
  void operator()(const T &x) {
    ++*calls;
    *into = x;
  }
};
template<typename T>
struct const_functor {
  void operator()(const T &x) const { hook<T>(x); }
};
template<typename T>
struct static_functor {
  static const_functor<T> f;
};
template<typename T>
const_functor<T> static_functor<T>::f;

template<endianess E, signed_mode S>
struct hooks {
  template<unsigned I>
  static void run() {
    using R = typename fn<I>::ret;
    each(fn<I>{}, hold<R>{});
  }
  template<unsigned I, typename R>
  static void each(fn<I>, const hold<R> &) {
    hooked = 0;
    auto k = make_ring<E, S>().get(typename fn<I>::h{});
    constexpr unsigned n = fn<I>::out;
    R x, y{};
    elem<R>::any(x, S, FREE);
    byte_t b[n + 1];
    elem<R>::put(x, b, E, S);
    io::source src(b);
    if (va_any()) {
      unsigned calls = 0;
      auto a = k.with_hook(functor<R>{&calls, &y});
      va_eq(a.input_size(), n, "announced size of the response");
      if (va_any())
        a([&]() { return src(); });
      else if (va_any())
        a([&]() { return src(); }, [](byte_t) { va_unreachable("a hook emits nothing"); });
      else
        a(io::input_it{&src}, [](byte_t) { va_unreachable("a hook emits nothing"); });
      va_eq(calls, 1, "the hook is called exactly once");
      elem<R>::same(y, x, "value received by the hook");
      va_eq(hooked, 0, "no other hook is called");
    } else {
      got<R>::value = R{};
      if (va_any()) {
        auto a = k.with_hook(hook<R>);
        a([&]() { return src(); });
      } else if (va_any()) {
        auto a = k.with_hook(&hook<R>);
        a([&]() { return src(); });
      } else if (va_any()) {
        auto a = k.with_hook(unevaluated<void (*)(const R &), &hook<R>>{});
        va_eq(a.input_size(), n, "announced size of the response");
        va_eq(a.output_size(), 0, "a hook emits nothing");
        a([&]() { return src(); }, [](byte_t) { va_unreachable("a hook emits nothing"); });
#if __cplusplus < 201703L // clang 18 cannot deduce references in C++17
      } else if (va_any()) {
        auto a = k.with_hook(unevaluated<const_functor<R> &, static_functor<R>::f>{});
        a([&]() { return src(); }, [](byte_t) { va_unreachable("a hook emits nothing"); });
#endif
      } else {
        const_functor<R> f;
        k.with_hook(std::move(f))([&]() { return src(); });
      }
      va_eq(hooked, 1, "the hook is called exactly once");
      elem<R>::same(got<R>::value, x, "value received by the hook");
    }
    va_eq(src.n, n, "bytes consumed");
    va_reach("end");
  }
  template<unsigned I>
  static void each(fn<I>, const hold<void> &) {
    hooked = 0;
    auto k = make_ring<E, S>().get(typename fn<I>::h{});
    if (va_any()) {
      auto a = k.with_hook(hook_none);
      a([]() { va_unreachable("nothing is consumed"); return byte_t{}; });
    } else {
      auto a = k.with_hook(UPD_CTREF(hook_none));
      a([]() { va_unreachable("nothing is consumed"); return byte_t{}; }, [](byte_t) { va_unreachable("a hook emits nothing"); });
    }
    va_eq(hooked, 1, "the hook is called exactly once");
    va_reach("end");
  }
};
template<endianess E, signed_mode S>
struct hooks_of_each {
  static void run() { pick<hooks<E, S>>(); }
};
RPC_FORMATS(RPC_PROP, hook, hooks_of_each)
