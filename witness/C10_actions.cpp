// C10: an action consumes, calls and emits exactly once and exactly enough.
#include "rpc.hpp"
using namespace rpc;

//! A callable object equivalent to a function
template<typename Sig>
struct object;
template<typename R, typename... Args>
struct object<R(Args...)> {
  R (*f)(Args...);
  unsigned *calls;
  R operator()(Args... args) {
    ++*calls;
    return f(static_cast<Args>(args)...);
  }
};
template<typename Sig>
struct const_object;
template<typename R, typename... Args>
struct const_object<R(Args...)> {
  R (*f)(Args...);
  R operator()(Args... args) const { return f(static_cast<Args>(args)...); }
};
template<typename Sig, Sig *F>
struct static_object;
template<typename R, typename... Args, R (*F)(Args...)>
struct static_object<R(Args...), F> {
  R operator()(Args... args) const { return F(static_cast<Args>(args)...); }
  static const static_object self;
};
template<typename R, typename... Args, R (*F)(Args...)>
const static_object<R(Args...), F> static_object<R(Args...), F>::self{};

template<endianess E, signed_mode S, unsigned I>
struct use {
  using F = fn<I>;
  request<I, E, S> r;
  byte_t out[F::out + 2];
  byte_t in[F::in + 1];

  void prepare(bool few) {
    r.any(few);
    for (unsigned i = 0; i < F::in; i++)
      in[i] = r.bytes[i];
    in[F::in] = 0xa5;
    for (unsigned i = 0; i < F::out + 2; i++)
      out[i] = 0x3c;
  }
  void check(bool silent = false) {
    r.called();
    va_eq(log_.in, F::in, "all the arguments are fetched before the call");
    va_eq(log_.out, 0, "nothing is emitted before the call");
    va_eq(fetched, F::in, "bytes fetched");
    if (silent)
      return;
    va_eq(emitted, F::out, "bytes emitted");
    keep(out, r.response, 0, F::out, "the returned value is emitted");
    for (unsigned i = F::out; i < F::out + 2; i++)
      va_eq(out[i], 0x3c, "nothing else is emitted");
  }
  template<typename A>
  void once(A &a) {
    counting_source src{in};
    counting_sink dst{out};
    a(src, dst);
    check();
  }
  //! Any values through one kind of stream, or few values through every kind of stream
  template<typename A>
  void invoke(A &a) {
    if (va_any()) {
      prepare(false);
      once(a);
    } else {
      prepare(true);
      streams(a);
    }
  }
  template<typename A>
  void streams(A &a) {
    counting_source src{in};
    counting_sink dst{out};
    const A &ca = a;
    if (va_any())
      ca(src, dst);
    else if (va_any())
      a([&]() { return src(); }, [&](byte_t b) { dst(b); });
    else if (va_any())
      a(counting_input_it{in}, dst);
    else if (va_any())
      a(src, counting_output_it{out});
    else
      ca(counting_input_it{in}, counting_output_it{out});
    check();
  }
  template<typename A>
  void sizes(const A &a) {
    va_eq(a.input_size(), F::in, "announced input size");
    va_eq(a.output_size(), F::out, "announced output size");
  }
};

template<endianess E, signed_mode S>
struct stored {
  template<unsigned I>
  static void run() {
    using F = fn<I>;
    using Sig = typename F::type;
    use<E, S, I> u;
    unsigned calls = 0;
    Sig *f = pointer(typename F::h{});
    unsigned which = va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : 3;
    action a = which == 0   ? action{object<Sig>{f, &calls}, endianess_h<E>{}, signed_mode_h<S>{}}
               : which == 1 ? action{const_object<Sig>{f}, endianess_h<E>{}, signed_mode_h<S>{}}
               : which == 2 ? action{*f, endianess_h<E>{}, signed_mode_h<S>{}}
                            : action{std::move(f), endianess_h<E>{}, signed_mode_h<S>{}};
    u.sizes(a);
    if (which < 2)
      u.invoke(a);
    else {
      u.prepare(true);
      u.once(a);
    }
    if (which == 0)
      va_eq(calls, 1, "the callback is called exactly once");
    u.sizes(a);
    // again
    if (va_any())
      return;
    u.prepare(true);
    if (va_any())
      u.once(a);
    else {
      a(counting_source{u.in});
      u.check(true);
    }
    va_reach("end");
  }
  template<typename Sig, Sig F>
  static Sig pointer(unevaluated<Sig, F>) { return F; }
};
template<endianess E, signed_mode S>
struct stored_each {
  static void run() { pick<stored<E, S>>(); }
};
RPC_FORMATS(RPC_PROP, stored, stored_each)

template<endianess E, signed_mode S>
struct referring {
  template<unsigned I>
  static void run() {
    using F = fn<I>;
    use<E, S, I> u;
    no_storage_action a{typename F::h{}, endianess_h<E>{}, signed_mode_h<S>{}};
    u.sizes(a);
    u.invoke(a);
    u.prepare(true);
    u.once(a);
    u.sizes(a);
    va_reach("end");
  }
};
template<endianess E, signed_mode S>
struct referring_each {
  static void run() { pick<referring<E, S>>(); }
};
RPC_FORMATS(RPC_PROP, referring, referring_each)

#if __cplusplus < 201703L // clang 18 cannot deduce references in C++17
template<endianess E, signed_mode S>
struct referring_objects {
  template<unsigned I>
  static void run() {
    go(typename fn<I>::h{}, fn<I>{});
  }
  template<typename P, P Ptr, unsigned I>
  static void go(unevaluated<P, Ptr>, fn<I>) {
    using obj = static_object<typename fn<I>::type, Ptr>;
    use<E, S, I> u;
    no_storage_action a{unevaluated<const obj &, obj::self>{}, endianess_h<E>{}, signed_mode_h<S>{}};
    u.sizes(a);
    u.invoke(a);
    va_reach("end");
  }
};
template<endianess E, signed_mode S>
struct referring_objects_each {
  static void run() { pick<referring_objects<E, S>>(); }
};
RPC_FORMATS(RPC_PROP, referring_objects, referring_objects_each)
#endif

// Actions of several formats side by side
template<endianess E, signed_mode S>
struct mixed {
  template<unsigned I>
  static void run() {
    using F = fn<I>;
    constexpr auto E2 = E == spec::LE ? spec::BE : spec::LE;
    constexpr auto S2 = S == spec::TC ? spec::OB : spec::TC;
    no_storage_action a{typename F::h{}, endianess_h<E>{}, signed_mode_h<S>{}};
    no_storage_action b{typename F::h{}, endianess_h<E2>{}, signed_mode_h<S2>{}};
    action c{*stored<E, S>::pointer(typename F::h{}), endianess_h<E2>{}, signed_mode_h<S>{}};
    if (va_any()) {
      use<E, S, I> u;
      u.prepare(true);
      u.once(a);
    } else if (va_any()) {
      use<E2, S2, I> u;
      u.prepare(true);
      u.once(b);
    } else {
      use<E2, S, I> u;
      u.prepare(true);
      u.once(c);
    }
    va_reach("end");
  }
};
template<endianess E, signed_mode S>
struct mixed_each {
  static void run() { pick<mixed<E, S>>(); }
};
RPC_FORMATS(RPC_PROP, mixed, mixed_each)

VA_PROP(empty) {
  action a;
  a([]() { va_unreachable("an empty action fetches nothing"); return byte_t{}; }, [](byte_t) { va_unreachable("an empty action emits nothing"); });
  const action &ca = a;
  ca([]() { va_unreachable("an empty action fetches nothing"); return byte_t{}; });
  byte_t b[2] = {1, 2};
  a(b, b);
  va_eq(b[0] * 256 + b[1], 258, "an empty action emits nothing");
  action m{std::move(a)};
  m([]() { va_unreachable("an empty action fetches nothing"); return byte_t{}; }, [](byte_t) { va_unreachable("an empty action emits nothing"); });
  va_reach("end");
}
