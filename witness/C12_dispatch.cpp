// C12: a dispatcher runs exactly the action designated by the index, or nothing.
#include "many.hpp"
#include "rpc.hpp"
using namespace rpc;

template<endianess E, signed_mode S, action_features A>
struct designated {
  template<unsigned I>
  static void run() {
    using F = fn<I>;
    dispatcher<ring<E, S>, A> d;
    request<I, E, S> r;
    bool few = va_any();
    r.any(few);
    byte_t in[r.length + 1], out[F::out + 1];
    r.packet(in);
    in[r.length] = 0;
    out[F::out] = 0x3c;
    counting_source src{in};
    counting_sink dst{out};
    unsigned got;
    if (!few)
      got = d([&]() { return src(); }, [&](byte_t b) { dst(b); });
    else if (va_any())
      got = d(src, dst);
    else if (va_any())
      got = d(counting_input_it{in}, dst);
    else if (va_any())
      got = d(src, counting_output_it{out});
    else if (va_any())
      got = d(counting_input_it{in}, counting_output_it{out});
    else {
      auto *a = d.get_action(src);
      va_eq(fetched, IS, "bytes of the index");
      va_check(a == &d[at(I)], "the designated action is found");
      (*a)(src, dst);
      got = at(I);
    }
    va_eq(got, at(I), "the index is returned");
    r.called();
    va_eq(log_.in, r.length, "the arguments are fetched before the call");
    va_eq(log_.out, 0, "nothing is emitted before the call");
    va_eq(fetched, r.length, "bytes fetched");
    va_eq(emitted, F::out, "bytes emitted");
    keep(out, r.response, 0, F::out, "the result is emitted");
    va_eq(out[F::out], 0x3c, "nothing else is emitted");
    va_reach("designated");
  }
};
template<endianess E, signed_mode S, action_features A>
struct unknown {
  static unsigned value(const byte_t *p) {
    unsigned i = 0;
    for (unsigned k = 0; k < IS; k++)
      i |= static_cast<unsigned>(p[k]) << (8 * (E == spec::LE ? k : IS - 1 - k));
    return i;
  }
  static void run() {
    dispatcher<ring<E, S>, A> d;
    log_ = log_t();
    fetched = emitted = 0;
    byte_t in[IS], out[1] = {0};
    counting_source src{in};
    counting_sink dst{out};
    if (va_any()) {
      unknown_index(in, E);
      const unsigned i = value(in);
      unsigned got;
      if (va_any())
        got = d(src, dst);
      else if (va_any())
        got = d(counting_input_it{in}, counting_output_it{out});
      else {
        va_check(d.get_action(src) == nullptr, "no action is found for an unknown index");
        got = i;
      }
      va_eq(got, i, "the received index is returned");
      va_reach("unknown");
    } else {
      for (byte_t &b : in)
        b = va_u8();
      const unsigned i = value(in);
      unsigned got = d.get_index(src);
      va_eq(got, i, "the received index is returned");
    }
    va_eq(fetched, IS, "only the index is consumed");
    va_eq(emitted, 0, "nothing is emitted");
    va_eq(log_.n, 0, "nothing is called");
  }
};
template<endianess E, signed_mode S>
struct dispatch {
  static void run() {
    if (va_any())
      pick<designated<E, S, action_features::ANY>>();
    else if (va_any())
      pick<designated<E, S, action_features::WEAK_REFERENCE>>();
    else if (va_any())
      unknown<E, S, action_features::ANY>::run();
    else
      unknown<E, S, action_features::WEAK_REFERENCE>::run();
  }
};
RPC_FORMATS(RPC_PROP, dispatch, dispatch)

// Several requests in a row through the same dispatcher
template<endianess E, signed_mode S, action_features A>
struct sequence {
  template<unsigned I>
  static void run() {
    using F = fn<I>;
    dispatcher<ring<E, S>, A> d;
    byte_t junk[IS];
    unknown_index(junk, E);
    for (unsigned k = 0; k < 3; k++) {
      if (va_any())
        d(static_cast<const byte_t *>(junk), [](byte_t) { va_unreachable("nothing is emitted"); });
      request<I, E, S> r;
      r.any(true);
      byte_t in[r.length], out[F::out + 1];
      r.packet(in);
      va_eq(d(counting_source{in}, counting_sink{out}), at(I), "the index is returned");
      r.called();
      va_eq(fetched, r.length, "bytes fetched");
      va_eq(emitted, F::out, "bytes emitted");
      keep(out, r.response, 0, F::out, "the result is emitted");
    }
    va_reach("end");
  }
};
template<endianess E, signed_mode S>
struct sequences {
  static void run() {
    if (va_any())
      pick<sequence<E, S, action_features::ANY>>();
    else
      pick<sequence<E, S, action_features::WEAK_REFERENCE>>();
  }
};
RPC_PROP(LE, TC, sequence, sequences)
RPC_PROP(BE, SM, sequence, sequences)

// Indexes of two bytes
template<endianess E, signed_mode S, unsigned N, unsigned W, action_features A>
struct large {
  template<unsigned I>
  static void one() {
    dispatcher<many::ring<E, S, N>, A> d;
    byte_t in[W + 1];
    for (unsigned i = 0; i < W; i++)
      in[i] = spec::byte_at(I, W, i, E);
    std::uint8_t x = in[W] = va_u8();
    many::calls = 0;
    byte_t out[1];
    io::source src(in);
    io::sink sk(out);
    va_eq(d([&]() { return src(); }, [&](byte_t b) { sk(b); }), I, "the index is returned");
    va_eq(src.n, W + 1, "bytes fetched");
    va_eq(sk.n, 1, "bytes emitted");
    va_eq(many::calls, 1, "the designated function is called exactly once");
    va_eq(many::which, I, "no other function is called");
    va_eq(out[0], static_cast<std::uint8_t>(x + I), "the result is emitted");
    va_reach("one");
  }
  static void none() {
    dispatcher<many::ring<E, S, N>, A> d;
    byte_t in[W];
    std::uint64_t v = 0;
    for (unsigned i = 0; i < W; i++) {
      in[i] = va_u8();
      v |= static_cast<std::uint64_t>(in[i]) << (8 * (E == spec::LE ? i : W - 1 - i));
    }
    va_assume(v >= N);
    many::calls = 0;
    io::source src(in);
    va_eq(d([&]() { return src(); }, [](byte_t) { va_unreachable("nothing is emitted"); }), v, "the received index is returned");
    va_eq(src.n, W, "only the index is consumed");
    va_eq(many::calls, 0, "nothing is called");
    src.n = 0;
    va_check(d.get_action([&]() { return src(); }) == nullptr, "no action is found for an unknown index");
    va_reach("none");
  }
  static void run() {
    if (va_any())
      one<0>();
    else if (va_any())
      one<N / 2>();
    else if (va_any())
      one<N - 1>();
    else
      none();
  }
};
#define LARGE(N, W, A)                                                                                                 \
  VA_PROP(ring_##N##__LE) { large<spec::LE, spec::TC, N, W, action_features::A>::run(); }                              \
  VA_PROP(ring_##N##__BE) { large<spec::BE, spec::OC, N, W, action_features::A>::run(); }
LARGE(1, 1, ANY)
LARGE(2, 1, WEAK_REFERENCE)
LARGE(3, 1, ANY)
LARGE(254, 1, WEAK_REFERENCE)
LARGE(255, 1, WEAK_REFERENCE)
LARGE(256, 2, ANY)
LARGE(257, 2, WEAK_REFERENCE)
LARGE(300, 2, WEAK_REFERENCE)
