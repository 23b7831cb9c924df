// C08, C09, C10, C12: requests and responses of hundreds of bytes.
#include "long.hpp"
#include <upd/action.hpp>
using namespace upd;
using namespace lengthy;

template<endianess E, signed_mode S>
struct along {
  using R = ring<E, S>;
  static void packets() {
    R k;
    bytes_t x;
    words_t w;
    byte_t expected[N], out[N + 1];
    for (unsigned i = 0; i < N; i++)
      x[i] = va_u8();
    for (unsigned i = 0; i < M; i++) {
      w[i] = va_u16();
      el::elem<std::uint16_t>::put(w[i], expected + 2 * i, E, S);
    }
    unsigned n = 0;
    auto sink = [&](byte_t b) {
      va_check(n <= N, "no more than the packet is written");
      out[n++] = b;
    };
    unsigned index;
    if (va_any()) {
      index = 0;
      k.get(LENGTHY(echo){})(x).write_to(sink);
    } else if (va_any()) {
      index = 1;
      k.get(LENGTHY(in){})(x) >> sink;
    } else {
      index = 4;
      k.get(LENGTHY(take){})(w).write_to(sink);
    }
    va_eq(n, 1 + in_size(index), "length of the packet");
    va_eq(out[0], index, "the packet starts with the index");
    for (unsigned i = 0; i < in_size(index); i++)
      va_eq(out[1 + i], index == 4 ? expected[i] : x[i], "bytes of the arguments");
    va_reach("end");
  }
  static void responses() {
    R k;
    for (unsigned i = 0; i < N; i++)
      sent[i] = va_u8();
    unsigned n = 0;
    auto source = [&]() -> byte_t { return sent[n++ % N]; };
    if (va_any()) {
      bytes_t x = k.get(LENGTHY(echo){}).read_from(source);
      va_eq(n, N, "exactly the response is consumed");
      for (unsigned i = 0; i < N; i++)
        va_eq(x[i], sent[i], "the decoded value is the result");
    } else {
      std::array<std::uint8_t, 256> x = k.get(LENGTHY(page){}) << source;
      va_eq(n, 256, "exactly the response is consumed");
      for (unsigned i = 0; i < 256; i++)
        va_eq(x[i], sent[i], "the decoded value is the result");
    }
    va_reach("end");
  }
  template<typename A>
  static void invoke(A &&run, unsigned i, unsigned index) {
    byte_t request[N];
    for (unsigned j = 0; j < N; j++) {
      sent[j] = va_u8();
      request[j] = va_u8();
    }
    unsigned taken = 0, given = 0;
    calls = 0;
    run([&]() -> byte_t {
      va_check(taken < index + in_size(i), "no more than the arguments are consumed");
      taken++;
      return taken <= index ? i : request[taken - index - 1];
    }, [&](byte_t b) {
      va_check(given < out_size(i), "no more than the result is written");
      va_eq(b, sent[given++], "bytes of the result");
    });
    va_eq(taken, index + in_size(i), "all the arguments are consumed");
    va_eq(given, out_size(i), "the whole result is written");
    va_eq(calls, 1, "the function is called once");
    va_eq(which, i, "no other function is called");
    for (unsigned j = 0; j < in_size(i) && i < 3; j++)
      va_eq(received[j], request[j], "arguments");
    va_reach("end");
  }
  struct runner {
    action &a;
    template<typename Src, typename Dst>
    void operator()(Src src, Dst dst) { a(src, dst); }
  };
  struct plain_runner {
    no_storage_action &a;
    template<typename Src, typename Dst>
    void operator()(Src src, Dst dst) { a(src, dst); }
  };
  template<typename D>
  struct dispatching {
    D &d;
    template<typename Src, typename Dst>
    void operator()(Src src, Dst dst) { d(src, dst); }
  };
  template<typename F, typename H>
  static void action_of(F f, H h, unsigned i) {
    action a{f, endianess_h<E>{}, signed_mode_h<S>{}};
    va_eq(a.input_size(), in_size(i), "announced size of the arguments");
    va_eq(a.output_size(), out_size(i), "announced size of the result");
    invoke(runner{a}, i, 0);
    no_storage_action b{h, endianess_h<E>{}, signed_mode_h<S>{}};
    va_eq(b.input_size(), in_size(i), "announced size of the arguments");
    va_eq(b.output_size(), out_size(i), "announced size of the result");
    invoke(plain_runner{b}, i, 0);
  }
  static void actions() {
    if (va_any())
      action_of(echo, LENGTHY(echo){}, 0);
    else if (va_any())
      action_of(in, LENGTHY(in){}, 1);
    else if (va_any())
      action_of(out, LENGTHY(out){}, 2);
    else if (va_any())
      action_of(page, LENGTHY(page){}, 3);
    else
      action_of(take, LENGTHY(take){}, 4);
  }
  template<action_features A>
  static void dispatch() {
    dispatcher<R, A> d;
    unsigned i = va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : va_any() ? 3 : 4;
    va_eq(d[i].input_size(), in_size(i), "announced size of the arguments");
    va_eq(d[i].output_size(), out_size(i), "announced size of the result");
    invoke(dispatching<dispatcher<R, A>>{d}, i, 1);
  }
};
#if PART == 8
#define ALONG(N, E, S) VA_PROP(packets__##N) { along<spec::E, spec::S>::packets(); }
#elif PART == 9
#define ALONG(N, E, S) VA_PROP(responses__##N) { along<spec::E, spec::S>::responses(); }
#elif PART == 10
#define ALONG(N, E, S) VA_PROP(actions__##N) { along<spec::E, spec::S>::actions(); }
#else
#define ALONG(N, E, S)                                                                                                 \
  VA_PROP(dispatch_any__##N) { along<spec::E, spec::S>::template dispatch<action_features::ANY>(); }                   \
  VA_PROP(dispatch_weak__##N) { along<spec::E, spec::S>::template dispatch<action_features::WEAK_REFERENCE>(); }
#endif
ALONG(le, LE, TC)
ALONG(be, BE, SM)
