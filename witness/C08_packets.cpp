// C08: a request packet is the key's index followed by its arguments.
#include "rpc.hpp"
#include "many.hpp"
using namespace rpc;

template<endianess E, signed_mode S>
struct packets {
  template<unsigned I>
  static void run() {
    request<I, E, S> r;
    r.any();
    auto k = make_ring<E, S>().get(typename fn<I>::h{});
    constexpr unsigned n = request<I, E, S>::length;
    va_eq(k.payload_length, n, "announced length of a packet");
    va_eq(k.index, at(I), "position of the function in the keyring");
    va_eq(sizeof(k.index), IS, "size of the index");
    byte_t b[n + 1];
    io::sink sk(b);
    if (va_any())
      r.message(k).write_to([&](byte_t x) { sk(x); });
    else if (va_any())
      r.message(k) >> [&](byte_t x) { sk(x); };
    else {
      auto m = r.message(k);
      if (va_any())
        m.write_to(io::output_it{&sk});
      else {
        m.write_to([&](byte_t x) { sk(x); });
        va_eq(sk.n, n, "length of a packet");
        sk = io::sink(b);
        m >> io::output_it{&sk}; // a packet may be sent again
      }
    }
    va_eq(sk.n, n, "length of a packet");
    for (unsigned i = 0; i < IS; i++)
      va_eq(b[i], r.wire(i), "a packet starts with the index");
    keep(b + IS, r.bytes, 0, fn<I>::in, "the arguments follow in order");
    va_eq(log_.n, 0, "the function is not called by the caller");
    va_reach("end");
  }
};
template<endianess E, signed_mode S>
struct packets_of_each {
  static void run() { pick<packets<E, S>>(); }
};
RPC_FORMATS(RPC_PROP, packet, packets_of_each)

// Small and large keyrings: the index takes the smallest type able to hold the number of functions
template<endianess E, signed_mode S, unsigned N, unsigned W>
struct large {
  template<unsigned I>
  static void one() {
    using K = many::ring<E, S, N>;
    K kr;
    auto k = kr.get(many::h<I>{});
    va_eq(sizeof(typename K::index_t), W, "size of the index");
    va_eq(static_cast<std::uint64_t>(K::size), N, "number of functions");
    va_eq(k.index, I, "position of the function in the keyring");
    va_eq(k.payload_length, W + 1, "announced length of a packet");
    std::uint8_t x = va_u8();
    byte_t b[W + 1];
    io::sink sk(b);
    k(x).write_to([&](byte_t v) { sk(v); });
    va_eq(sk.n, W + 1, "length of a packet");
    for (unsigned i = 0; i < W; i++)
      va_eq(b[i], spec::byte_at(I, W, i, E), "index in the keyring's byte order");
    va_eq(b[W], x, "argument after the index");
    va_reach("one");
  }
  static void run() {
    if (va_any())
      one<0>();
    else if (va_any())
      one<N / 2>();
    else if (va_any())
      one<(N > 1 ? N - 2 : 0)>();
    else
      one<N - 1>();
  }
};
#define LARGE(N, W)                                                                                                    \
  VA_PROP(ring_##N##__LE) { large<spec::LE, spec::TC, N, W>::run(); }                                                  \
  VA_PROP(ring_##N##__BE) { large<spec::BE, spec::OC, N, W>::run(); }
LARGE(1, 1)
LARGE(2, 1)
LARGE(3, 1)
LARGE(254, 1)
LARGE(255, 1)
LARGE(256, 2)
LARGE(257, 2)
LARGE(300, 2)

// Function objects have keys too; references and qualified parameters travel as values
struct callable {
  std::int16_t operator()(std::uint8_t, std::int32_t) const { return 0; }
  int x;
};
callable object;
const std::int32_t &by_reference(const std::int32_t &x) { return x; }
std::int32_t by_const(const std::int16_t, const std::uint8_t &) { return 0; }
template<endianess E, signed_mode S>
struct others {
  static void run() {
    auto kr = make_keyring(make_flist(UPD_CTREF(by_reference), UPD_CTREF(object), UPD_CTREF(by_const)), endianess_h<E>{}, signed_mode_h<S>{});
    byte_t b[8], e[8];
    io::sink sk(b);
    if (va_any()) {
      auto k = kr.get(UPD_CTREF(object));
      std::uint8_t x = va_u8();
      std::int32_t y = spec::any_in<std::int32_t>(S);
      e[0] = 1;
      e[1] = x;
      spec::put(y, e + 2, E, S);
      va_eq(k.payload_length, 6, "announced length of a packet");
      k(x, y).write_to([&](byte_t v) { sk(v); });
      va_eq(sk.n, 6, "length of a packet");
      keep(b, e, 0, 6, "packet for a function object");
    } else if (va_any()) {
      auto k = kr.get(UPD_CTREF(by_reference));
      std::int32_t y = spec::any_in<std::int32_t>(S);
      e[0] = 0;
      spec::put(y, e + 1, E, S);
      va_eq(k.payload_length, 5, "announced length of a packet");
      k(y).write_to([&](byte_t v) { sk(v); });
      va_eq(sk.n, 5, "length of a packet");
      keep(b, e, 0, 5, "packet for a function taking references");
    } else {
      auto k = kr.get(UPD_CTREF(by_const));
      std::int16_t y = spec::any_in<std::int16_t>(S);
      std::uint8_t x = va_u8();
      e[0] = 2;
      spec::put(y, e + 1, E, S);
      e[3] = x;
      va_eq(k.payload_length, 4, "announced length of a packet");
      k(y, x).write_to([&](byte_t v) { sk(v); });
      va_eq(sk.n, 4, "length of a packet");
      keep(b, e, 0, 4, "packet for a function taking qualified parameters");
    }
    va_reach("end");
  }
};
RPC_FORMATS(RPC_PROP, others, others)

// Packets of values unpacked from a tuple
template<endianess E, signed_mode S>
struct from_tuple {
  static void run() {
    request<0, E, S> r;
    r.any();
    auto k = make_ring<E, S>().get(fn<0>::h{});
    tuple<spec::BE, spec::TC, std::uint8_t, std::int16_t> t{r.args.head, r.args.tail.head};
    byte_t b[IS + 3];
    io::sink sk(b);
    t.invoke(k) >> [&](byte_t x) { sk(x); };
    va_eq(sk.n, IS + 3, "length of a packet");
    for (unsigned i = 0; i < IS; i++)
      va_eq(b[i], r.wire(i), "a packet starts with the index");
    keep(b + IS, r.bytes, 0, 3, "the elements of the tuple follow in order");
    va_reach("end");
  }
};
RPC_FORMATS(RPC_PROP, from_tuple, from_tuple)
