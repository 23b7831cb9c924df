// C13: a remote call returns what the local call would have returned.
#include "machine.hpp"
using namespace rpc;

#ifndef FA
#define FA ANY
#endif

template<typename R>
struct decoded {
  template<typename Key>
  static void check(const Key &k, const byte_t *p, const hold<R> &h) {
    unsigned n = 0;
    elem<R>::same(k.read_from([&]() { return p[n++]; }), h.v, "the value returned by the function is obtained by the caller");
    va_eq(n, elem<R>::size, "bytes of the response consumed");
  }
};
template<>
struct decoded<void> {
  template<typename Key>
  static void check(const Key &k, const byte_t *, const hold<void> &) {
    k.read_from([]() { va_unreachable("nothing is consumed"); return byte_t{}; });
  }
};

template<endianess E, signed_mode S>
struct remote {
  template<unsigned I>
  static void run() {
    using F = fn<I>;
    request<I, E, S> r;
    bool few = va_any();
    r.any(few);
    auto k = make_ring<E, S>().get(typename F::h{});
    byte_t wire[r.length + 1], back[F::out + 1];
    unsigned n = 0, m = 0;
    r.message(k).write_to([&](byte_t b) { wire[n++] = b; });
    va_eq(n, r.length, "length of the packet");
    if (!few || va_any()) {
      dispatcher<ring<E, S>, action_features::FA> d;
      d(counting_source{wire}, [&](byte_t b) { back[m++] = b; });
    } else if (va_any())
      buffered<typename machine_types<false, E, S, action_features::FA>::type>(wire, n, back, m);
    else
      buffered<typename machine_types<true, E, S, action_features::FA>::type>(wire, n, back, m);
    r.called();
    va_eq(m, F::out, "length of the response");
    decoded<typename F::ret>::check(k, back, F::res::r);
    va_reach("end");
  }
  template<typename D>
  static void buffered(const byte_t *wire, unsigned n, byte_t *back, unsigned &m) {
    D d;
    if (va_any()) {
      packet_status s = packet_status::LOADING_PACKET;
      for (unsigned i = 0; i < n; i++)
        s = d.put(wire[i]);
      va_check(s == packet_status::RESOLVED_PACKET, "the request is resolved");
      if (va_any())
        while (d.is_loaded())
          back[m++] = d.get();
      else
        d.write_to([&](byte_t b) { back[m++] = b; });
    } else {
      auto s = d(wire, [&](byte_t b) { back[m++] = b; });
      va_check(s == packet_status::RESOLVED_PACKET, "the request is resolved");
    }
  }
};
template<endianess E, signed_mode S>
struct remote_each {
  static void run() { pick<remote<E, S>>(); }
};
RPC_FORMATS(RPC_PROP, remote, remote_each)
