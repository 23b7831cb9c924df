// Buffered dispatchers under arbitrary histories.
#pragma once
#include "rpc.hpp"

namespace rpc {

template<bool Double, endianess E, signed_mode S, action_features A>
struct machine_types {
  using type = single_buffered_dispatcher<dispatcher<ring<E, S>, A>>;
};
template<endianess E, signed_mode S, action_features A>
struct machine_types<true, E, S, A> {
  using type = double_buffered_dispatcher<dispatcher<ring<E, S>, A>>;
};

//! A buffered dispatcher and what is expected from it
template<bool Double, endianess E, signed_mode S, action_features A>
struct machine {
  using D = typename machine_types<Double, E, S, A>::type;
  D d;
  byte_t pending[10]; // response which was not fetched yet
  unsigned from, to;
  bool stale; // the pending response was overwritten by what was received next
  machine() : pending(), from(0), to(0), stale(false) {}

  //! Forget what does not matter for the future
  void forget() {
    log_ = log_t();
    fetched = emitted = 0;
    forget_results(make<COUNT>{});
    for (unsigned i = 0; i < 10; i++)
      if (i < from || i >= to)
        pending[i] = 0;
  }
  //! Generalise: the buffers may hold anything, hence nothing is expected from a pending response
  void blur() {
    from = to = 0;
    stale = true;
    forget();
    va_blur(&d, sizeof d);
  }
  template<unsigned... Is>
  void forget_results(seq<Is...>) {
    EL_EACH(any_result(fn<Is>::res::r));
  }
  template<typename R>
  static void any_result(hold<R> &r) {
    r = hold<R>();
  }
  static void any_result(hold<void> &) {}

  void rest() const {
    if (!stale)
      va_eq(d.is_loaded(), from != to, "the dispatcher is loaded as long as response bytes remain");
  }
  void put(byte_t b, packet_status s) { va_eq(static_cast<unsigned>(d.put(b)), static_cast<unsigned>(s), "status of the packet"); }
  void fetch() {
    rest();
    if (from == to) {
      d.get(); // any byte
      rest();
    } else
      va_eq(d.get(), pending[from++], "bytes of the response come in order");
    rest();
  }
  void fetch_some(bool exhaust = true) {
    if (stale) {
      if (va_any())
        d.get(); // any byte
      return;
    }
    while (from != to) {
      if (va_any()) {
        if (exhaust && va_any())
          break;
        return;
      }
      fetch();
    }
    while (from != to)
      fetch();
    if (va_any())
      fetch();
  }
  //! A packet for an unknown function
  void drop() {
    byte_t b[IS];
    unknown_index(b, E);
    log_ = log_t();
    for (unsigned i = 0; i < IS; i++)
      put(b[i], i == IS - 1 ? packet_status::DROPPED_PACKET : packet_status::LOADING_PACKET);
    va_eq(log_.n, 0, "nothing is called");
    if (!Double && from != to)
      stale = true;
    rest();
    va_reach("drop");
  }
  template<unsigned I>
  void load(request<I, E, S> &r) {
    for (unsigned i = 0; i < r.length; i++) {
      if (Double)
        rest();
      if (Double && i == fn<I>::in / 2 && va_any())
        fetch();
      put(r.wire(i), i == r.length - 1 ? packet_status::RESOLVED_PACKET : packet_status::LOADING_PACKET);
      if (i < r.length - 1)
        va_eq(log_.n, 0, "nothing is called before the request is complete");
    }
    resolved(r);
  }
  template<unsigned I>
  void resolved(request<I, E, S> &r) {
    r.called();
    stale = false;
    from = 0;
    to = fn<I>::out;
    for (unsigned i = 0; i < fn<I>::out; i++)
      pending[i] = r.response[i];
    rest();
    va_reach("resolved");
  }
  template<unsigned I>
  void request_any(bool few) {
    request<I, E, S> r;
    r.any(few);
    load(r);
  }
  template<unsigned I>
  void request_one(bool few) {
    if (I == 0 || va_any())
      request_any<I>(few);
    else
      request_one<(I == 0 ? 0 : I - 1)>(few);
  }
  //! Any packet
  void step(bool few = true) {
    if (va_any())
      drop();
    else
      request_one<COUNT - 1>(few);
  }
};

} // namespace rpc
