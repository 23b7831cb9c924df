// C14: statuses and resynchronisation over arbitrary histories.
#include "machine.hpp"
using namespace rpc;

#define BOTH(NAME, ENTRY)                                                                                              \
  VA_PROP(NAME##__single) { ENTRY<false, spec::FE, spec::FS, action_features::FA>(); }                                 \
  VA_PROP(NAME##__double) { ENTRY<true, spec::FE, spec::FS, action_features::FA>(); }

//! Packets byte after byte, after any history
template<bool Double, endianess E, signed_mode S, action_features A>
void history() {
  machine<Double, E, S, A> m;
  while (va_more()) {
    m.step();
    m.fetch_some();
    m.blur();
  }
  va_reach("end");
}
BOTH(history, history)

//! Two packets in a row on a new dispatcher, whatever is fetched in between
template<bool Double, endianess E, signed_mode S, action_features A>
void fresh() {
  machine<Double, E, S, A> m;
  m.rest();
  if (va_any())
    m.fetch();
  m.step();
  if (va_any())
    m.fetch_some();
  m.forget();
  m.step();
  va_reach("end");
}
BOTH(fresh, fresh)

//! Whole packets at once, after any history
template<bool Double, endianess E, signed_mode S, action_features A>
struct whole {
  using M = machine<Double, E, S, A>;
  template<unsigned I>
  static void one(M &m) {
    using F = fn<I>;
    request<I, E, S> r;
    r.any(true);
    byte_t in[r.length + 1], out[F::out + 1];
    r.packet(in);
    in[r.length] = 0xff;
    if (IS > 1 && va_any())
      m.put(in[fetched++], packet_status::LOADING_PACKET);
    counting_source src{in};
    counting_sink dst{out};
    packet_status s;
    bool written = false;
    if (va_any())
      s = m.d.read_from(src);
    else if (va_any())
      s = m.d << [&]() { return src(); };
    else if (va_any())
      s = m.d.read_from(counting_input_it{in});
    else if (va_any())
      s = m.d << counting_input_it{in};
    else {
      if (va_any())
        s = m.d(src, dst);
      else
        s = m.d(counting_input_it{in}, counting_output_it{out});
      written = true;
    }
    va_eq(static_cast<unsigned>(s), static_cast<unsigned>(packet_status::RESOLVED_PACKET), "status of the packet");
    va_eq(fetched, r.length, "exactly one packet is consumed");
    if (!written)
      return m.resolved(r);
    r.called();
    va_eq(emitted, F::out, "bytes emitted");
    keep(out, r.response, 0, F::out, "the response is emitted");
    m.from = m.to = 0;
    m.stale = false;
    m.rest();
  }
  static void none(M &m) {
    log_ = log_t();
    fetched = emitted = 0;
    byte_t in[IS + 1] = {};
    unknown_index(in, E);
    if (IS > 1 && va_any())
      m.put(in[fetched++], packet_status::LOADING_PACKET);
    packet_status s;
    if (va_any())
      s = m.d.read_from(counting_source{in});
    else
      s = m.d(counting_source{in}, [](byte_t) { va_unreachable("nothing is emitted after a dropped packet"); });
    va_eq(static_cast<unsigned>(s), static_cast<unsigned>(packet_status::DROPPED_PACKET), "status of the packet");
    va_eq(fetched, IS, "only the index is consumed");
    va_eq(log_.n, 0, "nothing is called");
    if (!Double && m.from != m.to)
      m.stale = true;
    m.rest();
  }
  template<unsigned I>
  static void any(M &m) {
    if (I == 0 || va_any())
      one<I>(m);
    else
      any<(I == 0 ? 0 : I - 1)>(m);
  }
};
template<bool Double, endianess E, signed_mode S, action_features A>
void packets() {
  using W = whole<Double, E, S, A>;
  typename W::M m;
  while (va_more()) {
    if (va_any())
      W::none(m);
    else
      W::template any<COUNT - 1>(m);
    if (va_any())
      m.fetch_some();
    m.blur();
  }
  va_reach("end");
}
BOTH(packets, packets)

//! A packet started byte after byte and completed at once
template<bool Double, endianess E, signed_mode S, action_features A>
void started() {
  machine<Double, E, S, A> m;
  if (va_any())
    m.drop();
  request<0, E, S> r;
  r.any(true);
  for (unsigned i = 0; i < IS; i++)
    m.put(r.wire(i), packet_status::LOADING_PACKET);
  byte_t in[4] = {r.bytes[0], r.bytes[1], r.bytes[2], 0xff};
  if (va_any())
    m.put(in[fetched++], packet_status::LOADING_PACKET);
  if (va_any())
    m.put(in[fetched++], packet_status::LOADING_PACKET);
  va_eq(static_cast<unsigned>(m.d.read_from(counting_source{in})), static_cast<unsigned>(packet_status::RESOLVED_PACKET), "status of the packet");
  va_eq(fetched, 3, "exactly one packet is consumed");
  m.resolved(r);
  va_reach("end");
}
BOTH(started, started)
