// C16: responses come out of a buffered dispatcher complete, in order and once.
#include "machine.hpp"
using namespace rpc;

#define BOTH(NAME, ENTRY)                                                                                              \
  VA_PROP(NAME##__single) { ENTRY<false, spec::FE, spec::FS, action_features::FA>(); }                                 \
  VA_PROP(NAME##__double) { ENTRY<true, spec::FE, spec::FS, action_features::FA>(); }

//! Fetch what is left with a function, an iterator or an operator
template<typename M>
void fetch_rest(M &m) {
  byte_t out[9];
  for (byte_t &b : out)
    b = 0x3c;
  unsigned n = m.to - m.from;
  emitted = 0;
  counting_sink sk{out};
  if (va_any())
    m.d.write_to([&](byte_t b) { sk(b); });
  else if (va_any())
    m.d >> [&](byte_t b) { sk(b); };
  else if (va_any())
    m.d.write_to(sk);
  else if (va_any())
    m.d.write_to(counting_output_it{out});
  else if (va_any())
    m.d >> counting_output_it{out};
  else {
    m.d.write_to(static_cast<byte_t *>(out));
    emitted = n;
  }
  va_eq(emitted, n, "all the bytes left are written, and no other");
  for (unsigned i = 0; i < n; i++)
    va_eq(out[i], m.pending[m.from + i], "bytes of the response come in order");
  for (unsigned i = n; i < 9; i++)
    va_eq(out[i], 0x3c, "all the bytes left are written, and no other");
  m.from = m.to;
  m.rest();
  m.d.get(); // any byte
  m.rest();
  m.d.write_to([](byte_t) { va_unreachable("nothing is left to write"); });
  va_reach("rest");
}

//! Any mixture of ways to fetch, after any history
template<bool Double, endianess E, signed_mode S, action_features A>
void mixture() {
  machine<Double, E, S, A> m;
  while (va_more()) {
    m.step();
    unsigned k = 0;
    while (m.from != m.to && k < 3 && va_any()) {
      m.fetch();
      k++;
    }
    fetch_rest(m);
    m.blur();
  }
  va_reach("end");
}
BOTH(mixture, mixture)

//! Responses written by the operation which receives the request
template<typename M, unsigned I, endianess E, signed_mode S>
void processed(M &m) {
  request<I, E, S> r;
  r.any(true);
  byte_t in[r.length], out[fn<I>::out + 1];
  r.packet(in);
  packet_status s;
  if (va_any())
    s = m.d(counting_source{in}, counting_sink{out});
  else if (va_any())
    s = m.d(counting_input_it{in}, counting_output_it{out});
  else {
    s = m.d(static_cast<const byte_t *>(in), counting_sink{out});
    fetched = r.length;
  }
  va_eq(static_cast<unsigned>(s), static_cast<unsigned>(packet_status::RESOLVED_PACKET), "status of the packet");
  va_eq(fetched, r.length, "exactly one packet is consumed");
  va_eq(emitted, fn<I>::out, "all the bytes are written, and no other");
  keep(out, r.response, 0, fn<I>::out, "bytes of the response come in order");
  m.from = m.to = 0;
  m.stale = false;
  m.rest();
  va_reach("processed");
}
template<bool Double, endianess E, signed_mode S, action_features A>
void at_once() {
  using M = machine<Double, E, S, A>;
  M m;
  while (va_more()) {
    if (va_any())
      m.template request_any<0>(true);
    else
      m.template request_any<COUNT - 1>(true);
    unsigned k = 0;
    while (m.from != m.to && k < 3 && va_any()) {
      m.fetch();
      k++;
    }
    if (va_any()) {
      byte_t in[IS];
      unknown_index(in, E);
      fetched = 0;
      packet_status s = m.d(counting_source{in}, [](byte_t) { va_unreachable("nothing is written when no request is resolved"); });
      va_eq(static_cast<unsigned>(s), static_cast<unsigned>(packet_status::DROPPED_PACKET), "status of the packet");
      if (!Double && m.from != m.to)
        m.stale = true;
    } else if (va_any())
      processed<M, 1, E, S>(m);
    else
      processed<M, COUNT - 1, E, S>(m);
    if (!m.stale)
      fetch_rest(m);
    m.blur();
  }
  va_reach("end");
}
BOTH(at_once, at_once)

//! Any result is fetched as it was encoded
template<bool Double, endianess E, signed_mode S, action_features A>
void any_value() {
  machine<Double, E, S, A> m;
  m.template request_one<COUNT - 1>(false);
  while (m.from != m.to)
    m.fetch();
  m.fetch();
  va_reach("end");
}
BOTH(any_value, any_value)

//! Double-buffered: an unread response outlives what is received next, until a request is resolved
template<endianess E, signed_mode S, action_features A>
struct undisturbed {
  template<unsigned I>
  static void run() {
    machine<true, E, S, A> m;
    m.template request_one<COUNT - 1>(true);
    m.forget();
    request<I, E, S> r;
    r.any(true);
    for (unsigned i = 0; i < r.length; i++) {
      if (va_any() && m.from != m.to) {
        m.fetch();
        if (va_any() && m.from != m.to)
          m.fetch();
      }
      m.rest();
      if (i == 0 && va_any())
        m.drop();
      log_ = log_t();
      m.put(r.wire(i), i == r.length - 1 ? packet_status::RESOLVED_PACKET : packet_status::LOADING_PACKET);
    }
    m.resolved(r);
    m.fetch_some();
    va_reach("end");
  }
};
#ifdef EXT
VA_PROP(undisturbed__long) { undisturbed<spec::FE, spec::FS, action_features::FA>::run<0>(); }
#else
VA_PROP(undisturbed__long) { undisturbed<spec::FE, spec::FS, action_features::FA>::run<3>(); }
#endif
VA_PROP(undisturbed__none) { undisturbed<spec::FE, spec::FS, action_features::FA>::run<2>(); }
