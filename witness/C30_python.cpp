// C30: dispatchers and packet statuses exposed to Python.
#include "pyring.hpp"
using namespace pyr;

constexpr keyring ring_{flist<f, f1, read_value, _set2, F11, f_arrays, is>, endianess_h<spec::FE>{}, signed_mode_h<spec::FS>{}};
constexpr unsigned ACTIONS = 7;

struct module_t {
  pb::module_ details{"_details"}, m{"module"};
  pb::object d;
  module_t() {
    pystub_init__details(details);
    upd::py::declare_dispatcher(m, "Dispatcher", ring_);
    va_check(pb::hasattr(m, "Dispatcher"), "the dispatcher is a class of the module");
    d = m.attr("Dispatcher")();
  }
  void status(pb::object s, const char *name) {
    va_check(s.ptr()->k == pb::model::INSTANCE, "statuses are packet statuses");
    va_eq(static_cast<unsigned>(s.cast<packet_status>()), static_cast<unsigned>(expected(name)), "status");
  }
  packet_status expected(const char *name) {
    pb::object e = details.attr("PacketStatus");
    return e.attr(name).cast<packet_status>();
  }
  bool loaded() {
    pb::object r = d.attr("is_loaded")();
    va_eq(r.ptr()->k, pb::model::BOOL, "is_loaded tells true or false");
    return r.ptr()->i != 0;
  }
  byte_t get() {
    pb::object r = d.attr("get")();
    va_eq(r.ptr()->k, pb::model::INT, "bytes are integers");
    va_eq(r.ptr()->i >> 8, 0, "bytes are integers");
    return static_cast<byte_t>(r.ptr()->i);
  }
  pb::object put(byte_t b) { return d.attr("put")(pb::int_(b)); }
};

VA_PROP(statuses) {
  module_t m;
  va_check(m.expected("LOADING_PACKET") == packet_status::LOADING_PACKET, "each status denotes the status of the same name");
  va_check(m.expected("RESOLVED_PACKET") == packet_status::RESOLVED_PACKET, "each status denotes the status of the same name");
  va_check(m.expected("DROPPED_PACKET") == packet_status::DROPPED_PACKET, "each status denotes the status of the same name");
  va_reach("end");
}

//! One packet, by any means; `base` is added to the number of the function expected to run
template<unsigned I>
struct packet {
  using F = fn<I>;
  request<I, spec::FE, spec::FS> r;
  byte_t in[F::in + 3], out[F::out + 2];
  void any(bool few) {
    r.any(few);
    in[0] = I;
    for (unsigned i = 0; i < F::in; i++)
      in[1 + i] = r.bytes[i];
    in[F::in + 1] = in[F::in + 2] = 0xff;
  }
  void receive(module_t &m, bool at_once) {
    if (at_once) {
      const byte_t *p = in;
      m.status(m.d.attr("read_from")(callable([p]() { return p[rpc::fetched++]; })), "RESOLVED_PACKET");
      va_eq(rpc::fetched, 1 + F::in, "exactly one packet is consumed");
    } else
      for (unsigned i = 0; i <= F::in; i++)
        m.status(m.put(in[i]), i == F::in ? "RESOLVED_PACKET" : "LOADING_PACKET");
  }
  void respond(module_t &m, bool at_once) {
    va_eq(m.loaded(), F::out != 0, "loaded as long as response bytes remain");
    if (at_once) {
      byte_t *p = out;
      pb::object x = m.d.attr("write_to")(callable([p](byte_t b) {
        va_check(rpc::emitted < F::out, "exactly the response is written");
        p[rpc::emitted++] = b;
      }));
      va_check(x.is_none(), "write_to returns nothing");
      va_eq(rpc::emitted, F::out, "exactly the response is written");
    } else
      for (unsigned i = 0; i < F::out; i++) {
        va_eq(m.loaded(), true, "loaded as long as response bytes remain");
        out[i] = m.get();
      }
    va_eq(m.loaded(), false, "loaded as long as response bytes remain");
    for (unsigned i = 0; i < F::out; i++)
      va_eq(out[i], r.response[i], "the response is the encoded result");
  }
  void run(module_t &m, unsigned which, bool few) {
    bool a = va_any(), b = va_any();
    any(few);
    receive(m, a);
    r.called(which);
    respond(m, b);
    va_reach("packet");
  }
};
void drop(module_t &m) {
  byte_t b = va_u8();
  va_assume(b >= ACTIONS);
  rpc::log_ = rpc::log_t();
  if (va_any())
    m.status(m.put(b), "DROPPED_PACKET");
  else {
    rpc::fetched = 0;
    m.status(m.d.attr("read_from")(callable([b]() { rpc::fetched++; return b; })), "DROPPED_PACKET");
    va_eq(rpc::fetched, 1, "only the index is consumed");
  }
  va_eq(rpc::log_.n, 0, "nothing is called");
  va_eq(m.loaded(), false, "loaded as long as response bytes remain");
}

//! Operations are forwarded
template<unsigned I>
void forwarded() {
  module_t m;
  va_eq(m.loaded(), false, "loaded as long as response bytes remain");
  packet<I> p;
  p.run(m, I, false);
  va_reach("end");
}
//! One after the other
template<unsigned I>
void sequence() {
  module_t m;
  if (va_any())
    drop(m);
  bool at_once = va_any();
  {
    packet<I> p;
    p.any(true);
    p.receive(m, at_once);
    p.r.called(I);
    p.respond(m, !at_once);
  }
  if (va_any())
    drop(m);
  {
    constexpr unsigned J = (I + 1) % ACTIONS;
    packet<J> p;
    p.any(true);
    p.receive(m, at_once);
    p.r.called(J);
    p.respond(m, at_once);
  }
  va_reach("end");
}

//! Two instances of the class are two dispatchers
VA_PROP(instances) {
  module_t m;
  pb::object d = m.d, e = m.m.attr("Dispatcher")();
  m.d = e;
  packet<0> p;
  p.any(true);
  p.receive(m, false);
  p.r.called(0);
  m.d = d;
  va_eq(m.loaded(), false, "a dispatcher of its own");
  m.d = e;
  p.respond(m, false);
  va_reach("end");
}

//! Python callables which replace the functions
template<unsigned I, typename Sig>
struct substitute;
template<unsigned I, typename R, typename... A>
struct substitute<I, R(A...)> {
  static pb::object make(unsigned which) {
    return callable([which](pb::args a) -> pb::object {
      va_eq(a.size(), sizeof...(A), "called with the decoded arguments");
      run(which, a, make_seq<sizeof...(A)>{});
      return pb::object(result(static_cast<R *>(nullptr)));
    });
  }
  template<unsigned N>
  using make_seq = typename el::mk<N>::type;
  template<unsigned... Is>
  static void run(unsigned which, const pb::args &a, seq<Is...>) {
    rpc::rec(which, a[Is].template cast<A>()...);
  }
  template<typename T>
  static pb::model::obj *result(T *) {
    return to_python(fn<I>::res::r.v).ptr();
  }
  static pb::model::obj *result(void *) { return pb::model::none(); }
};
template<unsigned I, unsigned J>
void replaced() {
  module_t m;
  if (va_any()) { // something was received before
    packet<J> p;
    p.any(true);
    p.receive(m, false);
    p.respond(m, true);
  }
  bool twice = va_any();
  pb::object key = m.m.attr(fn<I>::name());
  if (twice)
    m.d.attr("replace")(key, substitute<I, typename fn<I>::type>::make(60 + I));
  m.d.attr("replace")(key, substitute<I, typename fn<I>::type>::make(50 + I));
  packet<J> p;
  p.run(m, I == J ? 50 + I : J, I != J || I == 4 || I == 5);
  va_reach("end");
}
template<unsigned I, unsigned J>
struct replaced_all {
  static void run() {
    if (J == 0 || va_any())
      replaced<I, J>();
    else
      replaced_all<I, J == 0 ? 0 : J - 1>::run();
  }
};
template<unsigned I>
void replace() {
  replaced_all<I, ACTIONS - 1>::run();
}

//! Sizes and number of names
VA_PROP(keys) {
  module_t m;
  va_eq(public_names(m.m), ACTIONS + 1, "the keyring is unpacked");
  va_reach("end");
}

#ifndef PART
#define PART 0
#endif
#define ACTION(I)                                                                                                      \
  VA_PROP(forward_##I) { forwarded<I>(); }                                                                             \
  VA_PROP(sequence_##I) { sequence<I>(); }                                                                             \
  VA_PROP(replace_##I) { replace<I>(); }
#if PART == 0
ACTION(0) ACTION(1)
#elif PART == 1
ACTION(2) ACTION(3)
#elif PART == 2
ACTION(4) ACTION(5)
#else
ACTION(6)
#endif
