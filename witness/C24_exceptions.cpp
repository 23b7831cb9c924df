// C24: an exception from user code leaves dispatchers usable and nothing leaked.
#include "machine.hpp"
using namespace rpc;

constexpr auto E = spec::FE;
constexpr auto S = spec::FS;
constexpr auto EH = endianess_h<E>{};
constexpr auto SH = signed_mode_h<S>{};
using any_d = dispatcher<ring<E, S>, action_features::ANY>;
using weak_d = dispatcher<ring<E, S>, action_features::WEAK_REFERENCE>;

//! What is thrown
extern int thrown_alive;
int thrown_alive;
struct failure {
  std::uint32_t code;
  explicit failure(std::uint32_t c) : code(c) { thrown_alive++; }
  failure(const failure &o) : code(o.code) { thrown_alive++; }
  ~failure() { thrown_alive--; }
};
static std::uint32_t code;
[[noreturn]] void fail() { throw failure{code}; }

//! Live callbacks
static int alive;
struct owned {
  unsigned mode; // 0: works, 1: throws
  unsigned *calls;
  owned(unsigned m, unsigned *c) : mode(m), calls(c) { alive++; }
  owned(const owned &o) : mode(o.mode), calls(o.calls) { alive++; }
  ~owned() { alive--; }
  std::uint32_t operator()(std::uint8_t a, std::int16_t b) {
    ++*calls;
    if (mode)
      fail();
    return f0(a, b);
  }
};
std::uint32_t bad0(std::uint8_t, std::int16_t) { fail(); }
void bad1() { fail(); }
void bad3(std::uint32_t) { fail(); }
three bad6(std::uint16_t) { fail(); }

//! Run something; the exception has to reach the caller unchanged
template<typename F>
void throws(F f) {
  thrown_alive = 0;
  code = va_u32();
  bool caught = false;
  try {
    f();
  } catch (const failure &x) {
    caught = true;
    va_eq(x.code, code, "the exception reaches the caller unchanged");
    va_eq(thrown_alive, 1, "the exception is not copied");
  } catch (...) {
    va_unreachable("the exception reaches the caller unchanged");
  }
  va_check(caught, "the exception reaches the caller");
}

//! Streams which throw at some byte
struct bad_source {
  const byte_t *p;
  unsigned at;
  byte_t operator()() {
    if (fetched == at)
      fail();
    return p[fetched++];
  }
};
struct bad_input_it : counting_input_it {
  unsigned at;
  bad_input_it(const byte_t *p, unsigned at) : counting_input_it{}, at(at) { this->p = p; }
  byte_t operator*() const {
    if (fetched == at)
      fail();
    return p[fetched];
  }
  bad_input_it &operator++() { fetched++; return *this; }
  proxy operator++(int) {
    if (fetched == at)
      fail();
    return proxy{p[fetched++]};
  }
};
struct bad_sink {
  byte_t *p;
  unsigned at;
  void operator()(byte_t b) {
    if (emitted == at)
      fail();
    p[emitted++] = b;
  }
};

//! The first function throws
template<unsigned I>
struct bad;
template<>
struct bad<0> {
  using h = unevaluated<std::uint32_t (*)(std::uint8_t, std::int16_t), &bad0>;
};
template<>
struct bad<1> {
  using h = unevaluated<void (*)(), &bad1>;
};
template<>
struct bad<3> {
  using h = unevaluated<void (*)(std::uint32_t), &bad3>;
};
template<>
struct bad<6> {
  using h = unevaluated<three (*)(std::uint16_t), &bad6>;
};

//! A buffered dispatcher whose function I throws, in the middle of a history
template<typename M, unsigned I>
void throwing(M &m) {
  using F = fn<I>;
  request<I, E, S> r;
  r.any(true);
  m.d.template replace<at(I)>(typename bad<I>::h{});
  byte_t in[r.length];
  r.packet(in);
  if (va_any()) {
    for (unsigned i = 0; i < r.length - 1; i++)
      m.put(in[i], packet_status::LOADING_PACKET);
    throws([&]() { m.d.put(in[r.length - 1]); });
  } else if (va_any())
    throws([&]() { m.d.read_from(counting_source{in}); });
  else
    throws([&]() { m.d(counting_source{in}, [](byte_t) { va_unreachable("nothing is emitted"); }); });
  m.from = m.to = 0;
  m.stale = false;
  va_check(!m.d.is_loaded(), "no response is pending after an action has thrown");
  m.rest();
  m.d.template replace<at(I)>(typename F::h{});
  va_reach("thrown");
}
template<typename M>
void throwing_any(M &m) {
  if (va_any())
    throwing<M, 0>(m);
  else if (va_any())
    throwing<M, 1>(m);
  else if (va_any())
    throwing<M, 3>(m);
  else
    throwing<M, 6>(m);
}
template<bool Double, action_features A>
void callbacks() {
  {
    machine<Double, E, S, A> m;
    while (va_more()) {
      if (va_any())
        throwing_any(m);
      else
        m.step();
      if (va_any())
        m.fetch();
      m.blur();
    }
  }
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
VA_PROP(callbacks__single) { callbacks<false, action_features::FA>(); }
VA_PROP(callbacks__double) { callbacks<true, action_features::FA>(); }

//! A source which throws: the packet is resumed with the next byte
template<bool Double, action_features A>
void resume(machine<Double, E, S, A> &m) {
  if (va_any()) {
    m.template request_any<6>(true);
    if (va_any())
      m.fetch();
  } else if (va_any())
    m.template request_any<1>(true);
  log_ = log_t();
  request<0, E, S> r;
  r.any(true);
  byte_t in[r.length];
  r.packet(in);
  unsigned at = va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : r.length - 1;
  if (va_any())
    throws([&]() { m.d.read_from(bad_source{in, at}); });
  else if (va_any())
    throws([&]() { m.d << bad_input_it(in, at); });
  else if (va_any())
    throws([&]() { m.d(bad_source{in, at}, [](byte_t) { va_unreachable("nothing is emitted"); }); });
  else {
    byte_t none;
    throws([&]() { m.d(bad_input_it(in, at), &none); });
  }
  va_eq(fetched, at, "bytes fetched");
  va_eq(log_.n, 0, "nothing is called");
  if (!Double && at > 0 && m.from != m.to)
    m.stale = true;
  m.rest();
  if (va_any()) {
    for (unsigned i = at; i < r.length; i++)
      m.put(in[i], i == r.length - 1 ? packet_status::RESOLVED_PACKET : packet_status::LOADING_PACKET);
  } else {
    va_check(m.d.read_from(counting_source{in}) == packet_status::RESOLVED_PACKET, "the packet is resumed with the next byte");
    va_eq(fetched, r.length, "bytes fetched");
  }
  m.resolved(r);
  while (m.from != m.to)
    m.fetch();
}
template<bool Double, action_features A>
void sources() {
  {
    machine<Double, E, S, A> m;
    while (va_more()) {
      resume(m);
      m.blur();
    }
  }
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
VA_PROP(sources__single) { sources<false, action_features::FA>(); }
VA_PROP(sources__double) { sources<true, action_features::FA>(); }

//! A sink which throws: the next packets are not disturbed
template<bool Double, action_features A>
void sinks() {
  {
    machine<Double, E, S, A> m;
    request<0, E, S> r;
    r.any(true);
    byte_t in[r.length], out[4];
    r.packet(in);
    unsigned at = va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : 3;
    if (va_any()) {
      m.load(r);
      if (va_any())
        throws([&]() { m.d.write_to(bad_sink{out, at}); });
      else
        throws([&]() { m.d >> bad_sink{out, at}; });
    } else {
      throws([&]() { m.d(counting_source{in}, bad_sink{out, at}); });
      r.called();
    }
    keep(out, r.response, 0, at, "the bytes emitted before are those of the response");
    m.stale = true;
    m.blur();
    while (va_more()) {
      m.step();
      m.blur();
    }
  }
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
VA_PROP(sinks__single) { sinks<false, action_features::FA>(); }
VA_PROP(sinks__double) { sinks<true, action_features::FA>(); }

//! Actions and plain dispatchers
//! The index comes first for dispatchers
template<typename A>
void plainly(A &a, bool index, unsigned *calls) {
  request<0, E, S> r;
  byte_t in[r.length], out[4];
  unsigned n = index ? r.length : 3;
  auto prepare = [&]() {
    r.any(true);
    if (calls)
      *calls = 0;
    unsigned i = 0;
    if (index)
      for (; i < IS; i++)
        in[i] = r.wire(i);
    for (unsigned j = 0; j < 3; j++)
      in[i++] = r.bytes[j];
  };
  prepare();
  if (va_any()) {
    unsigned at = va_any() ? 0 : va_any() ? 1 : n - 1;
    if (va_any())
      throws([&]() { a(bad_source{in, at}, [](byte_t) { va_unreachable("nothing is emitted"); }); });
    else
      throws([&]() { a(bad_input_it(in, at), out); });
    va_eq(fetched, at, "bytes fetched");
    va_eq(log_.n, 0, "nothing is called");
  } else {
    unsigned at = va_any() ? 0 : va_any() ? 1 : 3;
    throws([&]() { a(counting_source{in}, bad_sink{out, at}); });
    r.called();
    va_eq(emitted, at, "bytes emitted");
    keep(out, r.response, 0, at, "the bytes emitted before are those of the result");
  }
  // it is used again
  prepare();
  a(counting_source{in}, counting_sink{out});
  r.called();
  va_eq(fetched * 8 + emitted, n * 8 + 4, "bytes exchanged");
  keep(out, r.response, 0, 4, "the response is emitted");
}
VA_PROP(plain__action) {
  alive = 0;
  unsigned calls = 0;
  {
    action a{owned{0, &calls}, EH, SH};
    plainly(a, false, &calls);
    va_eq(alive, 1, "the callback is kept");
    va_eq(calls, 1, "the callback is called once");
  }
  va_eq(alive, 0, "the callback is destroyed once");
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
VA_PROP(plain__weak_action) {
  no_storage_action a{fn<0>::h{}, EH, SH};
  plainly(a, false, nullptr);
  va_reach("end");
}
VA_PROP(plain__dispatcher) {
  alive = 0;
  unsigned calls = 0;
  {
    any_d d;
    d.replace<rpc::at(0)>(owned{0, &calls});
    plainly(d, true, &calls);
    va_eq(alive, 1, "the callback is kept");
  }
  va_eq(alive, 0, "the callback is destroyed once");
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
VA_PROP(plain__weak_dispatcher) {
  weak_d d;
  plainly(d, true, nullptr);
  va_reach("end");
}
//! A callback which throws
template<typename A>
void once(A &a, bool index) {
  request<0, E, S> r;
  r.any(true);
  byte_t in[r.length], out[4];
  unsigned i = 0;
  if (index)
    for (; i < IS; i++)
      in[i] = r.wire(i);
  for (unsigned j = 0; j < 3; j++)
    in[i++] = r.bytes[j];
  (void)out;
  if (va_any())
    throws([&]() { a(counting_source{in}, [](byte_t) { va_unreachable("nothing is emitted"); }); });
  else
    throws([&]() { a(counting_input_it{in}, [](byte_t) { va_unreachable("nothing is emitted"); }); });
  va_eq(fetched, i, "bytes fetched");
}
VA_PROP(thrower__action) {
  alive = 0;
  unsigned calls = 0;
  {
    action a{owned{1, &calls}, EH, SH};
    once(a, false);
    once(a, false);
    va_eq(calls, 2, "the callback is called each time");
    va_eq(alive, 1, "the callback is kept");
  }
  va_eq(alive, 0, "the callback is destroyed once");
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
VA_PROP(thrower__weak_action) {
  no_storage_action a{bad<0>::h{}, EH, SH};
  once(a, false);
  va_reach("end");
}
VA_PROP(thrower__dispatcher) {
  alive = 0;
  unsigned calls = 0;
  {
    any_d d;
    d.replace<rpc::at(0)>(owned{1, &calls});
    once(d, true);
    va_eq(calls, 1, "the callback is called once");
    va_eq(alive, 1, "the callback is kept");
    d.replace<rpc::at(0)>(fn<0>::h{});
    va_eq(alive, 0, "the callback is destroyed when it is replaced");
    plainly(d, true, nullptr);
  }
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
//! Keys and packets
VA_PROP(keys) {
  request<0, E, S> r;
  r.any(true);
  auto k = make_ring<E, S>().get(fn<0>::h{});
  unsigned at = va_any() ? 0 : 3;
  throws([&]() { (void)k.read_from(bad_source{r.response, at}); });
  va_eq(fetched, at, "bytes fetched");
  va_eq(k.read_from(r.response), fn<0>::res::r.v, "the key is used again");
  auto m = r.message(k);
  byte_t out[r.length], expected[r.length];
  r.packet(expected);
  throws([&]() { m.write_to(bad_sink{out, at}); });
  va_eq(emitted, at, "bytes emitted");
  emitted = 0;
  m.write_to(counting_sink{out});
  keep(out, expected, 0, r.length, "the packet is emitted again");
  va_eq(va_live(), 0, "everything is released");
  va_reach("end");
}
