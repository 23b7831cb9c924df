// C23: instances do not share state.
#include "machine.hpp"
using namespace rpc;

constexpr auto E = spec::FE;
constexpr auto S = spec::FS;
constexpr auto EH = endianess_h<E>{};
constexpr auto SH = signed_mode_h<S>{};
using any_d = dispatcher<ring<E, S>, action_features::ANY>;
using weak_d = dispatcher<ring<E, S>, action_features::WEAK_REFERENCE>;

//! A packet, the arguments as recorded by the callee, the response
template<unsigned I>
struct exchange {
  using F = fn<I>;
  static constexpr unsigned length = IS + F::in;
  byte_t in[length], raw[F::in + 1], out[F::out + 1];
  hold<typename F::ret> result;
  void any() {
    request<I, E, S> r;
    r.any(true);
    r.packet(in);
    for (unsigned i = 0; i < F::in; i++) {
      raw[i] = r.raw[i];
    }
    for (unsigned i = 0; i < F::out; i++)
      out[i] = r.response[i];
    result = F::res::r;
  }
  void arm() const {
    F::res::r = result;
    log_ = log_t();
  }
  void called() const {
    va_eq(log_.n, 1, "each instance calls its function once");
    va_eq(log_.which, I, "each instance calls its own function");
    keep(log_.raw, raw, 0, F::in, "each instance gets its own arguments");
  }
  void put(byte_t *p, unsigned n) { keep(p, out, 0, n, "each instance gives its own response"); }
};

//! Two buffered dispatchers, interleaved byte after byte
template<typename D, unsigned I>
struct pair_of {
  D a, b;
  exchange<0> x;
  exchange<I> y;
  unsigned i, j;
  pair_of() : i(0), j(0) {
    x.any();
    y.any();
  }
  void put_a() {
    x.arm();
    va_check(a.put(x.in[i]) == (i == x.length - 1 ? packet_status::RESOLVED_PACKET : packet_status::LOADING_PACKET), "each instance has its own packet");
    if (i == x.length - 1)
      x.called();
    else
      va_eq(log_.n, 0, "nothing is called before the packet of the instance is complete");
    i++;
  }
  void put_b() {
    y.arm();
    va_check(b.put(y.in[j]) == (j == y.length - 1 ? packet_status::RESOLVED_PACKET : packet_status::LOADING_PACKET), "each instance has its own packet");
    if (j == y.length - 1)
      y.called();
    else
      va_eq(log_.n, 0, "nothing is called before the packet of the instance is complete");
    j++;
  }
  void run() {
    while (i < x.length || j < y.length)
      if (j >= y.length || (i < x.length && va_any()))
        put_a();
      else
        put_b();
    i = j = 0;
    log_ = log_t();
    while (i < fn<0>::out || j < fn<I>::out)
      if (j == fn<I>::out || (i < fn<0>::out && va_any())) {
        va_check(a.is_loaded(), "each instance has its own response");
        va_eq(a.get(), x.out[i], "each instance has its own response");
        i++;
      } else {
        va_check(b.is_loaded(), "each instance has its own response");
        va_eq(b.get(), y.out[j], "each instance has its own response");
        j++;
      }
    va_check(!a.is_loaded() && !b.is_loaded(), "each instance has its own response");
    va_reach("end");
  }
};
template<typename D>
void pairs() {
  if (va_any())
    pair_of<D, 0>().run();
  else if (va_any())
    pair_of<D, 6>().run();
  else
    pair_of<D, 2>().run();
}
VA_PROP(pairs__single_weak) { pairs<single_buffered_dispatcher<weak_d>>(); }
#ifndef WIDE
VA_PROP(pairs__double_any) { pairs<double_buffered_dispatcher<any_d>>(); }
VA_PROP(pairs__single_any) { pairs<single_buffered_dispatcher<any_d>>(); }
#endif
VA_PROP(pairs__double_weak) { pairs<double_buffered_dispatcher<weak_d>>(); }

//! Replacing in one
std::uint32_t other(std::uint8_t, std::int16_t) {
  log_.tag++;
  return 0;
}
template<typename D>
void replacing() {
  D a, b;
  exchange<0> x;
  x.any();
  a.template replace<at(0)>(UPD_CTREF(other));
  D c;
  byte_t out[4];
  for (D *d : {&b, &c}) {
    x.arm();
    counting_source src{x.in};
    fetched = emitted = 0;
    (*d)(src, counting_sink{out});
    x.called();
    va_eq(log_.tag, 0, "replacing in an instance does not change another");
    keep(out, x.out, 0, 4, "replacing in an instance does not change another");
  }
  x.arm();
  fetched = emitted = 0;
  a(counting_source{x.in}, counting_sink{out});
  va_eq(log_.tag * 16 + log_.n, 16, "the action is replaced in its own instance");
  va_reach("end");
}
VA_PROP(replacing__any) { replacing<any_d>(); }
VA_PROP(replacing__weak) { replacing<weak_d>(); }
VA_PROP(replacing__single) { replacing<single_buffered_dispatcher<any_d>>(); }
VA_PROP(replacing__double) { replacing<double_buffered_dispatcher<weak_d>>(); }

//! One used while the other is in use
static void (*inner)();
static unsigned when, done; // `when`: a byte fetched, 16 + a byte emitted, or 99 for the call
static exchange<0> outer_x, inner_x;
struct nested_source {
  const byte_t *p;
  unsigned *n;
  byte_t operator()() {
    if (*n == when && inner) {
      auto f = inner;
      inner = nullptr;
      f();
    }
    return p[(*n)++];
  }
};
struct nested_sink {
  byte_t *p;
  unsigned *n;
  void operator()(byte_t b) {
    if (*n + 16 == when && inner) {
      auto f = inner;
      inner = nullptr;
      f();
    }
    p[(*n)++] = b;
  }
};
//! What the callee does in turn
std::uint32_t reentrant(std::uint8_t a, std::int16_t b) {
  std::uint32_t r = fn<0>::res::r.v;
  if (when == 99 && inner) {
    auto f = inner;
    inner = nullptr;
    f();
    fn<0>::res::r.v = r;
    log_ = log_t();
  }
  f0(a, b);
  return r;
}
template<typename D>
struct both {
  static D *second;
  static void run_inner() {
    auto saved = log_;
    inner_x.arm();
    byte_t out[4];
    unsigned i = 0, o = 0;
    (*second)(nested_source{inner_x.in, &i}, nested_sink{out, &o});
    inner_x.called();
    va_eq(i * 8 + o, inner_x.length * 8 + 4, "bytes exchanged");
    inner_x.put(out, 4);
    outer_x.arm();
    log_ = saved;
    done++;
  }
  //! Another function, whose index has no byte in common with the one of `fn<0>`
  static void run_other() {
    auto saved = log_;
    log_ = log_t();
#ifdef WIDE
    constexpr unsigned length = IS + 1, n = 1;
    byte_t in[length], out[n];
    for (unsigned i = 0; i < IS; i++)
      in[i] = spec::byte_at(7, IS, i, E);
    in[IS] = va_u8();
#else
    constexpr unsigned length = IS, n = fn<2>::out;
    byte_t in[length] = {2}, out[n];
    fn<2>::res::r.v = 5;
#endif
    unsigned i = 0, o = 0;
    (*second)(nested_source{in, &i}, nested_sink{out, &o});
    va_eq(i * 8 + o, length * 8 + n, "bytes exchanged");
    va_eq(log_.n, 1, "each instance calls its function once");
#ifdef WIDE
    va_eq(log_.which, 107, "each instance calls its own function");
    va_eq(out[0], in[IS], "each instance gives its own response");
#else
    va_eq(log_.which, 2, "each instance calls its own function");
#endif
    outer_x.arm();
    log_ = saved;
    done++;
  }
  static void run(D &a, D &b) {
    second = &b;
    done = 0;
    outer_x.any();
    inner_x.any();
    outer_x.arm();
    when = va_any() ? 0 : va_any() ? 1 : va_any() ? inner_x.length - 1 : va_any() ? 16 : va_any() ? 18 : 99;
    inner = va_any() ? run_inner : run_other;
    byte_t out[4];
    unsigned i = 0, o = 0;
    a(nested_source{outer_x.in, &i}, nested_sink{out, &o});
    outer_x.called();
    va_eq(i * 8 + o, inner_x.length * 8 + 4, "bytes exchanged");
    outer_x.put(out, 4);
    if (done)
      va_reach("nested");
    va_reach("end");
  }
};
template<typename D>
D *both<D>::second;
template<typename D>
void nested() {
  D a, b;
  if (va_any()) {
    a.template replace<at(0)>(UPD_CTREF(reentrant));
    if (va_any())
      b.template replace<at(0)>(UPD_CTREF(reentrant));
  }
  both<D>::run(a, b);
}
VA_PROP(nested__any) { nested<any_d>(); }
VA_PROP(nested__weak) { nested<weak_d>(); }
VA_PROP(nested__single) { nested<single_buffered_dispatcher<weak_d>>(); }
VA_PROP(nested__double) { nested<double_buffered_dispatcher<any_d>>(); }

//! Reading and writing through keys
static const byte_t *deep;
static std::uint32_t deep_value;
void read_deep() {
  typename ring<E, S>::template key_t<fn<0>::h> k;
  unsigned i = 0;
  va_eq(k.read_from(nested_source{deep, &i}), deep_value, "each reading has its own value");
  done++;
}
static byte_t *deep_bytes;
static decltype(std::declval<typename ring<E, S>::template key_t<fn<0>::h>>()(0, 0)) *deep_packet;
void write_deep() {
  unsigned o = 0;
  deep_packet->write_to(nested_sink{deep_bytes, &o});
  va_eq(o, IS + 3, "each packet is written whole");
  done++;
}
VA_PROP(keys) {
  outer_x.any();
  inner_x.any();
  deep = inner_x.out;
  deep_value = inner_x.result.v;
  done = 0;
  inner = read_deep;
  when = va_any() ? 0 : va_any() ? 1 : va_any() ? 2 : 3;
  typename ring<E, S>::template key_t<fn<0>::h> k, l;
  unsigned n = 0;
  va_eq(k.read_from(nested_source{outer_x.out, &n}), outer_x.result.v, "each reading has its own value");
  va_eq(done, 1, "nested");
  std::uint8_t a = va_u8(), b = va_u8();
  auto m = k(a, 5), m2 = l(b, 6);
  va_eq(m.content.template get<1>(), a, "each packet has its own content");
  va_eq(m2.content.template get<1>(), b, "each packet has its own content");
  byte_t c[IS + 3], d[IS + 3];
  deep_packet = &m2;
  deep_bytes = d;
  done = 0;
  inner = write_deep;
  when = va_any() ? 16 : va_any() ? 17 : 18 + IS;
  unsigned o = 0;
  m.write_to(nested_sink{c, &o});
  va_eq(done, 1, "nested");
  va_eq(o, IS + 3, "each packet is written whole");
  keep(c, m.content.begin(), 0, IS + 3, "each packet is written whole");
  keep(d, m2.content.begin(), 0, IS + 3, "each packet is written whole");
  va_reach("end");
}

//! Actions of the same callback
struct counter {
  std::uint16_t n;
  std::uint16_t operator()(std::uint16_t x) {
    n = static_cast<std::uint16_t>(n ^ x);
    return n;
  }
};
VA_PROP(actions) {
  std::uint16_t s = va_u16(), t = va_u16();
  action a{counter{s}, EH, SH}, b{counter{t}, EH, SH};
  byte_t zero[2] = {0, 0}, out[2];
  tuple<E, S, std::uint16_t> r;
  for (unsigned i = 0; i < 4; i++) {
    bool first = va_any();
    (first ? a : b)(zero, r.begin());
    va_eq(r.get<0>(), first ? s : t, "each action has its own state");
  }
  (void)out;
  va_reach("end");
}
VA_PROP(tuples) {
  using T = tuple<E, S, std::uint8_t, std::int32_t, std::uint16_t[2]>;
  T a, b;
  byte_t old[T::size];
  for (unsigned i = 0; i < T::size; i++)
    b[i] = old[i] = va_u8();
  std::uint16_t arr[2] = {va_u16(), va_u16()};
  a.set<0>(va_u8());
  a.set<1>(77);
  a.set<2>(arr);
  (void)a.get<1>();
  T c{std::uint8_t(1), 2, arr};
  auto v = a.view<1, 2>();
  v.set<0>(1234);
  keep(b.begin(), old, 0, T::size, "each tuple has its own storage");
  va_eq(c.get<1>(), 2, "each tuple has its own storage");
  va_eq(a.get<1>(), 1234, "each tuple has its own storage");
  auto w = b.view<1, 1>();
  w.set<0>(99);
  va_eq(v.get<0>(), 1234, "each view has its own range");
  va_reach("end");
}

//! Positions of bytes which are themselves read from, and written to, another tuple through another position
static bool going;
struct nesting {
  using iterator_category = std::forward_iterator_tag;
  using value_type = byte_t;
  using difference_type = std::ptrdiff_t;
  using pointer = byte_t *;
  using reference = nesting;
  byte_t *p;
  using view_t = tuple_view<nesting, E, S, std::uint16_t, std::int32_t>;
  static void nest();
  operator byte_t() const {
    nest();
    return *p;
  }
  const nesting &operator=(byte_t b) const {
    nest();
    *p = b;
    return *this;
  }
  nesting(const nesting &) = default;
  explicit nesting(byte_t *p) : p(p) {}
  nesting &operator=(const nesting &o) {
    p = o.p;
    return *this;
  }
  nesting operator*() const { return *this; }
  nesting &operator++() { ++p; return *this; }
  nesting operator++(int) { return nesting(p++); }
  friend bool operator==(nesting a, nesting b) { return a.p == b.p; }
  friend bool operator!=(nesting a, nesting b) { return a.p != b.p; }
};
void nesting::nest() {
  if (!going) {
    going = true;
    view_t w{nesting{deep_bytes}};
    std::uint16_t x = w.get<0>();
    w.set<0>(static_cast<std::uint16_t>(x ^ 0xffff));
    w.set<1>(w.get<1>());
    done++;
    going = false;
  }
}
VA_PROP(nested_views) {
  using View = nesting::view_t;
  byte_t a[6], b[6], old[6];
  std::int32_t y = spec::any_in<std::int32_t>(S), z = spec::any_in<std::int32_t>(S);
  std::uint16_t x = va_u16(), w = va_u16();
  spec::put(x, a, E, S);
  spec::put(y, a + 2, E, S);
  spec::put(w, b, E, S);
  spec::put(z, b + 2, E, S);
  for (unsigned i = 0; i < 6; i++)
    old[i] = b[i];
  deep_bytes = b;
  done = 0;
  going = false;
  View v{nesting(a)};
  if (va_any()) {
    va_eq(v.get<0>(), x, "each reading has its own value");
    va_eq(v.get<1>(), y, "each reading has its own value");
    va_reach("read");
  } else {
    std::uint16_t x2 = va_u16();
    std::int32_t y2 = spec::any_in<std::int32_t>(S);
    v.set<0>(x2);
    v.set<1>(y2);
    byte_t c[6];
    spec::put(x2, c, E, S);
    spec::put(y2, c + 2, E, S);
    keep(a, c, 0, 6, "each writing has its own bytes");
    va_reach("written");
  }
  if (done % 2)
    for (unsigned i = 0; i < 2; i++)
      old[i] = static_cast<byte_t>(old[i] ^ 0xff);
  keep(b, old, 0, 6, "each writing has its own bytes");
  va_check(done >= 6, "nested");
  va_reach("end");
}
